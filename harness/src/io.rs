//! Readers and writers which follow a generated schedule.
use std::io::{self, ErrorKind, Read, Write};

/// One step of a schedule: how the next call behaves.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Step {
    /// transfer at most this many octets (at least one)
    Max(usize),
    Interrupt,
}

/// So many calls without a transfer are taken for an endless loop.
pub const MAX_IDLE: usize = 1 << 20;
/// After so many calls the transfers get larger, to bound the time.
const MANY_CALLS: usize = 200_000;

/// Delivers `data` according to `steps` (cyclic); optionally fails after `fail_at` octets.
pub struct SchedReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub steps: &'a [Step],
    pub call: usize,
    pub fail_at: Option<(usize, ErrorKind)>,
    /// fails a single time, and works again afterwards
    pub once: bool,
    pub failed: bool,
    interrupts_in_a_row: usize,
    idle: usize,
}
impl<'a> SchedReader<'a> {
    pub fn new(data: &'a [u8], steps: &'a [Step]) -> Self {
        SchedReader { data, pos: 0, steps, call: 0, fail_at: None, once: false, failed: false, interrupts_in_a_row: 0, idle: 0 }
    }
    pub fn failing(data: &'a [u8], steps: &'a [Step], at: usize, kind: ErrorKind) -> Self {
        SchedReader { fail_at: Some((at, kind)), ..Self::new(data, steps) }
    }
}
pub const MARK: &str = "injected by the check";
impl Read for SchedReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.call += 1;
        self.idle += 1;
        assert!(self.idle < MAX_IDLE, "the reader was called {} times in vain", self.idle);
        if buf.is_empty() {
            return Ok(0);
        }
        let step = if self.steps.is_empty() { Step::Max(usize::MAX) } else { self.steps[self.call % self.steps.len()] };
        if step == Step::Interrupt && self.interrupts_in_a_row < 5 {
            self.interrupts_in_a_row += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupts_in_a_row = 0;
        let mut n = match step {
            Step::Max(n) => n.max(1),
            Step::Interrupt => 1,
        };
        if self.call > MANY_CALLS {
            n = n.saturating_mul(4096);
        }
        n = n.min(buf.len()).min(self.data.len() - self.pos);
        if let Some((at, kind)) = self.fail_at {
            if self.pos >= at {
                if !(self.once && self.failed) {
                    self.failed = true;
                    return Err(io::Error::new(kind, MARK));
                }
            } else {
                n = n.min(at - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n > 0 {
            self.idle = 0;
        }
        Ok(n)
    }
}

/// Accepts octets according to `steps` (cyclic); optionally fails once `fail_at` octets are in.
pub struct SchedWriter<'a> {
    pub got: Vec<u8>,
    pub steps: &'a [Step],
    pub call: usize,
    pub fail_at: Option<(usize, Fault)>,
    /// fails a single time, and works again afterwards
    pub once: bool,
    pub failed: bool,
    interrupts_in_a_row: usize,
    idle: usize,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    Error(ErrorKind),
    /// accepts nothing any more
    Zero,
}
impl<'a> SchedWriter<'a> {
    pub fn new(steps: &'a [Step], fail_at: Option<(usize, Fault)>) -> Self {
        SchedWriter { got: Vec::new(), steps, call: 0, fail_at, once: false, failed: false, interrupts_in_a_row: 0, idle: 0 }
    }
}
impl Write for SchedWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.call += 1;
        self.idle += 1;
        assert!(self.idle < MAX_IDLE, "the writer was called {} times in vain", self.idle);
        if buf.is_empty() {
            return Ok(0);
        }
        let step = if self.steps.is_empty() { Step::Max(usize::MAX) } else { self.steps[self.call % self.steps.len()] };
        if step == Step::Interrupt && self.interrupts_in_a_row < 5 {
            self.interrupts_in_a_row += 1;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupts_in_a_row = 0;
        let mut n = match step {
            Step::Max(n) => n.max(1),
            Step::Interrupt => 1,
        };
        if self.call > MANY_CALLS {
            n = n.saturating_mul(4096);
        }
        n = n.min(buf.len());
        if let Some((at, fault)) = self.fail_at {
            if self.got.len() >= at {
                if !(self.once && self.failed) {
                    self.failed = true;
                    return match fault {
                        Fault::Error(k) => Err(io::Error::new(k, MARK)),
                        Fault::Zero => Ok(0),
                    };
                }
            } else {
                n = n.min(at - self.got.len());
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        self.idle = 0;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::OutOfMemory,
];

/// Whether `e` is the error injected by a scheduled reader or writer.
pub fn is_injected(e: &bsn1::Error, kind: ErrorKind) -> bool {
    fn io_err(e: &bsn1::Error) -> Option<&io::Error> {
        match e.root_cause() {
            bsn1::Error::Io(e) => Some(e),
            other => other
                .as_anyhow()
                .and_then(|a| a.chain().find_map(|c| c.downcast_ref::<io::Error>())),
        }
    }
    matches!(io_err(e), Some(x) if x.kind() == kind && x.to_string() == MARK)
}
