//! P03: parsing from a reader.
use bsn1::{Ber, Der, DerRef, Error, Id, IdRef, Length};
use std::io::Read;
use vh::io::{SchedReader, Step};
use vh::model::{self, E};
use vh::values::{self, Gen, Visitor};
use vh::{engine, ensure, ensure_eq, gen, kind_ok, Ctx, Fail, Property, Src, R};

/// A stream and the reader delivering it.
struct Run<'a> {
    stream: &'a [u8],
    reader: SchedReader<'a>,
    dynamic: bool,
    ctx: &'a mut Ctx,
}
macro_rules! via {
    ($run:expr, $f:path) => {
        if $run.dynamic {
            let r: &mut dyn Read = &mut $run.reader;
            $f(r)
        } else {
            $f(&mut $run.reader)
        }
    };
}
impl Run<'_> {
    /// Compares with the reference; `Ok(true)` when both accept.
    fn judge<T>(&self, got: &Result<T, Error>, at: usize, expected: &Result<usize, Vec<E>>, odd: bool, w: &str) -> Result<bool, Fail> {
        let used = self.reader.pos - at;
        match (got, expected) {
            (Ok(_), Ok(n)) => {
                if used != *n {
                    return Err(Fail::new("wrong-use", format!("{w}: took {used} octets instead of {n}")));
                }
            }
            (Err(_), _) if odd => (),
            (Ok(_), Err(k)) => return Err(Fail::new("accepted", format!("{w}: accepted though {k:?}"))),
            (Err(e), Ok(_)) => return Err(Fail::new("refused", format!("{w}: refused with {e:?}"))),
            (Err(e), Err(k)) => {
                if !kind_ok(e, k) {
                    return Err(Fail::new("wrong-kind", format!("{w}: {e:?} is none of {k:?}")));
                }
            }
        }
        Ok(got.is_ok())
    }
    fn id(&mut self) -> Result<bool, Fail> {
        let at = self.reader.pos;
        let b = &self.stream[at..];
        let got = via!(self, Id::parse);
        let expected = model::id_size(b);
        let ok = self.judge(&got, at, &expected, false, "Id")?;
        let slice = IdRef::parse(&mut &b[..]);
        if let (Ok(got), Ok(n)) = (&got, &expected) {
            let slice = slice.map_err(|e| Fail::new("differ", format!("IdRef::parse refuses: {e:?}")))?;
            ensure_eq!(AsRef::<[u8]>::as_ref(got), &b[..*n], "wrong-octets", "Id");
            ensure_eq!(got.as_ref() as &[u8], slice.as_ref(), "differ", "Id");
            self.ctx.label("identifier");
        } else {
            ensure!(slice.is_err(), "differ", "IdRef::parse accepts");
        }
        Ok(ok)
    }
    fn length(&mut self) -> Result<bool, Fail> {
        let at = self.reader.pos;
        let b = &self.stream[at..];
        let got = via!(self, Length::parse);
        let expected = model::length(b);
        let ok = self.judge(&got, at, &expected.clone().map(|(_, n)| n), false, "Length")?;
        if let (Ok(got), Ok((n, size))) = (&got, &expected) {
            ensure_eq!(got.definite(), n.map(|n| n as usize), "wrong-length");
            ensure_eq!(&got.to_bytes()[..], &b[..*size], "wrong-octets", "Length");
            self.ctx.label("length");
        }
        Ok(ok)
    }
    fn der(&mut self) -> Result<bool, Fail> {
        let at = self.reader.pos;
        let b = &self.stream[at..];
        let got = via!(self, Der::parse);
        let expected = model::der(b);
        let ok = self.judge(&got, at, &expected.clone().map(|p| p.total()), false, "Der")?;
        let slice = DerRef::parse(&mut &b[..]);
        if let (Ok(got), Ok(p)) = (&got, &expected) {
            let slice = slice.map_err(|e| Fail::new("differ", format!("DerRef::parse refuses: {e:?}")))?;
            ensure_eq!(AsRef::<[u8]>::as_ref(got), &b[..p.total()], "wrong-octets", "Der");
            ensure!(*got == slice, "differ", "Der differs from DerRef");
            ensure_eq!(got.contents().as_ref() as &[u8], &b[p.id + p.len..p.total()], "wrong-contents", "Der");
            self.ctx.label("DER value");
            self.ctx.label_if(p.contents > 4096, "DER value over 4096 octets");
        } else {
            ensure!(slice.is_err(), "differ", "DerRef::parse accepts");
        }
        Ok(ok)
    }
    fn ber(&mut self) -> Result<bool, Fail> {
        let at = self.reader.pos;
        let b = &self.stream[at..];
        let got = via!(self, Ber::parse);
        let mut odd = false;
        let expected = model::ber_walk(b, &mut odd);
        let ok = self.judge(&got, at, &expected.clone().map(|p| p.total()), odd, "Ber")?;
        let slice = bsn1::BerRef::parse(&mut &b[..]);
        ensure_eq!(got.is_ok(), slice.is_ok(), "differ", "Ber and BerRef");
        if let (Ok(got), Ok(p)) = (&got, &expected) {
            ensure_eq!(AsRef::<[u8]>::as_ref(got), &b[..p.total()], "wrong-octets", "Ber");
            ensure!(*got == slice.unwrap(), "differ", "Ber differs from BerRef");
            ensure_eq!(got.contents().as_ref() as &[u8], &b[p.id + p.len..p.total()], "wrong-contents", "Ber");
            self.ctx.label(if p.definite.is_some() { "BER value" } else { "BER value, indefinite" });
        }
        Ok(ok)
    }
}
struct Typed<'a, 'b> {
    run: &'b mut Run<'a>,
    der: bool,
}
impl Visitor for Typed<'_, '_> {
    type Out = Result<bool, Fail>;
    fn visit<T: Gen>(&mut self) -> Self::Out {
        let run = &mut *self.run;
        let at = run.reader.pos;
        let b = &run.stream[at..];
        let mut odd = false;
        let (size, got, same): (_, Result<T, Error>, Result<T, Error>) = if self.der {
            let got = if run.dynamic {
                let r: &mut dyn Read = &mut run.reader;
                bsn1_serde::read_der(r)
            } else {
                bsn1_serde::read_der(&mut run.reader)
            };
            (model::der(b), got, bsn1_serde::parse_der(&mut &b[..]))
        } else {
            let got = if run.dynamic {
                let r: &mut dyn Read = &mut run.reader;
                bsn1_serde::read_ber(r)
            } else {
                bsn1_serde::read_ber(&mut run.reader)
            };
            (model::ber_walk(b, &mut odd), got, bsn1_serde::parse_ber(&mut &b[..]))
        };
        let which = || format!("typed {} {}", if self.der { "DER" } else { "BER" }, T::name());
        match (&got, &same) {
            (Ok(a), Ok(b)) => ensure!(a == b, "differ", "{}: {a:?} from the reader, {b:?} from the slice", which()),
            (Err(_), Err(_)) => (),
            (a, b) => return Err(Fail::new("differ", format!("{}: {a:?} from the reader, {b:?} from the slice", which()))),
        }
        match &size {
            Ok(p) if !odd => {
                // also when the octets are not a value of the type
                ensure_eq!(run.reader.pos - at, p.total(), "wrong-use", "{}", which());
                run.ctx.label(if got.is_ok() { "typed value" } else { "typed value of another type" });
                Ok(true)
            }
            Ok(_) => Ok(false),
            Err(_) => {
                ensure!(got.is_err(), "accepted", "{}: accepted malformed octets", which());
                Ok(false)
            }
        }
    }
}
struct Encoded<'a>(&'a mut Src, bool);
impl Visitor for Encoded<'_> {
    type Out = Vec<u8>;
    fn visit<T: Gen>(&mut self) -> Vec<u8> {
        let v = T::gen(self.0, 6).model();
        if self.1 {
            return v.der();
        }
        let s = &mut self.0;
        v.ber(&mut || s.flag(), &mut 0)
    }
}

fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let dynamic = s.flag();
    let steps: Vec<Step> = gen::steps(s);
    let n = s.range(1, 5);
    let mut stream = Vec::new();
    let mut plan = Vec::new();
    for _ in 0..n {
        let (v, op) = match s.weighted(&[2, 2, 4, 4, 4, 4]) {
            0 => (gen::wild_id(s), (0, 0)),
            1 => {
                let n = s.u64() >> s.below(64);
                (gen::wild_len(s, n as usize), (1, 0))
            }
            2 => (gen::octets(s, 30).0, (2, 0)),
            3 => (gen::octets(s, 180).0, (3, 0)),
            k => {
                let t = values::pick_type(s);
                let v = values::with_type(t, &mut Encoded(s, k == 4));
                let ask = if s.chance(24) { values::pick_type(s) } else { t };
                (v, (k, ask))
            }
        };
        if op.0 == 2 && s.chance(4) {
            // larger than any buffer used for reading
            let n = if s.flag() { s.range(4090, 20_000) } else { (4096 << s.below(5)) * s.range(1, 3) - 6 + s.below(8) };
            stream.extend(model::tlv(&[0x04], &vec![0x5a; n]));
        }
        stream.extend(v);
        plan.push(op);
    }
    if s.chance(40) {
        let i = s.below(stream.len() + 1);
        stream.truncate(i);
    }
    ctx.desc(|| format!("stream {} steps {:?}{} plan {:?}", engine::hexs(&stream), steps, if dynamic { " dyn" } else { "" }, plan));
    let reader = SchedReader::new(&stream, &steps);
    let mut run = Run { stream: &stream, reader, dynamic, ctx };
    let mut done = 0;
    for (k, t) in plan {
        let go_on = match k {
            0 => run.id()?,
            1 => run.length()?,
            2 => run.der()?,
            3 => run.ber()?,
            k => values::with_type(t, &mut Typed { run: &mut run, der: k == 4 })?,
        };
        if !go_on {
            break;
        }
        done += 1;
    }
    let calls = run.reader.call;
    let ctx = run.ctx;
    ctx.label_if(done >= 2, "two values and more in a row");
    ctx.label_if(steps.contains(&Step::Interrupt), "interruptions");
    ctx.label_if(steps == [Step::Max(1)], "one octet at a time");
    if calls >= 2 {
        ctx.nontrivial(&stream);
        ctx.nontrivial(format!("{steps:?}").as_bytes());
    }
    Ok(())
}
fn main() {
    engine::main(Property {
        id: "P03",
        rule: "the reader is called at least twice; distinct by stream and schedule",
        case,
        fixed: engine::no_fixed,
        quick: 600_000,
        thorough: 6_000_000,
    })
}
