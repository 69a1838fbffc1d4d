//! P04: hostile, truncated or failing input.
use bsn1::{Ber, BerRef, Der, DerRef, Error, Id, IdRef, Length};
use std::io::Read;
use vh::io::{is_injected, SchedReader, Step, KINDS};
use vh::model::{self, E};
use vh::values::{self, Gen, Visitor};
use vh::{engine, ensure, gen, guard, kind_ok, Ctx, Fail, Property, Src, R};

#[global_allocator]
static A: guard::GuardAlloc = guard::GuardAlloc;

/// Runs `f` and bounds the memory it asks for by the octets delivered.
fn measured<T>(delivered: usize, factor: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard::reset_peak();
    let before = guard::live_bytes();
    guard::set_limit(1 << 31);
    let r = f();
    guard::set_limit(usize::MAX);
    let (largest, peak) = (guard::largest(), guard::peak() - before);
    let bound = (64 << 10) + factor * delivered;
    ensure!(largest <= bound, "memory", "{what}: {largest} octets requested at once after {delivered} were delivered");
    ensure!(peak <= 2 * bound, "memory", "{what}: {peak} octets in use after {delivered} were delivered");
    if let Some(e) = guard::take_error() {
        return Err(Fail::new("heap", format!("{what}: {e}")));
    }
    Ok(r)
}

/// The reference result of each kind of parse: octets taken or errors.
fn expectations(b: &[u8]) -> [(&'static str, Result<usize, Vec<E>>, bool); 4] {
    let mut odd = false;
    let ber = model::ber_walk(b, &mut odd).map(|p| p.total());
    [
        ("Id", model::id_size(b), false),
        ("Length", model::length(b).map(|x| x.1), false),
        ("Der", model::der(b).map(|p| p.total()), false),
        ("Ber", ber, odd),
    ]
}
fn unit<T>(r: Result<T, Error>) -> Result<(), Error> {
    r.map(|_| ())
}
fn slice_parse(k: usize, b: &[u8]) -> Result<(), Error> {
    let mut r = b;
    match k {
        0 => unit(IdRef::parse(&mut r)),
        1 => unit(Length::parse(&mut r)),
        2 => unit(DerRef::parse(&mut r)),
        _ => unit(BerRef::parse(&mut r)),
    }
}
fn mut_parse(k: usize, b: &mut [u8]) -> Result<(), Error> {
    let mut r = b;
    match k {
        0 => unit(IdRef::parse_mut(&mut r)),
        1 => Ok(()),
        2 => unit(DerRef::parse_mut(&mut r)),
        _ => unit(BerRef::parse_mut(&mut r)),
    }
}
fn reader_parse(k: usize, r: &mut dyn Read) -> Result<(), Error> {
    match k {
        0 => unit(Id::parse(r)),
        1 => unit(Length::parse(r)),
        2 => unit(Der::parse(r)),
        _ => unit(Ber::parse(r)),
    }
}
fn judge(got: &Result<(), Error>, expected: &Result<usize, Vec<E>>, odd: bool, what: &str) -> R {
    match (got, expected) {
        (Ok(()), Ok(_)) => Ok(()),
        (Err(_), _) if odd => Ok(()),
        (Ok(()), Err(k)) => Err(Fail::new("accepted", format!("{what}: success though {k:?}"))),
        (Err(e), Ok(_)) => Err(Fail::new("refused", format!("{what}: refused with {e:?}"))),
        (Err(e), Err(k)) => {
            ensure!(kind_ok(e, k), "wrong-kind", "{what}: {e:?} is none of {k:?}");
            Ok(())
        }
    }
}
/// All parsers on the octets as they are.
fn all(b: &[u8], steps: &[Step], ctx: &mut Ctx) -> R {
    for (k, (name, expected, odd)) in expectations(b).iter().enumerate() {
        let r = measured(0, 0, name, || slice_parse(k, b))?;
        judge(&r, expected, *odd, name)?;
        let mut reader = SchedReader::new(b, steps);
        let r = measured(b.len(), 8, name, || reader_parse(k, &mut reader))?;
        judge(&r, expected, *odd, &format!("{name} from a reader"))?;
        if k != 1 {
            let mut c = b.to_vec();
            let r = measured(0, 0, name, || mut_parse(k, &mut c))?;
            judge(&r, expected, *odd, &format!("{name} from a mutable slice"))?;
        }
        ctx.label_if(k == 2 && r.is_err(), "refused");
    }
    let huge = matches!(model::id_size(b), Ok(i) if matches!(model::length(&b[i..]), Ok((Some(n), _)) if n > 1 << 24));
    ctx.label_if(huge, "announces over 16 MiB");
    Ok(())
}
/// All parsers on a source failing after `at` octets.
fn failing(b: &[u8], steps: &[Step], at: usize, kind: std::io::ErrorKind, ctx: &mut Ctx) -> R {
    failing_(b, steps, at, kind, false, ctx)?;
    // works again after the failure
    failing_(b, steps, at, kind, true, ctx)
}
fn failing_(b: &[u8], steps: &[Step], at: usize, kind: std::io::ErrorKind, once: bool, ctx: &mut Ctx) -> R {
    for (k, (name, expected, odd)) in expectations(&b[..at]).iter().enumerate() {
        let mut reader = SchedReader::failing(b, steps, at, kind);
        reader.once = once;
        let r = measured(if once { b.len() } else { at }, 8, name, || reader_parse(k, &mut reader))?;
        let failed = reader.failed;
        match (&r, expected) {
            (Ok(()), Ok(_)) => (),
            (Ok(()), Err(_)) => return Err(Fail::new("accepted", format!("{name}: success though the source failed after {at} octets"))),
            (Err(e), Ok(_)) if !odd => return Err(Fail::new("refused", format!("{name}: refused with {e:?} though complete before the failure"))),
            (Err(e), Err(k)) if !odd => {
                if failed {
                    ensure!(is_injected(e, kind), "lost-error", "{name}: the source failed with {kind:?} after {at} octets, reported {e:?}");
                    ctx.label("source failed");
                } else {
                    ensure!(kind_ok(e, k), "wrong-kind", "{name}: {e:?} is none of {k:?}");
                }
            }
            _ => (),
        }
    }
    Ok(())
}
struct Typed<'a> {
    b: &'a [u8],
    steps: &'a [Step],
    fail: Option<(usize, std::io::ErrorKind)>,
    ctx: &'a mut Ctx,
}
impl Visitor for Typed<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let b = self.b;
        let mut odd = false;
        let (der, ber) = (model::der(b), model::ber_walk(b, &mut odd));
        let name = T::name();
        let r: Result<T, Error> = measured(b.len(), 256, &name, || bsn1_serde::parse_der(&mut &b[..]))?;
        ensure!(r.is_err() || der.is_ok(), "accepted", "{name}: success on malformed DER");
        let r: Result<T, Error> = measured(b.len(), 256, &name, || bsn1_serde::parse_ber(&mut &b[..]))?;
        ensure!(r.is_err() || ber.is_ok(), "accepted", "{name}: success on malformed BER");
        self.ctx.label_if(r.is_ok(), "typed, accepted");
        self.ctx.label_if(r.is_err() && ber.is_ok(), "typed, well delimited but refused");
        for (is_der, once) in [(true, false), (false, false), (true, true), (false, true)] {
            if once && self.fail.is_none() {
                continue;
            }
            let mut reader = SchedReader::new(b, self.steps);
            reader.fail_at = self.fail;
            reader.once = once;
            let r: Result<T, Error> = measured(b.len(), 256, &name, || {
                if is_der {
                    bsn1_serde::read_der(&mut reader)
                } else {
                    bsn1_serde::read_ber(&mut reader)
                }
            })?;
            let ok = if is_der { der.is_ok() } else { ber.is_ok() };
            ensure!(r.is_err() || ok, "accepted", "{name}: success on malformed octets");
            if reader.failed {
                let kind = self.fail.unwrap().1;
                match r {
                    Ok(v) => return Err(Fail::new("accepted", format!("{name}: success {v:?} though the source failed"))),
                    Err(e) => ensure!(is_injected(&e, kind), "lost-error", "{name}: the source failed with {kind:?}, reported {e:?}"),
                }
                self.ctx.label("typed, source failed");
            }
        }
        Ok(())
    }
}
struct Encoded<'a>(&'a mut Src);
impl Visitor for Encoded<'_> {
    type Out = Vec<u8>;
    fn visit<T: Gen>(&mut self) -> Vec<u8> {
        let v = T::gen(self.0, 6).model();
        let s = &mut self.0;
        if s.flag() {
            v.der()
        } else {
            v.ber(&mut || s.flag(), &mut 0)
        }
    }
}

fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let mode = s.weighted(&[24, 12, 16, 24, 1, 8]);
    let steps = gen::steps(s);
    match mode {
        0 => {
            let (b, kind) = gen::octets(s, 128);
            ctx.desc(|| format!("{kind} {} steps {steps:?}", engine::hexs(&b)));
            all(&b, &steps, ctx)?;
            ctx.nontrivial(&b);
        }
        1 => {
            // a complete value, cut and made to fail at each position
            let mut b = Vec::new();
            let depth = s.below(4);
            gen::tree(s, depth, 128, false, &mut b);
            b.truncate(if gen::SLOW { 24 } else { 200 });
            let kind = *s.pick(KINDS);
            ctx.desc(|| format!("each prefix of {} and failure {kind:?} at each position", engine::hexs(&b)));
            for i in 0..=b.len() {
                all(&b[..i], &steps, ctx)?;
                failing(&b, &steps, i, kind, ctx)?;
            }
            ctx.label("every truncation and failure position");
            ctx.nontrivial(&b);
        }
        2 => {
            // announced length far beyond what is there
            let mut b = Vec::new();
            let indefinite = s.below(3);
            gen::deep(indefinite, 0, 0x30, &mut b);
            b.extend(gen::id(s));
            let huge = match s.below(5) {
                0 => u64::MAX - s.below(300) as u64,
                1 => (1u64 << 63).wrapping_add(s.below(5) as u64).wrapping_sub(2),
                2 => 1u64 << s.range(20, 62),
                3 => s.range(1 << 20, 1 << 24) as u64,
                _ => s.u64(),
            };
            b.extend(model::encode_len(huge));
            let n = gen::size(s, true);
            b.extend(std::iter::repeat(0x55).take(n));
            ctx.desc(|| format!("announces {huge} octets, {n} follow: {}", engine::hexs(&b)));
            all(&b, &steps, ctx)?;
            let at = s.below(b.len() + 1);
            let kind = *s.pick(KINDS);
            failing(&b, &steps, at, kind, ctx)?;
            if s.flag() {
                let t = values::pick_type(s);
                values::with_type(t, &mut Typed { b: &b, steps: &steps, fail: None, ctx })?;
            }
            ctx.nontrivial(&b);
        }
        3 => {
            let t = values::pick_type(s);
            let mut b = values::with_type(t, &mut Encoded(s));
            if s.chance(170) {
                gen::mutate(s, &mut b);
            }
            let ask = if s.chance(40) { values::pick_type(s) } else { t };
            let fail = s.flag().then(|| (s.below(b.len() + 1), *s.pick(KINDS)));
            ctx.desc(|| format!("typed {} fail {fail:?}", engine::hexs(&b)));
            values::with_type(ask, &mut Typed { b: &b, steps: &steps, fail, ctx })?;
            ctx.nontrivial(&b);
        }
        4 => {
            // nesting without end
            let n = match s.below(4) {
                _ if gen::SLOW => s.range(1, 70),
                0 => s.range(1, 300),
                1 => s.range(300, 5000),
                2 => s.range(5000, 60_000),
                _ => s.range(60_000, 200_000),
            };
            let closed = match s.below(3) {
                0 => n,
                1 => n.saturating_sub(1),
                _ => s.below(n + 3),
            };
            let mut b = Vec::new();
            let lead = *s.pick(&[0x30u8, 0x31, 0x24, 0x00]);
            gen::deep(n, closed, lead, &mut b);
            ctx.desc(|| format!("{n} values of indefinite length within each other, {closed} closed"));
            all(&b, &[], ctx)?;
            let t = values::pick_type(s);
            values::with_type(t, &mut Typed { b: &b, steps: &[], fail: None, ctx })?;
            ctx.label_if(n > 5000, "nested over 5000 levels");
            ctx.nontrivial(&b);
        }
        _ => {
            let (b, kind) = gen::octets(s, 100);
            let at = s.below(b.len() + 1);
            let err = *s.pick(KINDS);
            ctx.desc(|| format!("{kind} {} fails with {err:?} after {at} octets", engine::hexs(&b)));
            failing(&b, &steps, at, err, ctx)?;
            ctx.nontrivial(&b);
        }
    }
    Ok(())
}
fn fixed(run: &mut dyn FnMut(Vec<u8>), _: bool) {
    // 200000 levels, unclosed and closed
    for lead in [0u8, 70, 140, 255] {
        for closed in [0u8, 100, 255] {
            run(vec![230, 100, 255, 255, 255, 255, closed, 128, lead, 0]);
        }
    }
}
fn main() {
    engine::main(Property {
        id: "P04",
        rule: "input with a defect, a truncation, a failing source, a huge announced length or deep nesting, or a typed decode of (mutated) octets; distinct by octets",
        case,
        fixed,
        quick: 30_000,
        thorough: 1_500_000,
    })
}
