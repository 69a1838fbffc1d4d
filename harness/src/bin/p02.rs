//! P02: parsing a slice as BER.
use bsn1::BerRef;
use vh::{engine, ensure, ensure_eq, gen, kind_ok, model, Ctx, Fail, Property, Src, R};

fn check(b: &[u8], ctx: &mut Ctx) -> R {
    let mut odd = false;
    let expected = model::ber_walk(b, &mut odd);
    let mut rest = b;
    let got = BerRef::parse(&mut rest);
    let mut copy = b.to_vec();
    let (base, len) = (copy.as_ptr() as usize, copy.len());
    let mut rest_mut: &mut [u8] = &mut copy;
    let got_mut = BerRef::parse_mut(&mut rest_mut);
    ensure_eq!(got.is_ok(), got_mut.is_ok(), "differ", "parse and parse_mut");
    ctx.label_if(odd, "odd end-of-contents");
    match expected {
        Ok(p) if got.is_ok() || !odd => {
            let n = p.total();
            let ber = got.map_err(|e| Fail::new("refused", format!("well-formed BER refused: {e}")))?;
            let octets: &[u8] = ber.as_ref();
            ensure_eq!(octets, &b[..n], "wrong-octets");
            ensure!(octets.as_ptr() == b.as_ptr(), "wrong-octets", "the value does not lie in the slice");
            ensure_eq!(rest, &b[n..], "wrong-rest");
            ensure!(n == b.len() || rest.as_ptr() as usize == b.as_ptr() as usize + n, "wrong-rest", "rest is elsewhere");
            let (i, l, c) = ber.disassemble();
            let c_octets: &[u8] = c.as_ref();
            ensure_eq!(i.as_ref(), &b[..p.id], "wrong-id");
            ensure_eq!(l.definite(), p.definite.map(|n| n as usize), "wrong-length");
            ensure_eq!(c_octets, &b[p.id + p.len..n], "wrong-contents");
            ensure_eq!(ber.id().as_ref(), &b[..p.id], "wrong-id", "id()");
            ensure_eq!(ber.length().definite(), p.definite.map(|n| n as usize), "wrong-length", "length()");
            let c: &[u8] = ber.contents().as_ref();
            ensure_eq!(c, &b[p.id + p.len..n], "wrong-contents", "contents()");

            let ber = got_mut.map_err(|e| Fail::new("refused", format!("parse_mut refused: {e}")))?;
            ensure_eq!((rest_mut.as_ptr() as usize, rest_mut.len()), (base + n, len - n), "wrong-rest", "parse_mut");
            let octets: &[u8] = (*ber).as_ref();
            ensure_eq!(octets, &b[..n], "wrong-octets", "parse_mut");
            ensure!(octets.as_ptr() as usize == base, "wrong-octets", "parse_mut: elsewhere");
            let (i, l, c) = ber.disassemble_mut();
            let c_octets: &[u8] = (*c).as_ref();
            ensure_eq!(i.as_ref(), &b[..p.id], "wrong-id", "parse_mut");
            ensure_eq!(l.definite(), p.definite.map(|n| n as usize), "wrong-length", "parse_mut");
            ensure_eq!(c_octets, &b[p.id + p.len..n], "wrong-contents", "parse_mut");
            ensure_eq!(copy, b, "slice-changed", "parse_mut");
            ctx.label("accepted");
            ctx.label_if(n < b.len(), "accepted, octets follow");
            if p.definite.is_none() {
                ctx.label("accepted, indefinite");
                let inner = &b[p.id + p.len..n - 2];
                ctx.label_if(has(inner, &|p| p.definite.is_none()), "accepted, indefinite within indefinite");
                ctx.label_if(inner.windows(2).any(|w| w == [0, 0]), "accepted, 00 00 before the end");
                ctx.label_if(p.total() > 256, "accepted, indefinite and long");
            }
            ctx.nontrivial(b);
        }
        expected => {
            let kinds = match (odd, &expected) {
                (false, Err(k)) => Some(k),
                _ => None,
            };
            for (e, which) in [(got.err(), "parse"), (got_mut.err(), "parse_mut")] {
                match e {
                    None => return Err(Fail::new("accepted", format!("{which} accepted though {kinds:?}"))),
                    Some(e) => {
                        if let Some(k) = kinds {
                            ensure!(kind_ok(&e, k), "wrong-kind", "{which}: {e:?} is none of {k:?}")
                        }
                    }
                }
            }
            ensure!(rest.as_ptr() == b.as_ptr() && rest.len() == b.len(), "slice-moved", "slice moved on error ({kinds:?})");
            ensure_eq!((rest_mut.as_ptr() as usize, rest_mut.len()), (base, len), "slice-moved", "parse_mut");
            ensure_eq!(copy, b, "slice-changed", "parse_mut");
            ctx.label("refused");
            let open = matches!(model::id_size(b), Ok(i) if b.get(i) == Some(&0x80));
            ctx.label_if(open, "refused, indefinite");
            if model::id_size(b).is_ok() {
                ctx.nontrivial(b);
            }
        }
    }
    Ok(())
}
/// Whether one of the values in `b` (not nested) is as asked for.
fn has(mut b: &[u8], f: &dyn Fn(&model::Parts) -> bool) -> bool {
    while let Ok(p) = model::ber(b) {
        if f(&p) {
            return true;
        }
        b = &b[p.total()..];
    }
    false
}

fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.u8() < 8 {
        let n = s.u8() as usize;
        let b = s.bytes(n);
        ctx.desc(|| format!("octets {}", engine::hexs(&b)));
        return check(&b, ctx);
    }
    let indef = *s.pick(&[100, 160, 220]);
    let (b, kind) = gen::octets(s, indef);
    ctx.desc(|| format!("{kind} {}", engine::hexs(&b)));
    check(&b, ctx)?;
    if s.chance(64) && b.len() <= 60 {
        for i in 0..b.len() {
            check(&b[..i], ctx)?;
        }
        ctx.label("every truncation");
    }
    Ok(())
}
fn fixed(run: &mut dyn FnMut(Vec<u8>), thorough: bool) {
    // All strings of up to 6 tokens which matter inside a value of indefinite length.
    let tokens: [&[u8]; 9] = [
        &[0x00, 0x00], &[0x30, 0x80], &[0x00], &[0x02, 0x01, 0x00], &[0x30, 0x02, 0x00, 0x00],
        &[0x30, 0x00], &[0x80], &[0x04, 0x02, 0x00], &[0xbf, 0x1f, 0x80],
    ];
    let max = if thorough { 6 } else { 5 };
    for n in 0..=max {
        for mut code in 0..tokens.len().pow(n) {
            let mut v = vec![0x30, 0x80];
            for _ in 0..n {
                v.extend(tokens[code % tokens.len()]);
                code /= tokens.len();
            }
            let mut e = vec![0, v.len() as u8];
            e.extend(v);
            run(e);
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            run(vec![0, 2, a, b]);
            run(vec![0, 4, a, b, 0, 0]);
        }
    }
    run(vec![0, 0]);
}
fn main() {
    engine::main(Property {
        id: "P02",
        rule: "the slice starts with a well-formed identifier, so the decision depends on length, contents or end-of-contents octets; distinct by octets",
        case,
        fixed,
        quick: 2_500_000,
        thorough: 12_000_000,
    })
}
