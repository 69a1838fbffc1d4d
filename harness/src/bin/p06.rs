//! P06: length octets.
use bsn1::{Error, Length};
use vh::{engine, ensure, ensure_eq, gen, kind_ok, model, Ctx, Fail, Property, Src, R};

fn encoded(n: u64, ctx: &mut Ctx) -> R {
    let l = Length::Definite(n as usize);
    let expected = model::encode_len(n);
    let octets = l.to_bytes();
    ensure_eq!(&octets[..], &expected[..], "wrong-octets", "length {n}");
    ensure_eq!(l.len(), expected.len(), "wrong-len", "length {n}");
    ensure_eq!(l.definite(), Some(n as usize), "wrong-number");
    ensure!(l.is_definite() && !l.is_indefinite(), "wrong-kind-of-length", "length {n}");
    let mut b = expected.clone();
    b.extend([0, 0x80]);
    parsed(&b, ctx)?;
    for i in 0..expected.len() {
        parsed(&expected[..i], ctx)?;
    }
    // longer forms of the same number
    let be = n.to_be_bytes();
    for k in 1..=8usize {
        if be[..8 - k].iter().all(|&o| o == 0) {
            let mut v = vec![0x80 | k as u8];
            v.extend(&be[8 - k..]);
            parsed(&v, ctx)?;
        }
    }
    for k in 9..12usize {
        let mut v = vec![0x80 | k as u8];
        v.extend(std::iter::repeat(0).take(k - 8));
        v.extend(be);
        parsed(&v, ctx)?;
    }
    ctx.nontrivial(&n.to_be_bytes());
    ctx.label(match expected.len() {
        1 => "short form",
        2 => "one octet follows",
        3..=5 => "2 to 4 octets follow",
        _ => "5 to 8 octets follow",
    });
    Ok(())
}
fn parsed(b: &[u8], ctx: &mut Ctx) -> R {
    let mut rest = b;
    match (Length::parse(&mut rest), model::length(b)) {
        (Ok(l), Ok((n, size))) => {
            ensure_eq!(l.definite(), n.map(|n| n as usize), "wrong-number", "{}", engine::hexs(b));
            ensure_eq!(l.is_indefinite(), n.is_none(), "wrong-kind-of-length", "{}", engine::hexs(b));
            ensure_eq!(rest, &b[size..], "wrong-rest", "{}", engine::hexs(b));
            ensure_eq!(&l.to_bytes()[..], &b[..size], "wrong-octets", "{} encoded again", engine::hexs(b));
            ensure_eq!(l.len(), size, "wrong-len", "{}", engine::hexs(b));
            ctx.label("parsed");
        }
        (Ok(l), Err(k)) => return Err(Fail::new("accepted", format!("{} accepted as {l:?} though {k:?}", engine::hexs(b)))),
        (Err(e), Ok(l)) => return Err(Fail::new("refused", format!("{} refused with {e:?}, is {l:?}", engine::hexs(b)))),
        (Err(e), Err(k)) => {
            ensure!(kind_ok(&e, &k), "wrong-kind", "{}: {e:?} is none of {k:?}", engine::hexs(b));
            ctx.label(match e {
                Error::RedundantBytes => "redundant",
                Error::OverFlow => "overflow",
                _ => "unterminated",
            });
        }
    }
    Ok(())
}
fn compared(a: Option<u64>, b: Option<u64>, ctx: &mut Ctx) -> R {
    let l = |x: Option<u64>| x.map_or(Length::Indefinite, |n| Length::Definite(n as usize));
    let (x, y) = (l(a), l(b));
    let eq = a.is_some() && a == b;
    let ord = a.and_then(|a| b.map(|b| a.cmp(&b)));
    ensure_eq!(x == y, eq, "wrong-comparison", "{x:?} == {y:?}");
    ensure_eq!(x != y, !eq, "wrong-comparison", "{x:?} != {y:?}");
    ensure_eq!(x.partial_cmp(&y), ord, "wrong-comparison", "{x:?} against {y:?}");
    use std::cmp::Ordering::*;
    ensure_eq!(x < y, ord == Some(Less), "wrong-comparison", "{x:?} < {y:?}");
    ensure_eq!(x <= y, matches!(ord, Some(Less | Equal)), "wrong-comparison", "{x:?} <= {y:?}");
    ensure_eq!(x > y, ord == Some(Greater), "wrong-comparison", "{x:?} > {y:?}");
    ensure_eq!(x >= y, matches!(ord, Some(Greater | Equal)), "wrong-comparison", "{x:?} >= {y:?}");
    ensure!(!Length::Indefinite.is_definite() && Length::Indefinite.is_indefinite(), "wrong-kind-of-length", "indefinite");
    ensure_eq!(Length::Indefinite.definite(), None, "wrong-kind-of-length");
    ensure_eq!(Length::Indefinite.len(), 1, "wrong-len", "indefinite");
    ensure_eq!(&Length::Indefinite.to_bytes()[..], &[0x80], "wrong-octets", "indefinite");
    ctx.label_if(a.is_none() || b.is_none(), "compared with indefinite");
    Ok(())
}
fn number(s: &mut Src) -> u64 {
    let n = match s.below(4) {
        0 => s.below(70_000) as u64,
        1 => (1u64 << s.below(64)).wrapping_add(s.below(5) as u64).wrapping_sub(2),
        2 => (1u64 << (8 * s.below(8))).wrapping_mul(s.range(1, 255) as u64).wrapping_sub(s.below(2) as u64),
        _ => s.u64() >> s.below(64),
    };
    n as usize as u64
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.weighted(&[4, 4, 3, 2]) {
        0 => {
            let n = s.u8() as usize % 16;
            let b = s.bytes(n);
            ctx.desc(|| format!("octets {}", engine::hex(&b)));
            parsed(&b, ctx)?;
            if b.first().is_some_and(|&o| o > 0x80) {
                ctx.nontrivial(&b);
            }
            Ok(())
        }
        1 => {
            let n = number(s);
            ctx.desc(|| format!("length {n}"));
            encoded(n, ctx)
        }
        2 => {
            let n = number(s);
            let mut b = gen::wild_len(s, n as usize);
            let t = s.below(3);
            b.extend(s.bytes(t));
            ctx.desc(|| format!("octets {}", engine::hexs(&b)));
            parsed(&b, ctx)?;
            ctx.nontrivial(&b);
            Ok(())
        }
        _ => {
            let a = (!s.chance(60)).then(|| number(s));
            let b = if s.chance(60) {
                None
            } else if s.flag() {
                a.map(|a| (a as usize).wrapping_add(s.below(3)) as u64)
            } else {
                Some(number(s))
            };
            ctx.desc(|| format!("compare {a:?} with {b:?}"));
            ctx.nontrivial(format!("{a:?}{b:?}").as_bytes());
            compared(a, b, ctx)
        }
    }
}
fn fixed(run: &mut dyn FnMut(Vec<u8>), thorough: bool) {
    // all strings of up to 3 octets, and those of 4 (thorough) starting with a long-form octet
    run(vec![0, 0]);
    for a in 0..=255u8 {
        run(vec![0, 1, a]);
        for b in 0..=255u8 {
            run(vec![0, 2, a, b]);
            if a >= 0x80 && a < 0x8a || a == 0xff || a == 0x7f {
                for c in 0..=255u8 {
                    run(vec![0, 3, a, b, c]);
                    if thorough && a == 0x82 {
                        for d in 0..=255u8 {
                            run(vec![0, 4, a, b, c, d]);
                        }
                    }
                }
            }
        }
    }
}
fn main() {
    engine::main(Property {
        id: "P06",
        rule: "a length above 127, a long-form octet string, or a comparison; distinct by number or octets",
        case,
        fixed,
        quick: 2_500_000,
        thorough: 12_000_000,
    })
}
