//! P01: parsing a slice as DER.
use bsn1::{DerRef, Length};
use vh::{engine, ensure, ensure_eq, gen, kind_ok, model, Ctx, Property, Src, R};

fn check(b: &[u8], ctx: &mut Ctx) -> R {
    let expected = model::der(b);
    let mut rest = b;
    let got = DerRef::parse(&mut rest);
    let mut copy = b.to_vec();
    let (base, len) = (copy.as_ptr() as usize, copy.len());
    let mut rest_mut: &mut [u8] = &mut copy;
    let got_mut = DerRef::parse_mut(&mut rest_mut);
    match expected {
        Ok(p) => {
            let n = p.total();
            let der = match got {
                Ok(d) => d,
                Err(e) => return Err(vh::Fail::new("refused", format!("well-formed DER refused: {e}"))),
            };
            let octets: &[u8] = der.as_ref();
            ensure_eq!(octets, &b[..n], "wrong-octets");
            ensure!(octets.as_ptr() == b.as_ptr(), "wrong-octets", "the value does not lie in the slice");
            ensure_eq!(rest, &b[n..], "wrong-rest");
            ensure!(n == b.len() || rest.as_ptr() as usize == b.as_ptr() as usize + n, "wrong-rest", "rest is elsewhere");
            let (i, l, c) = der.disassemble();
            let c_octets: &[u8] = c.as_ref();
            ensure_eq!(i.as_ref(), &b[..p.id], "wrong-id");
            ensure_eq!(l.definite(), Some(p.contents), "wrong-length");
            ensure_eq!(c_octets, &b[p.id + p.len..n], "wrong-contents");
            ensure_eq!(der.id().as_ref(), &b[..p.id], "wrong-id", "id()");
            ensure_eq!(der.length(), Length::Definite(p.contents), "wrong-length", "length()");
            let c: &[u8] = der.contents().as_ref();
            ensure_eq!(c, &b[p.id + p.len..n], "wrong-contents", "contents()");

            let der = match got_mut {
                Ok(d) => d,
                Err(e) => return Err(vh::Fail::new("refused", format!("parse_mut refused: {e}"))),
            };
            ensure_eq!((rest_mut.as_ptr() as usize, rest_mut.len()), (base + n, len - n), "wrong-rest", "parse_mut");
            let octets: &[u8] = (*der).as_ref();
            ensure_eq!(octets, &b[..n], "wrong-octets", "parse_mut");
            ensure!(octets.as_ptr() as usize == base, "wrong-octets", "parse_mut: elsewhere");
            let (i, l, c) = der.disassemble_mut();
            let c_octets: &[u8] = (*c).as_ref();
            ensure_eq!(i.as_ref(), &b[..p.id], "wrong-id", "parse_mut");
            ensure_eq!(l.definite(), Some(p.contents), "wrong-length", "parse_mut");
            ensure_eq!(c_octets, &b[p.id + p.len..n], "wrong-contents", "parse_mut");
            ensure_eq!(copy, b, "slice-changed", "parse_mut");
            ctx.label("accepted");
            ctx.label_if(n < b.len(), "accepted, octets follow");
            ctx.label_if(p.id > 1, "accepted, long identifier");
            ctx.label_if(p.len > 1, "accepted, long length");
            ctx.label_if(p.len > 2, "accepted, length of 2 octets and more");
            ctx.nontrivial(b);
        }
        Err(kinds) => {
            match got {
                Ok(d) => {
                    let o: &[u8] = d.as_ref();
                    return Err(vh::Fail::new("accepted", format!("accepted {} though {kinds:?}", engine::hexs(o))));
                }
                Err(e) => ensure!(kind_ok(&e, &kinds), "wrong-kind", "{e:?} is none of {kinds:?}"),
            }
            ensure!(rest.as_ptr() == b.as_ptr() && rest.len() == b.len(), "slice-moved", "slice moved on error ({kinds:?})");
            match got_mut {
                Ok(_) => return Err(vh::Fail::new("accepted", format!("parse_mut accepted though {kinds:?}"))),
                Err(e) => ensure!(kind_ok(&e, &kinds), "wrong-kind", "parse_mut: {e:?} is none of {kinds:?}"),
            }
            ensure_eq!((rest_mut.as_ptr() as usize, rest_mut.len()), (base, len), "slice-moved", "parse_mut");
            ensure_eq!(copy, b, "slice-changed", "parse_mut");
            ctx.label("refused");
            ctx.label_if(kinds.contains(&model::E::Indefinite), "refused, indefinite length");
            ctx.label_if(kinds.contains(&model::E::Overflow), "refused, length overflow");
            ctx.label_if(kinds.contains(&model::E::Redundant), "refused, not shortest");
            if model::id_size(b).is_ok() {
                ctx.label_if(kinds.contains(&model::E::Unterminated), "refused, truncated after the identifier");
                ctx.nontrivial(b);
            }
        }
    }
    Ok(())
}

fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.u8() < 8 {
        let n = s.u8() as usize;
        let b = s.bytes(n);
        ctx.desc(|| format!("octets {}", engine::hexs(&b)));
        return check(&b, ctx);
    }
    let (b, kind) = gen::octets(s, 40);
    ctx.desc(|| format!("{kind} {}", engine::hexs(&b)));
    check(&b, ctx)?;
    // every truncation of a short value
    if s.chance(64) && b.len() <= 40 {
        for i in 0..b.len() {
            check(&b[..i], ctx)?;
        }
        ctx.label("every truncation");
    }
    Ok(())
}
fn fixed(run: &mut dyn FnMut(Vec<u8>), thorough: bool) {
    run(vec![0, 0]);
    for a in 0..=255u8 {
        run(vec![0, 1, a]);
        for b in 0..=255u8 {
            run(vec![0, 2, a, b]);
            if [0x02, 0x1f, 0x30, 0xff].contains(&a) || thorough {
                for c in 0..=255u8 {
                    run(vec![0, 3, a, b, c]);
                }
            }
        }
    }
}
fn main() {
    engine::main(Property {
        id: "P01",
        rule: "the slice starts with a well-formed identifier, so the decision depends on length or contents octets; distinct by octets",
        case,
        fixed,
        quick: 2_500_000,
        thorough: 12_000_000,
    })
}
