//! Checks of one encoding or one octet string, shared by several properties.
use crate::engine::{self, Ctx, Fail, Src, R};
use crate::io::SchedReader;
use crate::model::{self, Tlv, Val};
use crate::values::{Dec, Gen};
use crate::{ensure, ensure_eq, gen};
use bsn1::{Ber, BerRef, DerRef, Error};
use bsn1_serde::ser::Serialize;

fn err(what: &str) -> impl Fn(bsn1::Error) -> Fail + '_ {
    move |e| Fail::new("failed", format!("{what}: {e:?}"))
}
/// Every way to serialize `v` gives `want`, and the announced sizes are right.
pub fn encoding<T: Serialize + ?Sized>(v: &T, want: &[u8], name: &str) -> R {
    let p = model::der(want).map_err(|e| Fail::new("model", format!("{e:?}")))?;
    let (id, contents) = (&want[..p.id], &want[p.id + p.len..]);
    let mut w = Vec::new();
    v.write_id(&mut w).map_err(err("write_id"))?;
    ensure_eq!(engine::hex(&w), engine::hex(id), "wrong-id", "{name}");
    let mut w = Vec::new();
    v.write_der_contents(&mut w).map_err(err("write_der_contents"))?;
    ensure!(w == contents, "wrong-contents", "{name}: {} instead of {}", engine::hexs(&w), engine::hexs(contents));
    if let Some(n) = v.id_len().map_err(err("id_len"))? {
        ensure_eq!(n, id.len(), "wrong-size", "id_len of {name}");
    }
    if let Some(n) = v.der_contents_len().map_err(err("der_contents_len"))? {
        ensure_eq!(n, contents.len(), "wrong-size", "der_contents_len of {name}");
    }
    let mut outs = Vec::new();
    outs.push(("to_der", bsn1_serde::to_der(v).map_err(err("to_der"))?.into_vec()));
    outs.push(("to_ber", bsn1_serde::to_ber(v).map_err(err("to_ber"))?.into_vec()));
    for (what, prefix) in [("write_der", vec![]), ("write_der after other octets", vec![9u8, 9])] {
        let mut w = prefix.clone();
        bsn1_serde::write_der(v, &mut w).map_err(err(what))?;
        ensure!(w.starts_with(&prefix), "wrong-octets", "{name} {what}");
        outs.push((what, w[prefix.len()..].to_vec()));
    }
    let mut w = Vec::new();
    bsn1_serde::write_ber(v, &mut w).map_err(err("write_ber"))?;
    outs.push(("write_ber", w));
    for (what, o) in outs {
        ensure!(o == want, "wrong-octets", "{what} of {name}: {} instead of {}", engine::hexs(&o), engine::hexs(want));
    }
    Ok(())
}
pub const IDS: [u8; 16] = [0x01, 0x02, 0x04, 0x0c, 0x30, 0x31, 0x24, 0x2c, 0x22, 0x21, 0x10, 0x11, 0x00, 0x05, 0xa0, 0x82];

/// Octets of `v` with generated flaws; `left` bounds their number.
pub fn flawed(s: &mut Src, v: &Val, indef: u32, left: &mut u32) -> Vec<u8> {
    let hit = *left > 0 && s.chance(70);
    if hit {
        *left -= 1;
    }
    let (mut id, mut contents, cons) = match v {
        Val::Prim { id, contents } => {
            let mut c = contents.clone();
            if hit {
                match s.below(8) {
                    0 => c.insert(0, *s.pick(&[0u8, 0xff, 0x80, 0x7f])),
                    1 => {
                        c.pop();
                    }
                    2 if !c.is_empty() => {
                        let i = s.below(c.len());
                        c[i] = s.u8();
                    }
                    3 => c.push(s.u8()),
                    4 => c.clear(),
                    5 => c = vec![s.u8() | 1; s.range(1, 18)],
                    6 if !c.is_empty() => c[0] ^= 0x80,
                    _ => {
                        let i = s.below(c.len() + 1);
                        c.insert(i, s.u8());
                    }
                }
            }
            (id.clone(), c, false)
        }
        Val::Cons { id, items } | Val::SetOf { id, items } => {
            let mut es: Vec<Vec<u8>> = items.iter().map(|i| flawed(s, i, indef, left)).collect();
            if matches!(v, Val::SetOf { .. }) && !s.chance(60) {
                es.sort();
            }
            if hit {
                match s.below(8) {
                    0 if !es.is_empty() => {
                        let i = s.below(es.len());
                        es.remove(i);
                    }
                    1 if !es.is_empty() => {
                        let i = s.below(es.len());
                        let e = es[i].clone();
                        let j = s.below(es.len() + 1);
                        es.insert(j, e);
                    }
                    2 if es.len() > 1 => {
                        let i = s.below(es.len());
                        let j = s.below(es.len());
                        es.swap(i, j);
                    }
                    3 => {
                        let mut e = Vec::new();
                        let depth = s.below(3);
                        gen::tree(s, depth, 60, false, &mut e);
                        let j = s.below(es.len() + 1);
                        es.insert(j, e);
                    }
                    4 => es.push(vec![s.u8()]),
                    5 if !es.is_empty() => {
                        // put one element one level deeper
                        let i = s.below(es.len());
                        es[i] = model::tlv(&[*s.pick(&[0x30u8, 0x31])], &es[i].clone());
                    }
                    6 => es.insert(s.below(es.len() + 1), vec![0, 0]),
                    _ if !es.is_empty() => {
                        let i = s.below(es.len());
                        es[i].pop();
                    }
                    _ => es.push(model::tlv(&[2], &[s.u8()])),
                }
            }
            (id.clone(), es.concat(), id[0] & 0x20 != 0)
        }
    };
    if *left > 0 && s.chance(30) {
        *left -= 1;
        match s.below(6) {
            4 => *id.last_mut().unwrap() ^= *s.pick(&[1u8, 2, 0x40, 0x80]),
            5 if id.len() > 1 => {
                id.remove(s.range(1, id.len() - 1));
            }
            0 => id = vec![*s.pick(&IDS)],
            1 => id[0] ^= 0x20,
            2 => id[0] ^= *s.pick(&[0x40, 0x80, 0xc0, 0x01, 0x02, 0x08]),
            _ => id = gen::wild_id(s),
        }
    }
    if *left > 0 && s.chance(12) {
        *left -= 1;
        let l = gen::wild_len(s, contents.len());
        return [&id[..], &l, &contents].concat();
    }
    if (cons && s.chance(indef)) || (*left > 0 && s.chance(8)) {
        contents.extend([0, 0]);
        return [&id[..], &[0x80], &contents].concat();
    }
    model::tlv(&id, &contents)
}

fn judge<T: Gen>(ctx: &mut Ctx, route: &str, octets: &[u8], want: &Dec<T>, got: Result<T, Error>) -> R {
    let show = || format!("{route} of {} as {}", engine::hexs(octets), T::name());
    match (want, got) {
        (Dec::Open, _) => Ok(()),
        (Dec::Val(w) | Dec::Maybe(w), Ok(g)) => {
            ensure!(*w == g, "wrong-value", "{}: {g:?} instead of {w:?}", show());
            Ok(())
        }
        (Dec::Val(w), Err(e)) => Err(Fail::new("refused", format!("{}: {e:?} instead of {w:?}", show()))),
        (Dec::Maybe(_) | Dec::Reject, Err(_)) => Ok(()),
        (Dec::Reject, Ok(g)) => Err(Fail::new("accepted", format!("{}: {g:?}", show()))),
        (Dec::Segments(..), Err(_)) => Ok(()),
        (Dec::Segments(joined, raw), Ok(g)) => {
            if joined.as_ref() == Some(&g) {
                Ok(())
            } else if raw.as_ref() == Some(&g) {
                ctx.known("constructed-string-raw", format!("{}: {g:?} instead of {joined:?}", show()))
            } else {
                Err(Fail::new("wrong-value", format!("{}: {g:?} instead of {joined:?}", show())))
            }
        }
    }
}
/// What the reference decoder makes of the first value in `octets`.
pub fn expected<T: Gen>(octets: &[u8], der: bool) -> Dec<T> {
    model::ODD.with(|o| o.set(false));
    let mut b = octets;
    let Some(t) = model::split(&mut b, der) else {
        return if model::ODD.with(|o| o.get()) { Dec::Open } else { Dec::Reject };
    };
    let d = T::read(t, der);
    if model::ODD.with(|o| o.get()) {
        Dec::Open
    } else {
        d
    }
}
/// Every way to decode `octets` gives what the reference decoder says.
pub fn decoding<T: Gen>(s: &mut Src, ctx: &mut Ctx, octets: &[u8]) -> R {
    let steps = gen::steps(s);
    for der in [true, false] {
        let want = expected::<T>(octets, der);
        ctx.label(match (&want, der) {
            (Dec::Val(_), true) => "DER accepted",
            (Dec::Val(_), false) => "BER accepted",
            (Dec::Reject, true) => "DER refused",
            (Dec::Reject, false) => "BER refused",
            (Dec::Maybe(_), _) => "unsorted set",
            (Dec::Open, _) => "open",
            (Dec::Segments(..), _) => "constructed string",
        });
        if der {
            judge(ctx, "parse_der", octets, &want, bsn1_serde::parse_der::<T>(&mut &octets[..]))?;
            judge(ctx, "read_der", octets, &want, bsn1_serde::read_der::<_, T>(&mut SchedReader::new(octets, &steps)))?;
            if let Ok(d) = DerRef::parse(&mut &octets[..]) {
                judge(ctx, "from_der", octets, &want, bsn1_serde::from_der::<T>(d))?;
            }
        } else {
            judge(ctx, "parse_ber", octets, &want, bsn1_serde::parse_ber::<T>(&mut &octets[..]))?;
            judge(ctx, "read_ber", octets, &want, bsn1_serde::read_ber::<_, T>(&mut SchedReader::new(octets, &steps)))?;
            if let Ok(d) = Ber::parse(&mut &octets[..]) {
                judge(ctx, "from_ber", octets, &want, bsn1_serde::from_ber::<T>(&d))?;
            }
            // as an application may build it
            if let Some(t) = model::split(&mut &octets[..], false) {
                judge(ctx, "from_ber of a built value", octets, &want, built(t))?;
            }
        }
    }
    Ok(())
}
fn built<T: Gen>(t: Tlv) -> Result<T, Error> {
    let id = unsafe { bsn1::IdRef::from_bytes_unchecked(t.id) };
    let c = if t.definite { t.contents.to_vec() } else { [t.contents, &[0, 0]].concat() };
    let c = <&bsn1::ContentsRef>::from(&c[..]);
    let b = if t.definite { Ber::new(id, c) } else { unsafe { Ber::new_indefinite(id, c) } };
    let r: &BerRef = &b;
    bsn1_serde::from_ber::<T>(r)
}
