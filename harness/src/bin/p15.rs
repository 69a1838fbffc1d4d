//! P15: the indefinite-length form.
use bsn1::{Ber, BerRef, Error};
use vh::io::SchedReader;
use vh::model::Val;
use vh::values::{pick_any, with_type, Gen, Visitor, SCALARS};
use vh::{engine, ensure, gen, model, Ctx, Fail, Property, Src, R};

/// Calls `f` with each primitive element.
fn leaves<'a>(v: &'a Val, out: &mut Vec<(&'a [u8], &'a [u8])>) {
    match v {
        Val::Prim { id, contents } => out.push((id, contents)),
        Val::Cons { items, .. } | Val::SetOf { items, .. } => items.iter().for_each(|i| leaves(i, out)),
    }
}
/// BER of `v` in which leaf number `n` is replaced.
fn with_leaf(v: &Val, n: &mut isize, new: &[u8], indef: &mut dyn FnMut() -> bool) -> Vec<u8> {
    match v {
        Val::Prim { id, contents } => {
            *n -= 1;
            if *n == -1 {
                new.to_vec()
            } else {
                model::tlv(id, contents)
            }
        }
        Val::Cons { id, items } | Val::SetOf { id, items } => {
            let ind = indef();
            let c: Vec<u8> = items.iter().flat_map(|i| with_leaf(i, n, new, indef)).collect();
            if ind {
                [&id[..], &[0x80], &c, &[0, 0]].concat()
            } else {
                model::tlv(id, &c)
            }
        }
    }
}
fn ber_routes<T: Gen>(octets: &[u8], s: &mut Src) -> Vec<(&'static str, Result<T, Error>)> {
    let steps = gen::steps(s);
    vec![
        ("parse_ber", bsn1_serde::parse_ber::<T>(&mut &octets[..])),
        ("read_ber", bsn1_serde::read_ber::<_, T>(&mut SchedReader::new(octets, &steps))),
        ("from_ber", BerRef::parse(&mut &octets[..]).and_then(|b| bsn1_serde::from_ber(b))),
        ("from_ber of Ber", Ber::parse(&mut &octets[..]).and_then(|b| bsn1_serde::from_ber(&b))),
    ]
}
struct One<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
}
impl Visitor for One<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let (s, ctx) = (&mut *self.s, &mut *self.ctx);
        let size = *s.pick(&[4, 4, 4, 9]);
        let v = T::gen(s, size);
        let m = v.model();
        let odds = *s.pick(&[60u32, 128, 256, 20]);
        let mode = s.weighted(&[10, 4, 2]);
        let mut ls = Vec::new();
        leaves(&m, &mut ls);
        if mode == 1 && !ls.is_empty() {
            // a primitive of indefinite length
            let n = s.below(ls.len());
            let (id, c) = ls[n];
            let mut lead = id[0];
            if (lead == 4 || lead == 12) && s.flag() {
                lead |= 0x20;
            }
            let inner = match s.below(3) {
                0 => vec![],
                1 => model::tlv(&[lead & 0xdf], c),
                _ => [model::tlv(&[4], &c[..c.len() / 2]), model::tlv(&[4], &c[c.len() / 2..])].concat(),
            };
            let new = [&[lead, 0x80][..], &inner, &[0, 0]].concat();
            let octets = with_leaf(&m, &mut (n as isize), &new, &mut || s.chance(odds));
            ctx.desc(|| format!("{} with an indefinite primitive: {}", T::name(), engine::hexs(&octets)));
            ctx.label("indefinite primitive");
            ctx.nontrivial(&octets);
            for (route, r) in ber_routes::<T>(&octets, s) {
                match r {
                    Ok(x) => return Err(Fail::new("accepted", format!("{route} of {} as {}: {x:?}", engine::hexs(&octets), T::name()))),
                    Err(e) => ensure!(
                        *e.root_cause() == Error::IndefiniteLength,
                        "wrong-kind",
                        "{route} of {} as {}: {e:?}", engine::hexs(&octets), T::name()
                    ),
                }
            }
            return Ok(());
        }
        let mut count = 0;
        let octets = m.ber(&mut || s.chance(odds), &mut count);
        ctx.desc(|| format!("{} with {count} indefinite: {}", T::name(), engine::hexs(&octets)));
        if count > 0 {
            ctx.nontrivial(T::name().as_bytes());
            ctx.nontrivial(&octets);
        }
        if mode == 2 && count > 0 {
            ctx.label("indefinite in DER");
            let steps = gen::steps(s);
            for (route, r) in [
                ("parse_der", bsn1_serde::parse_der::<T>(&mut &octets[..])),
                ("read_der", bsn1_serde::read_der::<_, T>(&mut SchedReader::new(&octets, &steps))),
            ] {
                match r {
                    Ok(x) => return Err(Fail::new("accepted", format!("{route} of {} as {}: {x:?}", engine::hexs(&octets), T::name()))),
                    Err(e) => ensure!(
                        *e.root_cause() == Error::IndefiniteLength,
                        "wrong-kind",
                        "{route} of {} as {}: {e:?}", engine::hexs(&octets), T::name()
                    ),
                }
            }
            return Ok(());
        }
        ctx.label(match count {
            0 => "no indefinite length",
            1 => "one indefinite length",
            2..=4 => "a few indefinite lengths",
            _ => "many indefinite lengths",
        });
        ctx.label_if(count == m_constructed(&m) && count > 1, "all levels indefinite");
        for (route, r) in ber_routes::<T>(&octets, s) {
            match r {
                Ok(x) => ensure!(x == v, "changed", "{route} of {} as {}: {x:?}", engine::hexs(&octets), T::name()),
                Err(e) => return Err(Fail::new("refused", format!("{route} of {} as {}: {e:?}", engine::hexs(&octets), T::name()))),
            }
        }
        Ok(())
    }
}
fn m_constructed(v: &Val) -> usize {
    match v {
        Val::Prim { .. } => 0,
        Val::Cons { items, .. } | Val::SetOf { items, .. } => 1 + items.iter().map(m_constructed).sum::<usize>(),
    }
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut i = pick_any(s);
    if i < SCALARS && s.flag() {
        i += SCALARS;
    }
    with_type(i, &mut One { s, ctx })
}
fn main() {
    engine::main(Property {
        id: "P15",
        rule: "values with at least one indefinite length; distinct by type and octets",
        case,
        fixed: engine::no_fixed,
        quick: 400_000,
        thorough: 5_000_000,
    })
}
