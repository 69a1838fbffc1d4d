//! P24: an error in nested data tells where the defect lies.
use bsn1::Error;
use vh::derived::{TooBig, AS_A_WHOLE};
use vh::faults::{altered_within, defects, places, Change};
use vh::model::{tlv, Val};
use vh::values::{member, pick_any, with_type, Gen, Visitor};
use vh::{engine, ensure, Ctx, Fail, Property, Src, R};

/// Words and numbers of a message.
fn words(text: &str) -> Vec<&str> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect()
}
struct Nested<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
}
impl Visitor for Nested<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let (s, ctx) = (&mut *self.s, &mut *self.ctx);
        let size = if s.chance(20) { 14 } else { 5 };
        let m = T::gen(s, size).model();
        let mut all = Vec::new();
        places(&m, &mut Vec::new(), &mut all);
        // deep or late places are the better ones
        let mut at = s.below(all.len());
        if s.flag() {
            at = at.max(s.below(all.len()));
        }
        let (place, id, cons) = all[at].clone();
        let der = s.flag();
        let mut options: Vec<(&'static str, bool, Change)> = defects(&m, &place, &id, cons, der)
            .into_iter()
            .map(|(n, _, c)| {
                let unread = ["redundant length", "redundant identifier", "overflowing length", "indefinite in DER"].contains(&n);
                (n, !unread, c)
            })
            .collect();
        let mut told = Vec::new();
        T::locate(&m, &place, true, &mut told);
        let last = |w: &str| told.last().is_some_and(|t| t.iter().any(|x| x == w));
        if last("small") && id == [2] {
            options.push(("too big a number", true, Box::new(|i, _| tlv(i, &[0x7b, 1, 2, 3]))));
            options.push(("negative number", true, Box::new(|i, _| tlv(i, &[0x80]))));
        }
        if last(AS_A_WHOLE) {
            options.push(("too long a list", true, Box::new(|i, _| tlv(i, &[2, 1, 0].repeat(41)))));
        }
        if last("pair") {
            options.push(("pair with a third member", true, Box::new(|i, c| tlv(i, &[&c[..], &[5, 0]].concat()))));
        }
        // a pair or structure which ends before one of its members
        let node = place.iter().fold(&m, |v, &i| member(v, i));
        let mut missing = None;
        if let Val::Cons { items, .. } = node {
            if !items.is_empty() {
                let k = s.below(items.len());
                let mut to = Vec::new();
                T::locate(&m, &[&place[..], &[k]].concat(), false, &mut to);
                if to.last().is_some_and(|t| t.iter().any(|w| w != "pair" && w != AS_A_WHOLE && w.parse::<usize>().is_err())) {
                    let kept: Vec<u8> = items[..k].iter().flat_map(|x| x.der()).collect();
                    missing = Some(to);
                    options.push(("missing member", true, Box::new(move |i, _| tlv(i, &kept))));
                }
            }
        }
        let (name, read, change) = options.swap_remove(s.below(options.len()));
        if !read {
            told.clear();
            T::locate(&m, &place, false, &mut told);
        }
        if name == "missing member" {
            told = missing.unwrap();
        }
        // an enclosing value of indefinite length has its members parsed before, where the
        // defects which stop a parser are met without knowing the types
        let loose = !der && read && name != "indefinite primitive" && s.flag();
        let octets = altered_within(&m, &place, &*change, &mut || loose && s.flag());
        ctx.desc(|| format!("{}: {name} at {place:?} in {}", T::name(), engine::hexs(&octets)));
        ctx.label(name);
        ctx.label_if(loose, "with indefinite lengths around it");
        ctx.label_if(told.len() > 2, "three or more levels to tell");
        ctx.label_if(told.iter().flatten().any(|w| w.parse::<usize>().is_ok_and(|n| n > 1)), "index above one");
        if !told.is_empty() {
            ctx.nontrivial(&octets);
            ctx.nontrivial(T::name().as_bytes());
        }
        let got: Vec<(&str, Result<T, Error>)> = if der {
            let p = bsn1_serde::parse_der::<T>(&mut &octets[..]);
            let r = bsn1_serde::read_der::<_, T>(&mut &octets[..]);
            vec![("parse_der", p), ("read_der", r)]
        } else {
            let p = bsn1_serde::parse_ber::<T>(&mut &octets[..]);
            let r = bsn1_serde::read_ber::<_, T>(&mut &octets[..]);
            vec![("parse_ber", p), ("read_ber", r)]
        };
        for (route, g) in got {
            let e = match g {
                Ok(v) => return Err(Fail::new("accepted", format!("{route} {} as {}: {v:?} despite {name}", engine::hexs(&octets), T::name()))),
                Err(e) => e,
            };
            // what the conversion returned is there to the last layer
            let root = *e.root_cause() == Error::OverFlow;
            let e = e.into_anyhow();
            let all: Vec<&(dyn std::error::Error + 'static)> = e.chain().collect();
            let own = all.last().is_some_and(|l| l.is::<TooBig>());
            let layers: Vec<String> = all.iter().rev().skip(1).take(2).map(|l| l.to_string()).collect();
            let kept = match name {
                "too long a list" => own,
                "too big a number" => own && layers[0] == "outer layer",
                "negative number" => root && layers == ["inner layer", "outer layer"],
                _ => true,
            };
            ensure!(kept, "conversion", "{route} {} as {} with {name}: {e:?}", engine::hexs(&octets), T::name());
            let chain: Vec<String> = e.chain().map(|c| c.to_string()).collect();
            let mut left = chain.iter();
            for (level, t) in told.iter().filter(|t| t[0] != AS_A_WHOLE).enumerate() {
                let found = left.by_ref().any(|c| {
                    let w = words(c);
                    t.iter().all(|x| x == "pair" || w.contains(&x.as_str()))
                });
                ensure!(
                    found,
                    "place",
                    "{route} {} as {} with {name}: level {level} of {told:?} is not told by {chain:?}",
                    engine::hexs(&octets),
                    T::name()
                );
            }
        }
        Ok(())
    }
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = pick_any(s);
    with_type(i, &mut Nested { s, ctx })
}
fn main() {
    engine::main(Property {
        id: "P24",
        rule: "one defect inside a list, set, map or structure of an encoded typed value; distinct by octets and type",
        case,
        fixed: engine::no_fixed,
        quick: 300_000,
        thorough: 5_000_000,
    })
}
