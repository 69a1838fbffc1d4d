//! P11: equality, ordering and hashing in every representation.
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vh::{engine, ensure, ensure_eq, gen, model, Ctx, Fail, Property, Src, R};

fn h<T: ?Sized + Hash>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}
/// Owned and borrowed, every combination.
macro_rules! compare {
    ($owned:ty, $borrowed:ty, $as:expr, $bs:expr, $eq:expr) => {{
        let (xs, ys): (&[$owned], &[$owned]) = (&$as, &$bs);
        for a in xs {
            for b in ys {
                let (ar, br): (&$borrowed, &$borrowed) = (&**a, &**b);
                let got = [
                    *a == *b, *a == br, *ar == *b, *ar == *br, *ar == br, ar == br, *b == *a, *b == ar, *br == *a,
                    *br == *ar, *br == ar, !(*a != *b), !(*a != br), !(*ar != *b), !(*ar != *br), !(*br != *a),
                    Borrow::<$borrowed>::borrow(a) == Borrow::<$borrowed>::borrow(b),
                    AsRef::<$borrowed>::as_ref(a) == AsRef::<$borrowed>::as_ref(b),
                ];
                ensure!(got.iter().all(|&g| g == $eq), "equality", "{a:?} and {b:?}: {got:?} instead of {}", $eq);
                if $eq {
                    let hs = [h(a), h(b), h(ar), h(br), h(Borrow::<$borrowed>::borrow(a))];
                    ensure!(hs.iter().all(|&x| x == hs[0]), "hash", "{a:?} and {b:?}: {hs:x?}");
                }
            }
            ensure!(*a == *a && **a == **a && **a == *a, "equality", "{a:?} and itself");
        }
        let mut m: HashMap<$owned, usize> = HashMap::new();
        m.insert(xs[0].clone(), 7);
        let set: HashSet<$owned> = xs.iter().cloned().collect();
        ensure_eq!(set.len(), 1, "hash", "equal values in a set: {xs:?}");
        for b in ys {
            let br: &$borrowed = b;
            ensure_eq!(m.get(br).is_some(), $eq, "lookup", "{:?} by {br:?}", xs[0]);
            ensure_eq!(m.get(b).is_some(), $eq, "lookup", "{:?} by {b:?}", xs[0]);
            ensure_eq!(set.contains(br), $eq, "lookup", "{xs:?} by {br:?}");
        }
        for b in ys {
            *m.entry(b.clone()).or_insert(0) += 1;
        }
        ensure_eq!(m.len(), if $eq { 1 } else { 2 }, "lookup");
    }};
}
fn vec_spare(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.reserve(s.below(60));
    v
}
fn ids(s: &mut Src, b: &[u8]) -> Vec<Id> {
    let mut v = vec![Id::from(unsafe { IdRef::from_bytes_unchecked(b) })];
    if let Ok(i) = Id::parse(&mut &b[..]) {
        v.push(i);
    }
    // from a longer one
    if let Some(n) = model::id_number(b) {
        let mut i = Id::from(unsafe { IdRef::from_bytes_unchecked(&[0xff, 0x83, 0x80, 0x80, 0x80, 0x01]) });
        i.set_number(u128::MAX.into());
        i.set_number((s.u8() as u128).into());
        i.set_number(n.into());
        i.set_class([bsn1::ClassTag::Universal, bsn1::ClassTag::Application, bsn1::ClassTag::ContextSpecific, bsn1::ClassTag::Private][(b[0] >> 6) as usize]);
        i.set_pc(if b[0] & 0x20 != 0 { bsn1::PCTag::Constructed } else { bsn1::PCTag::Primitive });
        v.push(i);
    }
    v
}
fn contentses(s: &mut Src, b: &[u8]) -> Vec<Contents> {
    vec![Contents::from(b), Contents::from(vec_spare(s, b)), Contents::from(<&ContentsRef>::from(b))]
}
fn ders(s: &mut Src, b: &[u8]) -> Vec<Der> {
    let p = model::der(b).unwrap();
    let id = unsafe { IdRef::from_bytes_unchecked(&b[..p.id]) };
    let c = &b[p.id + p.len..];
    let mut long = Der::new(id, <&ContentsRef>::from(&[c, &[7; 200]].concat()[..]));
    long.truncate(c.len());
    let mut short = Der::new(id, <&ContentsRef>::from(&c[..c.len() / 2]));
    short.extend_from_slice(&c[c.len() / 2..]);
    vec![unsafe { Der::from_bytes_unchecked(b) }, unsafe { Der::from_vec_unchecked(vec_spare(s, b)) }, long, short]
}
fn bers(s: &mut Src, b: &[u8]) -> Vec<Ber> {
    let mut v = vec![unsafe { Ber::from_bytes_unchecked(b) }, unsafe { Ber::from_vec_unchecked(vec_spare(s, b)) }];
    let mut more = unsafe { Ber::from_bytes_unchecked(b) };
    let n = more.contents().len();
    more.extend_from_slice(&[9; 130]);
    more.truncate(n);
    v.push(more);
    v
}
/// Equal, or alike but different.
fn neighbour(s: &mut Src, a: &[u8]) -> Vec<u8> {
    let mut b = a.to_vec();
    match s.below(8) {
        0..=2 => {}
        3 if !b.is_empty() => {
            let i = b.len() - 1;
            b[i] ^= 1 << s.below(8);
        }
        4 => b.push(s.u8()),
        5 => {
            b.pop();
        }
        6 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] = b[i].wrapping_add(1 + s.below(255) as u8);
        }
        _ => gen::mutate(s, &mut b),
    }
    b
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.below(4) {
        0 => {
            let a = gen::id(s);
            let mut b = if s.chance(60) { gen::id(s) } else { neighbour(s, &a) };
            if model::id_size(&b) != Ok(b.len()) {
                b = a.clone();
            }
            let eq = a == b;
            ctx.desc(|| format!("identifiers {} {}", engine::hex(&a), engine::hex(&b)));
            ctx.label(if eq { "equal identifiers" } else { "different identifiers" });
            let (x, y) = (ids(s, &a), ids(s, &b));
            compare!(Id, IdRef, x, y, eq);
            let want = a.cmp(&b);
            for p in &x {
                for q in &y {
                    let (pr, qr): (&IdRef, &IdRef) = (p, q);
                    let got = [
                        p.cmp(q), pr.cmp(qr), q.cmp(p).reverse(), qr.cmp(pr).reverse(),
                        p.partial_cmp(q).unwrap(), p.partial_cmp(&qr).unwrap(), pr.partial_cmp(q).unwrap(),
                        pr.partial_cmp(qr).unwrap(), pr.partial_cmp(&qr).unwrap(), q.partial_cmp(&pr).unwrap().reverse(),
                    ];
                    ensure!(got.iter().all(|&g| g == want), "order", "{p:?} {q:?}: {got:?} instead of {want:?}");
                    let lt = [*p < *q, *p < qr, *pr < *q, *pr < *qr, !(*p >= *q), !(*pr >= *q), *q > *p, *qr > *pr];
                    ensure!(lt.iter().all(|&g| g == (want == Ordering::Less)), "order", "{p:?} {q:?}: {lt:?}");
                }
            }
            let mut t: BTreeMap<Id, u8> = BTreeMap::new();
            t.insert(x[0].clone(), 1);
            t.insert(Id::from(IdRef::sequence()), 2);
            t.insert(Id::from(IdRef::eoc()), 3);
            for q in &y {
                let qr: &IdRef = q;
                let want = eq || b == [0x30] || b == [0x00];
                ensure_eq!(t.contains_key(qr), want, "lookup", "ordered map by {qr:?}");
                ensure_eq!(t.contains_key(q), want, "lookup", "ordered map by {q:?}");
            }
            ctx.nontrivial(&[&a[..], &[0xee], &b].concat());
        }
        1 => {
            let a = gen::contents(s, false);
            let b = neighbour(s, &a);
            ctx.desc(|| format!("contents {} {}", engine::hexs(&a), engine::hexs(&b)));
            ctx.label(if a == b { "equal contents" } else { "different contents" });
            let (x, y) = (contentses(s, &a), contentses(s, &b));
            compare!(Contents, ContentsRef, x, y, a == b);
            ctx.nontrivial(&[&a[..], &[0xee], &b].concat());
        }
        2 => {
            let a = model::tlv(&gen::id(s), &gen::contents(s, false));
            let mut b = match s.below(3) {
                // the same contents, another identifier
                0 => {
                    let p = model::der(&a).unwrap();
                    model::tlv(&gen::id(s), &a[p.id + p.len..])
                }
                // the same identifier, other contents
                1 => {
                    let p = model::der(&a).unwrap();
                    let c = neighbour(s, &a[p.id + p.len..]);
                    model::tlv(&a[..p.id], &c)
                }
                _ => neighbour(s, &a),
            };
            if !model::der(&b).is_ok_and(|p| p.total() == b.len()) {
                b = a.clone();
            }
            ctx.desc(|| format!("DER {} {}", engine::hexs(&a), engine::hexs(&b)));
            ctx.label(if a == b { "equal DER" } else { "different DER" });
            let (x, y) = (ders(s, &a), ders(s, &b));
            compare!(Der, DerRef, x, y, a == b);
            let (x, y) = (bers(s, &a), bers(s, &b));
            compare!(Ber, BerRef, x, y, a == b);
            ctx.nontrivial(&[&a[..], &[0xee], &b].concat());
        }
        _ => {
            // BER: the indefinite form is another value
            let depth = s.below(3);
            let mut a = Vec::new();
            gen::tree(s, depth, 160, false, &mut a);
            let p = model::ber(&a).map_err(|e| Fail::new("generator", format!("{e:?}")));
            let Ok(p) = p else { return Ok(()) };
            if p.total() != a.len() {
                return Ok(());
            }
            let c = &a[p.id + p.len..];
            let mut b = match s.below(3) {
                0 => model::tlv(&a[..p.id], c),
                1 => [&a[..p.id], &[0x80], c].concat(),
                _ => neighbour(s, &a),
            };
            if !model::ber(&b).is_ok_and(|p| p.total() == b.len()) {
                b = a.clone();
            }
            ctx.desc(|| format!("BER {} {}", engine::hexs(&a), engine::hexs(&b)));
            ctx.label(if a == b { "equal BER" } else { "different BER" });
            let (x, y) = (bers(s, &a), bers(s, &b));
            compare!(Ber, BerRef, x, y, a == b);
            ctx.nontrivial(&[&a[..], &[0xee], &b].concat());
        }
    }
    Ok(())
}
fn main() {
    engine::main(Property {
        id: "P11",
        rule: "pairs of values compared in all combinations of owned and borrowed; distinct by the pair of octet strings",
        case,
        fixed: engine::no_fixed,
        quick: 1_500_000,
        thorough: 4_000_000,
    })
}
