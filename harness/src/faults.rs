//! Single defects put at one place of the DER of a value.
use crate::model::{encode_len, tlv, Val};
use bsn1::Error;

/// A place in a value: child indices from the root.
pub fn places(v: &Val, at: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Vec<u8>, bool)>) {
    match v {
        Val::Prim { id, .. } => out.push((at.clone(), id.clone(), false)),
        Val::Cons { id, items } | Val::SetOf { id, items } => {
            out.push((at.clone(), id.clone(), true));
            for (i, x) in items.iter().enumerate() {
                at.push(i);
                places(x, at, out);
                at.pop();
            }
        }
    }
}
/// DER of `v` with the octets at `place` given by `change(id, contents)`.
pub fn altered(v: &Val, place: &[usize], change: &dyn Fn(&[u8], Vec<u8>) -> Vec<u8>) -> Vec<u8> {
    altered_within(v, place, change, &mut || false)
}
/// The same with the values around and beside `place` in indefinite-length form where `open` says so.
pub fn altered_within(
    v: &Val,
    place: &[usize],
    change: &dyn Fn(&[u8], Vec<u8>) -> Vec<u8>,
    open: &mut dyn FnMut() -> bool,
) -> Vec<u8> {
    let (id, contents) = match v {
        Val::Prim { id, contents } => (id, contents.clone()),
        Val::Cons { id, items } | Val::SetOf { id, items } => {
            let mut es: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            for (i, x) in items.iter().enumerate() {
                let e = match place.first() {
                    Some(&p) if p == i => altered_within(x, &place[1..], change, open),
                    _ => x.ber(open, &mut 0),
                };
                es.push((x.der(), e));
            }
            if matches!(v, Val::SetOf { .. }) {
                es.sort();
            }
            (id, es.into_iter().flat_map(|e| e.1).collect())
        }
    };
    if place.is_empty() {
        change(id, contents)
    } else if id[0] & 0x20 != 0 && open() {
        [&id[..], &[0x80], &contents, &[0, 0]].concat()
    } else {
        tlv(id, &contents)
    }
}
fn in_place(v: &Val, place: &[usize]) -> Option<usize> {
    match (v, place.first()) {
        (Val::Cons { items, .. }, None) => Some(items.len()),
        (_, None) => None,
        (Val::Cons { items, .. } | Val::SetOf { items, .. }, Some(&i)) => in_place(&items[i], &place[1..]),
        _ => None,
    }
}
pub type Change = Box<dyn Fn(&[u8], Vec<u8>) -> Vec<u8>>;
/// The defects which fit the part at `place`: (name, expected root causes, change).
pub fn defects(m: &Val, place: &[usize], id: &[u8], cons: bool, der: bool) -> Vec<(&'static str, Vec<Error>, Change)> {
    let mut options: Vec<(&'static str, Vec<Error>, Change)> = Vec::new();
    let mut add = |n, k, c: Change| options.push((n, k, c));
    let pair = id == [0x30] && !place.is_empty() && in_place(m, place) == Some(2);
    add(
        "other identifier",
        if pair { vec![Error::UnmatchedId, Error::InvalidKeyValuePair] } else { vec![Error::UnmatchedId] },
        Box::new(|_, c| tlv(&[0xdf, 0x55], &c)),
    );
    if id == [1] {
        add("long boolean", vec![Error::ExtraContentsOctet], Box::new(|i, c| tlv(i, &[c[0], c[0]])));
        add("empty boolean", vec![Error::UnterminatedBytes], Box::new(|i, _| tlv(i, &[])));
        if der {
            add("bad boolean", vec![Error::InvalidDerBooleanContents], Box::new(|i, _| tlv(i, &[0x55])));
        }
    }
    if id == [2] {
        add("empty integer", vec![Error::UnterminatedBytes], Box::new(|i, _| tlv(i, &[])));
        add("padded integer", vec![Error::RedundantBytes], Box::new(|i, c| {
            let pad = if c[0] & 0x80 == 0 { 0 } else { 0xff };
            tlv(i, &[&[pad][..], &c].concat())
        }));
        add("huge integer", vec![Error::OverFlow], Box::new(|i, _| tlv(i, &[1; 18])));
    }
    if id == [12] {
        add("bad text", vec![Error::InvalidUtf8], Box::new(|i, c| tlv(i, &[&c[..], &[0xc3]].concat())));
    }
    if !place.is_empty() {
        add("redundant length", vec![Error::RedundantBytes], Box::new(|i, c| {
            let n = encode_len(c.len() as u64);
            let l = if n.len() == 1 { vec![0x81, n[0]] } else { [&[n[0] + 1, 0][..], &n[1..]].concat() };
            [i, &l, &c].concat()
        }));
        add("redundant identifier", vec![Error::RedundantBytes], Box::new(|i, c| tlv(&[i[0] | 0x1f, 0x80, 0x01], &c)));
        add("overflowing length", vec![Error::OverFlow], Box::new(|i, c| [i, &[0x89, 1, 0, 0, 0, 0, 0, 0, 0, 0], &c].concat()));
    }
    if der && !place.is_empty() {
        add("indefinite in DER", vec![Error::IndefiniteLength], Box::new(|i, c| [i, &[0x80], &c, &[0, 0]].concat()));
    }
    if !der && !cons && [1, 2, 4, 12].contains(&id[0]) {
        add("indefinite primitive", vec![Error::IndefiniteLength], Box::new(|i, _| [i, &[0x80, 0, 0][..]].concat()));
    }
    options
}
