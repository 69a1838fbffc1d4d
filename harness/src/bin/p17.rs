//! P17: the octets of a set or map do not depend on how it came to be, and are sorted.
use bsn1::{ContentsRef, Error, IdRef, Length};
use bsn1_serde::{de::Deserialize, ser::Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use vh::derived::{Ch, Outer, Rec, Tup};
use vh::model::{self, Tlv, Val};
use vh::values::{Dec, Gen, NoLen, Oct};
use vh::{engine, ensure, gen, Ctx, Fail, Property, Src, R};

/// Distinct values with the same encoding; both have to appear in a set.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Alias(u8);
impl Serialize for Alias {
    fn write_id<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        (self.0 / 4).write_id(w)
    }
    fn write_der_contents<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        (self.0 / 4).write_der_contents(w)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        (self.0 / 4).id_len()
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        (self.0 / 4).der_contents_len()
    }
}
impl Deserialize for Alias {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        u8::from_ber(id, length, contents).map(|n| Alias(n.wrapping_mul(4)))
    }
    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        u8::from_der(id, contents).map(|n| Alias(n.wrapping_mul(4)))
    }
}
impl Gen for Alias {
    const CONSTRUCTED: bool = false;
    fn name() -> String {
        "Alias".into()
    }
    fn gen(s: &mut Src, _: usize) -> Self {
        Alias(s.u8())
    }
    fn model(&self) -> Val {
        (self.0 / 4).model()
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        u8::read(t, der).map(|n| Alias(n.wrapping_mul(4)))
    }
}
/// Encodings which differ only in their last octets, often by far the smaller part.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Twin(Oct);
impl Serialize for Twin {
    fn write_id<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        self.0.write_id(w)
    }
    fn write_der_contents<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        self.0.write_der_contents(w)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        self.0.id_len()
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        self.0.der_contents_len()
    }
}
impl Deserialize for Twin {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        Oct::from_ber(id, length, contents).map(Twin)
    }
    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        Oct::from_der(id, contents).map(Twin)
    }
}
impl Gen for Twin {
    const CONSTRUCTED: bool = false;
    fn name() -> String {
        "Twin".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        // the size is shared by most of a collection
        let n = match size {
            _ if gen::SLOW => 20,
            0..=2 => 30 + s.below(2),
            3..=4 => [120, 126, 250, 510][s.below(4)],
            _ => [1000, 2046, 4100][s.below(3)],
        };
        let mut octets = vec![0x5a; n];
        octets.extend([s.u8(), s.u8()]);
        Twin(octets.into())
    }
    fn model(&self) -> Val {
        self.0.model()
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        Oct::read(t, der).map(Twin)
    }
}
trait Key: Gen + Ord + Hash {}
impl<T: Gen + Ord + Hash> Key for T {}

fn octets<T: Serialize>(v: &T, how: usize) -> Result<Vec<u8>, Error> {
    let mut w = Vec::new();
    match how % 4 {
        0 => w = bsn1_serde::to_der(v)?.into_vec(),
        1 => w = bsn1_serde::to_ber(v)?.into_vec(),
        2 => bsn1_serde::write_der(v, &mut w)?,
        _ => {
            // by hand, from the pieces of the trait
            let mut c = Vec::new();
            v.write_id(&mut w)?;
            v.write_der_contents(&mut c)?;
            w.extend(model::encode_len(c.len() as u64));
            w.extend(c);
        }
    }
    Ok(w)
}
fn same<T: Serialize + Debug>(v: &T, how: usize, want: &[u8], what: &str, kind: &str) -> R {
    let got = octets(v, how).map_err(|e| Fail::new("failed", format!("{kind}: {e:?}")))?;
    ensure!(
        got == want,
        "wrong-octets",
        "{kind} {what}: {} instead of {}",
        engine::hexs(&got),
        engine::hexs(want)
    );
    Ok(())
}
fn shuffle<T>(s: &mut Src, v: &mut [T]) {
    // a generated permutation, drawn from few octets for long lists
    let seed = s.u64();
    for i in (1..v.len()).rev() {
        let j = (engine::mix(&[seed, i as u64]) % (i as u64 + 1)) as usize;
        v.swap(i, j);
    }
}
fn size(s: &mut Src, thorough: bool) -> usize {
    match s.weighted(&[10, 6, 3, if thorough { 2 } else { 1 }]) {
        0 => s.below(5),
        1 => s.below(14),
        _ if gen::SLOW => s.below(9),
        2 => s.below(60),
        _ => s.below(400),
    }
}
/// How a history of one container is carried out.
trait Coll<E>: Serialize + PartialEq + Debug + Default + Clone {
    fn put(&mut self, e: E);
    fn del(&mut self, e: &E);
    fn cap(&mut self, how: u8, n: usize);
}
impl<T: Key> Coll<T> for HashSet<T> {
    fn put(&mut self, e: T) {
        self.insert(e);
    }
    fn del(&mut self, e: &T) {
        self.remove(e);
    }
    fn cap(&mut self, how: u8, n: usize) {
        match how % 4 {
            0 => self.reserve(n),
            1 => self.shrink_to_fit(),
            2 => *self = std::mem::take(self).into_iter().collect(),
            _ => {
                let all: Vec<T> = self.drain().collect();
                self.extend(all);
            }
        }
    }
}
impl<T: Key> Coll<T> for BTreeSet<T> {
    fn put(&mut self, e: T) {
        self.insert(e);
    }
    fn del(&mut self, e: &T) {
        self.remove(e);
    }
    fn cap(&mut self, _: u8, _: usize) {
        *self = std::mem::take(self).into_iter().rev().collect();
    }
}
impl<K: Key, V: Gen> Coll<(K, V)> for HashMap<K, V> {
    fn put(&mut self, e: (K, V)) {
        self.insert(e.0, e.1);
    }
    fn del(&mut self, e: &(K, V)) {
        self.remove(&e.0);
    }
    fn cap(&mut self, how: u8, n: usize) {
        match how % 4 {
            0 => self.reserve(n),
            1 => self.shrink_to_fit(),
            2 => *self = std::mem::take(self).into_iter().collect(),
            _ => {
                let all: Vec<(K, V)> = self.drain().collect();
                self.extend(all);
            }
        }
    }
}
impl<K: Key, V: Gen> Coll<(K, V)> for BTreeMap<K, V> {
    fn put(&mut self, e: (K, V)) {
        self.insert(e.0, e.1);
    }
    fn del(&mut self, e: &(K, V)) {
        self.remove(&e.0);
    }
    fn cap(&mut self, _: u8, _: usize) {
        *self = std::mem::take(self).into_iter().rev().collect();
    }
}
/// `fin`: the final members, `extra`: members to put in and out again.
fn histories<E: Clone, C: Coll<E>>(s: &mut Src, fin: &[E], extra: &[E], want: &[u8], kind: &str, copies: usize) -> R {
    let mut first: Option<C> = None;
    for n in 0..copies {
        let mut c = C::default();
        let mut plan: Vec<(bool, &E)> = fin.iter().map(|e| (true, e)).collect();
        plan.extend(extra.iter().map(|e| (false, e)));
        if n > 0 {
            shuffle(s, &mut plan);
        }
        let how = s.u8();
        c.cap(how, s.below(300));
        let mut pending: Vec<&E> = Vec::new();
        let mut count = 0u8;
        for (keep, e) in &plan {
            c.put((*e).clone());
            if !keep {
                pending.push(e);
            }
            count = count.wrapping_add(1);
            if count % 7 == 3 {
                if let Some(e) = pending.pop() {
                    c.del(e);
                }
            }
            if count % 16 == how % 16 {
                c.cap(how.wrapping_add(count), 100);
            }
        }
        for e in pending {
            c.del(e);
        }
        if how & 0x80 != 0 {
            c.cap(how, 1000);
        }
        same(&c, n, want, "after its history", kind)?;
        same(&c.clone(), n + 1, want, "cloned", kind)?;
        if let Some(f) = &first {
            if *f != c {
                return Err(Fail::new("machinery", "the histories differ"));
            }
        } else {
            first = Some(c);
        }
    }
    Ok(())
}
/// Splits generated elements in those to keep and those to take out again.
fn members<K: Key>(s: &mut Src, ctx: &mut Ctx) -> (Vec<K>, Vec<K>) {
    let n = size(s, ctx.tier_thorough);
    let z = *s.pick(&[2, 4, 4, 9]);
    let all: BTreeSet<K> = (0..n).map(|_| K::gen(s, z)).collect();
    let all: Vec<K> = all.into_iter().collect();
    let out = s.below(all.len() / 2 + 1);
    let mut all = all;
    shuffle(s, &mut all);
    let extra = all.split_off(all.len() - out);
    (all, extra)
}
fn note(ctx: &mut Ctx, want: &[u8], n: usize, extra: usize, sorted: bool, kind: &str) {
    ctx.desc(|| format!("{kind} of {n} and {extra} taken out: {}", engine::hexs(want)));
    ctx.label_if(n > 20, "more than 20 members");
    ctx.label_if(extra > 0, "members taken out");
    ctx.label_if(!sorted, "key order is not the order of the encodings");
    if n > 1 {
        ctx.nontrivial(kind.as_bytes());
        ctx.nontrivial(want);
    }
}
fn sets<K: Key>(s: &mut Src, ctx: &mut Ctx) -> R {
    let (fin, extra) = members::<K>(s, ctx);
    let mut enc: Vec<Vec<u8>> = fin.iter().map(|k| k.model().der()).collect();
    enc.sort();
    let want = model::tlv(&[0x31], &enc.concat());
    let mut ord = fin.clone();
    ord.sort();
    let ord: Vec<Vec<u8>> = ord.iter().map(|k| k.model().der()).collect();
    note(ctx, &want, fin.len(), extra.len(), ord == enc, &format!("set of {}", K::name()));
    let copies = if fin.len() < 20 { 4 } else { 2 };
    let kind = format!("HashSet<{}>", K::name());
    histories::<K, HashSet<K>>(s, &fin, &extra, &want, &kind, copies)?;
    let kind = format!("BTreeSet<{}>", K::name());
    let bt = model::tlv(&[0x30], &ord.concat());
    histories::<K, BTreeSet<K>>(s, &fin, &extra, &bt, &kind, 2)?;
    // inside other containers
    let h: HashSet<K> = fin.iter().cloned().collect();
    let v = vec![h.clone(), fin.iter().rev().cloned().collect()];
    same(&v, 0, &model::tlv(&[0x30], &[&want[..], &want].concat()), "in a vector", &kind)?;
    let o = Outer { inner: h, list: vec![], skipped: () };
    same(&o, 0, &o.model().der(), "in a derived type", &kind)
}
fn maps<K: Key, V: Gen>(s: &mut Src, ctx: &mut Ctx) -> R {
    let (fin, extra) = members::<K>(s, ctx);
    let constant = s.chance(60).then(|| V::gen(s, 2));
    let mut with = |ks: Vec<K>| -> Vec<(K, V)> {
        ks.into_iter()
            .map(|k| {
                let v = constant.clone().unwrap_or_else(|| V::gen(s, 3));
                (k, v)
            })
            .collect()
    };
    let (fin, extra) = (with(fin), with(extra));
    let pair = |e: &(K, V)| model::tlv(&[0x30], &[e.0.model().der(), e.1.model().der()].concat());
    let mut enc: Vec<Vec<u8>> = fin.iter().map(pair).collect();
    enc.sort();
    let want = model::tlv(&[0x31], &enc.concat());
    let mut ord = fin.clone();
    ord.sort_by(|a, b| a.0.cmp(&b.0));
    let ord: Vec<Vec<u8>> = ord.iter().map(pair).collect();
    note(ctx, &want, fin.len(), extra.len(), ord == enc, &format!("map of {} to {}", K::name(), V::name()));
    let copies = if fin.len() < 20 { 4 } else { 2 };
    let kind = format!("HashMap<{},{}>", K::name(), V::name());
    histories::<(K, V), HashMap<K, V>>(s, &fin, &extra, &want, &kind, copies)?;
    let kind = format!("BTreeMap<{},{}>", K::name(), V::name());
    let bt = model::tlv(&[0x30], &ord.concat());
    histories::<(K, V), BTreeMap<K, V>>(s, &fin, &extra, &bt, &kind, 2)?;
    let h: HashMap<K, V> = fin.iter().cloned().collect();
    let v = vec![h.clone(), fin.iter().rev().cloned().collect()];
    same(&v, 0, &model::tlv(&[0x30], &[&want[..], &want].concat()), "in a vector", &kind)
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.below(29) {
        0 => sets::<i64>(s, ctx),
        1 => sets::<u8>(s, ctx),
        2 => sets::<String>(s, ctx),
        3 => sets::<Oct>(s, ctx),
        4 => sets::<Vec<i16>>(s, ctx),
        5 => sets::<Ch>(s, ctx),
        6 => sets::<BTreeSet<u8>>(s, ctx),
        7 => sets::<Rec>(s, ctx),
        8 => sets::<NoLen<String, 0>>(s, ctx),
        9 => sets::<NoLen<i32, 2>>(s, ctx),
        10 => sets::<Alias>(s, ctx),
        11 => sets::<i128>(s, ctx),
        12 => sets::<Tup>(s, ctx),
        13 => sets::<bool>(s, ctx),
        14 => maps::<i32, String>(s, ctx),
        15 => maps::<String, u8>(s, ctx),
        16 => maps::<u128, HashSet<i32>>(s, ctx),
        17 => maps::<Oct, HashMap<u8, Oct>>(s, ctx),
        18 => maps::<Vec<u8>, bool>(s, ctx),
        19 => maps::<Ch, Ch>(s, ctx),
        20 => maps::<NoLen<u16, 0>, NoLen<String, 2>>(s, ctx),
        21 => maps::<Alias, i16>(s, ctx),
        22 => maps::<Alias, Alias>(s, ctx),
        23 => maps::<i8, NoLen<Vec<u8>, 1>>(s, ctx),
        24 => maps::<Rec, Vec<Tup>>(s, ctx),
        25 => maps::<BTreeMap<u8, i8>, Oct>(s, ctx),
        26 => sets::<Twin>(s, ctx),
        27 => maps::<Twin, u8>(s, ctx),
        _ => maps::<Twin, Twin>(s, ctx),
    }
}
fn main() {
    engine::main(Property {
        id: "P17",
        rule: "the final set or map has at least two members; distinct by type and octets",
        case,
        fixed: engine::no_fixed,
        quick: 60_000,
        thorough: 1_500_000,
    })
}
