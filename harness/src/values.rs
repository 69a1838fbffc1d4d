//! Typed values: generators, reference encoding and reference decoding.
use crate::engine::Src;
use crate::derived::{Ch, Conv, Gap, Outer, Rec, Thin, Tup, Via};
use crate::gen;
use crate::model::{self, split, Int, Tlv, Val};
use bsn1::{ContentsRef, Error, IdRef, Length};
use bsn1_serde::{de::Deserialize, ser::Serialize, OctetString};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;

/// What the reference decoder says.
#[derive(Debug, Clone, PartialEq)]
pub enum Dec<T> {
    Val(T),
    Reject,
    /// Accepting with this value and refusing are both fine (order of a SET OF in DER).
    Maybe(T),
    /// Neither acceptance nor the value is specified (repeated keys or elements).
    Open,
    /// A constructed string: what X.690 gives (`None`: no value) and the raw contents.
    Segments(Option<T>, Option<T>),
}
impl<T> Dec<T> {
    pub fn map<U>(self, f: impl Fn(T) -> U) -> Dec<U> {
        match self {
            Dec::Val(t) => Dec::Val(f(t)),
            Dec::Reject => Dec::Reject,
            Dec::Maybe(t) => Dec::Maybe(f(t)),
            Dec::Open => Dec::Open,
            Dec::Segments(a, b) => Dec::Segments(a.map(&f), b.map(&f)),
        }
    }
    /// As `map`, for a conversion which may fail; constructed strings are left open.
    pub fn convert<U>(self, f: impl Fn(T) -> Option<U>) -> Dec<U> {
        match self {
            Dec::Val(t) => f(t).map_or(Dec::Reject, Dec::Val),
            Dec::Maybe(t) => f(t).map_or(Dec::Reject, Dec::Maybe),
            Dec::Reject => Dec::Reject,
            Dec::Open | Dec::Segments(..) => Dec::Open,
        }
    }
}

/// Number of the member `i` of `m`, counted in the order of the octets.
fn rank(m: &Val, i: usize) -> usize {
    match m {
        Val::SetOf { items, .. } => {
            let own = items[i].der();
            items.iter().enumerate().filter(|(j, x)| (x.der(), *j) < (own.clone(), i)).count()
        }
        _ => i,
    }
}
pub fn member(m: &Val, i: usize) -> &Val {
    match m {
        Val::Cons { items, .. } | Val::SetOf { items, .. } => &items[i],
        Val::Prim { .. } => m,
    }
}
fn locate_element<T: Gen>(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
    if let [i, rest @ ..] = path {
        out.push(vec![rank(m, *i).to_string()]);
        T::locate(member(m, *i), rest, read, out);
    }
}
fn locate_pair<K: Gen, V: Gen>(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
    let Some(&i) = path.first() else { return };
    let n = rank(m, i).to_string();
    let pair = member(m, i);
    match path[1..] {
        [] => out.push(vec![n, "pair".into()]),
        [0, ref rest @ ..] => {
            out.push(vec![n, "key".into()]);
            K::locate(member(pair, 0), rest, read, out);
        }
        [_, ref rest @ ..] => {
            out.push(vec![n, "value".into()]);
            V::locate(member(pair, 1), rest, read, out);
        }
    }
}
pub trait Gen: Sized + Serialize + Deserialize + PartialEq + Debug + Clone + 'static {
    fn name() -> String;
    fn gen(s: &mut Src, size: usize) -> Self;
    fn model(&self) -> Val;
    fn read(t: Tlv, der: bool) -> Dec<Self>;
    /// A value in the form the decoder takes, where that is not the form the encoder gives.
    fn wire(s: &mut Src, size: usize) -> Val {
        Self::gen(s, size).model()
    }
    /// Where the part at `path` in `m` lies: from outside in, the words by which each enclosing
    /// list, map or structure tells it. `read` says whether the part itself could be parsed.
    fn locate(_m: &Val, _path: &[usize], _read: bool, _out: &mut Vec<Vec<String>>) {}
    /// Whether the type has a constructed encoding (so an indefinite length is allowed in BER).
    const CONSTRUCTED: bool;
}

impl Gen for bool {
    const CONSTRUCTED: bool = false;
    fn name() -> String {
        "bool".into()
    }
    fn gen(s: &mut Src, _: usize) -> Self {
        s.flag()
    }
    fn model(&self) -> Val {
        Val::prim(0x01, &[if *self { 0xff } else { 0 }])
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [1] || !t.definite || t.contents.len() != 1 {
            return Dec::Reject;
        }
        match (t.contents[0], der) {
            (0, _) => Dec::Val(false),
            (0xff, _) | (_, false) => Dec::Val(true),
            _ => Dec::Reject,
        }
    }
}

/// Integers as sign and pattern.
pub trait Integer: Sized + Copy + PartialEq + Debug {
    const BITS: u32;
    const SIGNED: bool;
    fn split(self) -> (bool, u128);
    fn join(neg: bool, low: u128) -> Self;
}
/// An integer near the boundaries which matter for the encoding, or any other.
pub fn gen_int<T: Integer>(s: &mut Src) -> T {
    let raw: u128 = match s.weighted(&[4, 6, 4, 3]) {
        0 => s.u8() as u128,
        1 => {
            let p = 1u128 << s.below(T::BITS as usize);
            p.wrapping_add(s.below(5) as u128).wrapping_sub(2)
        }
        2 => {
            let p = 1u128 << s.below(T::BITS as usize);
            p.wrapping_add(s.below(5) as u128).wrapping_sub(2).wrapping_neg()
        }
        _ => {
            let v = s.u128() >> s.below(128);
            if s.flag() {
                v.wrapping_neg()
            } else {
                v
            }
        }
    };
    // Cut to the width of the type.
    let raw = if T::BITS == 128 {
        raw
    } else {
        let low = raw & ((1u128 << T::BITS) - 1);
        if T::SIGNED && low >> (T::BITS - 1) == 1 {
            low | !((1u128 << T::BITS) - 1)
        } else {
            low
        }
    };
    T::join(T::SIGNED && (raw as i128) < 0, raw)
}
macro_rules! integers {
    ($($t:ty, $signed:expr;)*) => { $(
        impl Integer for $t {
            const BITS: u32 = <$t>::BITS;
            const SIGNED: bool = $signed;
            #[allow(unused_comparisons)]
            fn split(self) -> (bool, u128) { (self < 0, self as u128) }
            fn join(_neg: bool, low: u128) -> Self { low as $t }
        }
        impl Gen for $t {
            const CONSTRUCTED: bool = false;
            fn name() -> String { stringify!($t).into() }
            fn gen(s: &mut Src, _: usize) -> Self { gen_int(s) }
            fn model(&self) -> Val {
                let (n, l) = self.split();
                Val::prim(0x02, &model::encode_int(n, l))
            }
            fn read(t: Tlv, _: bool) -> Dec<Self> {
                if t.id != [2] || !t.definite { return Dec::Reject; }
                match model::decode_int(t.contents) {
                    Int::Val(n, l) if model::int_fits(n, l, <$t as Integer>::BITS, $signed) => Dec::Val(Self::join(n, l)),
                    _ => Dec::Reject,
                }
            }
        }
    )* };
}
integers! {
    i8, true; u8, false; i16, true; u16, false; i32, true; u32, false;
    i64, true; u64, false; i128, true; u128, false; isize, true; usize, false;
}

/// How long a string is.
fn length(s: &mut Src) -> usize {
    let big = s.chance(2);
    if big && s.chance(2) {
        return gen::huge(s);
    }
    gen::size(s, big)
}
fn text(s: &mut Src) -> String {
    let n = length(s);
    let mut o = String::new();
    for i in 0..n {
        if i > 40 {
            o.push((b'a' + (i % 26) as u8) as char);
            continue;
        }
        o.push(match s.weighted(&[10, 2, 2, 1, 1]) {
            0 => (b'a' + s.below(26) as u8) as char,
            1 => *s.pick(&['\u{80}', '\u{7ff}', 'é', '\0']),
            2 => *s.pick(&['\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '日']),
            3 => *s.pick(&['\u{10000}', '\u{10ffff}', '𝛑']),
            _ => char::from_u32(s.below(0xd800) as u32).unwrap(),
        });
    }
    o
}
/// Concatenates the segments of a constructed string.
fn segments(c: &[u8]) -> Option<Vec<u8>> {
    let mut b = c;
    let mut o = Vec::new();
    while !b.is_empty() {
        let t = split(&mut b, false)?;
        match (t.id, t.definite) {
            ([0x04], true) => o.extend_from_slice(t.contents),
            ([0x24], _) => o.extend(segments(t.contents)?),
            _ => return None,
        }
    }
    Some(o)
}
impl Gen for String {
    const CONSTRUCTED: bool = false;
    fn name() -> String {
        "String".into()
    }
    fn gen(s: &mut Src, _: usize) -> Self {
        text(s)
    }
    fn model(&self) -> Val {
        Val::prim(0x0c, self.as_bytes())
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        let utf8 = |b: &[u8]| std::str::from_utf8(b).ok().map(String::from);
        match (t.id, t.definite, der) {
            ([0x0c], true, _) => utf8(t.contents).map_or(Dec::Reject, Dec::Val),
            ([0x2c], true, false) => Dec::Segments(segments(t.contents).and_then(|v| utf8(&v)), utf8(t.contents)),
            _ => Dec::Reject,
        }
    }
}
impl Gen for OctetString<'static> {
    const CONSTRUCTED: bool = false;
    fn name() -> String {
        "OctetString".into()
    }
    fn gen(s: &mut Src, _: usize) -> Self {
        let n = length(s);
        OctetString::from(gen::octets_of(s, n))
    }
    fn model(&self) -> Val {
        Val::prim(0x04, self.as_ref())
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        match (t.id, t.definite, der) {
            ([0x04], true, _) => Dec::Val(t.contents.to_vec().into()),
            ([0x24], true, false) => Dec::Segments(segments(t.contents).map(|v| v.into()), Some(t.contents.to_vec().into())),
            _ => Dec::Reject,
        }
    }
}

fn count(s: &mut Src, size: usize) -> usize {
    match s.weighted(&[8, 2]) {
        0 => s.below(size.min(4) + 1),
        // as many as a counter of one octet cannot hold
        _ if size >= 4 && s.chance(8) && !gen::SLOW => s.range(200, 320),
        _ => s.below(size + 1),
    }
}
/// Reads all elements of `c`; combines what is said about each.
fn read_all<T>(c: &[u8], der: bool, read: impl Fn(Tlv, bool) -> Dec<T>) -> Dec<Vec<T>> {
    let mut b = c;
    let mut o = Vec::new();
    let mut maybe = false;
    let mut odd = false;
    while !b.is_empty() {
        let Some(t) = split(&mut b, der) else { return Dec::Reject };
        match read(t, der) {
            Dec::Val(v) => o.push(v),
            Dec::Maybe(v) => {
                maybe = true;
                o.push(v)
            }
            Dec::Reject => return Dec::Reject,
            // unspecified only if the rest is not refused anyway
            Dec::Open | Dec::Segments(..) => odd = true,
        }
    }
    if odd {
        Dec::Open
    } else if maybe {
        Dec::Maybe(o)
    } else {
        Dec::Val(o)
    }
}
fn rest(size: usize) -> usize {
    size * 2 / 3
}
/// A vector with room to spare, or not.
fn plain<T>(s: &mut Src, mut v: Vec<T>) -> Vec<T> {
    if s.chance(40) {
        v.reserve(1 + s.below(9));
    }
    v
}
/// A deque whose elements may lie in two parts, as after `push_front`.
fn ring<T>(s: &mut Src, v: Vec<T>) -> VecDeque<T> {
    let front = if s.flag() { s.below(v.len() + 1) } else { 0 };
    let mut d = VecDeque::new();
    let mut head = Vec::new();
    for (i, t) in v.into_iter().enumerate() {
        if i < front {
            head.push(t)
        } else {
            d.push_back(t)
        }
    }
    while let Some(t) = head.pop() {
        d.push_front(t)
    }
    d
}
fn linked<T>(_: &mut Src, v: Vec<T>) -> LinkedList<T> {
    v.into_iter().collect()
}
macro_rules! lists {
    ($($c:ident by $by:ident),*) => { $(
        impl<T: Gen> Gen for $c<T> {
            const CONSTRUCTED: bool = true;
            fn name() -> String { format!("{}<{}>", stringify!($c), T::name()) }
            fn gen(s: &mut Src, size: usize) -> Self {
                let n = count(s, size);
                let v = (0..n).map(|_| T::gen(s, rest(size))).collect();
                $by(s, v)
            }
            fn model(&self) -> Val { Val::seq(self.iter().map(|t| t.model()).collect()) }
            fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
                locate_element::<T>(m, path, read, out)
            }
            fn read(t: Tlv, der: bool) -> Dec<Self> {
                if t.id != [0x30] || (der && !t.definite) { return Dec::Reject; }
                read_all(t.contents, der, T::read).map(|v| v.into_iter().collect())
            }
        }
    )* };
}
lists!(Vec by plain, LinkedList by linked, VecDeque by ring);

fn distinct<T: PartialEq>(v: &[T]) -> bool {
    v.iter().enumerate().all(|(i, a)| v[..i].iter().all(|b| a != b))
}
fn or_open<T, U>(d: Dec<Vec<T>>, ok: impl Fn(&[T]) -> bool, f: impl Fn(Vec<T>) -> U) -> Dec<U> {
    match d {
        Dec::Val(v) | Dec::Maybe(v) if !ok(&v) => {
            drop(v);
            Dec::Open
        }
        d => d.map(f),
    }
}
/// In DER the elements of a SET OF are in ascending order; whether others are refused is open.
fn sorted_elements(c: &[u8]) -> bool {
    let mut b = c;
    let mut last: Option<&[u8]> = None;
    while !b.is_empty() {
        let before = b;
        if split(&mut b, true).is_none() {
            return true;
        }
        let e = &before[..before.len() - b.len()];
        if last.is_some_and(|l| l > e) {
            return false;
        }
        last = Some(e);
    }
    true
}
fn weaken<T>(d: Dec<T>, weak: bool) -> Dec<T> {
    match d {
        Dec::Val(t) if weak => Dec::Maybe(t),
        d => d,
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        format!("BTreeSet<{}>", T::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        let n = count(s, size);
        (0..n).map(|_| T::gen(s, rest(size))).collect()
    }
    fn model(&self) -> Val {
        Val::seq(self.iter().map(|t| t.model()).collect())
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate_element::<T>(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x30] || (der && !t.definite) {
            return Dec::Reject;
        }
        or_open(read_all(t.contents, der, T::read), distinct, |v| v.into_iter().collect())
    }
}
impl<T: Gen + Eq + Hash> Gen for HashSet<T> {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        format!("HashSet<{}>", T::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        let n = count(s, size);
        (0..n).map(|_| T::gen(s, rest(size))).collect()
    }
    fn model(&self) -> Val {
        Val::set(self.iter().map(|t| t.model()).collect())
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate_element::<T>(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x31] || (der && !t.definite) {
            return Dec::Reject;
        }
        let d = or_open(read_all(t.contents, der, T::read), distinct, |v| v.into_iter().collect());
        weaken(d, der && !sorted_elements(t.contents))
    }
}
fn read_pair<K: Gen, V: Gen>(t: Tlv, der: bool) -> Dec<(K, V)> {
    if t.id != [0x30] || (der && !t.definite) {
        return Dec::Reject;
    }
    let mut b = t.contents;
    let (Some(k), Some(v)) = (split(&mut b, der), split(&mut b, der)) else { return Dec::Reject };
    if !b.is_empty() {
        return Dec::Reject;
    }
    match (K::read(k, der), V::read(v, der)) {
        (Dec::Reject, _) | (_, Dec::Reject) => Dec::Reject,
        (Dec::Val(k), Dec::Val(v)) => Dec::Val((k, v)),
        (Dec::Val(k) | Dec::Maybe(k), Dec::Val(v) | Dec::Maybe(v)) => Dec::Maybe((k, v)),
        _ => Dec::Open,
    }
}
fn distinct_keys<K: PartialEq, V>(v: &[(K, V)]) -> bool {
    v.iter().enumerate().all(|(i, a)| v[..i].iter().all(|b| a.0 != b.0))
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        format!("BTreeMap<{},{}>", K::name(), V::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        let n = count(s, size);
        (0..n).map(|_| (K::gen(s, rest(size)), V::gen(s, rest(size)))).collect()
    }
    fn model(&self) -> Val {
        Val::seq(self.iter().map(|(k, v)| Val::seq(vec![k.model(), v.model()])).collect())
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate_pair::<K, V>(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x30] || (der && !t.definite) {
            return Dec::Reject;
        }
        or_open(read_all(t.contents, der, read_pair::<K, V>), distinct_keys, |v| v.into_iter().collect())
    }
}
impl<K: Gen + Eq + Hash, V: Gen> Gen for HashMap<K, V> {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        format!("HashMap<{},{}>", K::name(), V::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        let n = count(s, size);
        (0..n).map(|_| (K::gen(s, rest(size)), V::gen(s, rest(size)))).collect()
    }
    fn model(&self) -> Val {
        Val::set(self.iter().map(|(k, v)| Val::seq(vec![k.model(), v.model()])).collect())
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate_pair::<K, V>(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x31] || (der && !t.definite) {
            return Dec::Reject;
        }
        let d = or_open(read_all(t.contents, der, read_pair::<K, V>), distinct_keys, |v| v.into_iter().collect());
        weaken(d, der && !sorted_elements(t.contents))
    }
}

/// Announces no sizes: 0 neither, 1 no identifier size, 2 no contents size, 3 as the value has it.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct NoLen<T, const MODE: u8>(pub T);
impl<T: Serialize, const MODE: u8> NoLen<T, MODE> {
    fn mood(&self) -> Result<u8, Error> {
        let mut v = Vec::new();
        self.0.write_der_contents(&mut v)?;
        Ok(v.iter().fold(v.len() as u8, |a, b| a.wrapping_mul(3) ^ b))
    }
}
impl<T: Serialize, const MODE: u8> Serialize for NoLen<T, MODE> {
    fn write_id<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        self.0.write_id(w)
    }
    fn write_der_contents<W: ?Sized + std::io::Write>(&self, w: &mut W) -> Result<(), Error> {
        self.0.write_der_contents(w)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        if MODE == 2 || MODE == 3 && self.mood()? & 1 == 0 {
            self.0.id_len()
        } else {
            Ok(None)
        }
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        if MODE == 1 || MODE == 3 && self.mood()? & 2 == 0 {
            self.0.der_contents_len()
        } else {
            Ok(None)
        }
    }
}
impl<T: Deserialize, const MODE: u8> Deserialize for NoLen<T, MODE> {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        T::from_ber(id, length, contents).map(NoLen)
    }
    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        T::from_der(id, contents).map(NoLen)
    }
}
impl<T: Gen, const MODE: u8> Gen for NoLen<T, MODE> {
    const CONSTRUCTED: bool = T::CONSTRUCTED;
    fn name() -> String {
        format!("NoLen{}<{}>", MODE, T::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        NoLen(T::gen(s, size))
    }
    fn model(&self) -> Val {
        self.0.model()
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        T::locate(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        T::read(t, der).map(NoLen)
    }
}

pub trait Visitor {
    type Out;
    fn visit<T: Gen>(&mut self) -> Self::Out;
}
pub type Oct = OctetString<'static>;
macro_rules! table {
    ($($i:expr => $t:ty),* $(,)?) => {
        pub fn with_type<V: Visitor>(index: usize, v: &mut V) -> V::Out {
            match index {
                $( $i => v.visit::<$t>(), )*
                _ => v.visit::<bool>(),
            }
        }
        pub const ALL_TYPES: usize = [$($i),*].len();
    };
}
table! {
    0 => bool, 1 => i8, 2 => u8, 3 => i16, 4 => u16, 5 => i32, 6 => u32, 7 => i64, 8 => u64,
    9 => i128, 10 => u128, 11 => isize, 12 => usize, 13 => String, 14 => Oct,
    15 => Vec<bool>, 16 => Vec<i64>, 17 => Vec<String>, 18 => Vec<u8>, 19 => Vec<Oct>,
    20 => LinkedList<i32>, 21 => LinkedList<String>, 22 => VecDeque<u128>, 23 => VecDeque<Oct>,
    24 => BTreeSet<i16>, 25 => BTreeSet<String>, 26 => HashSet<i32>, 27 => HashSet<String>,
    28 => BTreeMap<i32, String>, 29 => BTreeMap<String, bool>, 30 => HashMap<u16, Oct>, 31 => HashMap<String, i128>,
    32 => Vec<Vec<i32>>, 33 => Vec<LinkedList<String>>, 34 => LinkedList<VecDeque<bool>>,
    35 => VecDeque<BTreeSet<u64>>, 36 => BTreeSet<Vec<u8>>, 37 => HashSet<Vec<i8>>, 38 => HashSet<BTreeSet<u8>>,
    39 => BTreeMap<Vec<u8>, HashSet<bool>>, 40 => HashMap<Vec<i16>, BTreeMap<u8, Oct>>,
    41 => HashMap<i32, HashMap<i32, HashSet<i32>>>, 42 => BTreeMap<BTreeSet<u8>, Vec<Vec<bool>>>,
    43 => Vec<HashMap<String, Vec<u32>>>, 44 => VecDeque<HashMap<bool, LinkedList<isize>>>,
    45 => Vec<Vec<Vec<Vec<u8>>>>, 46 => Vec<BTreeMap<i64, BTreeMap<i64, usize>>>,
    47 => LinkedList<HashSet<String>>, 48 => BTreeMap<Oct, Oct>, 49 => HashSet<Oct>,
    50 => Vec<NoLen<i32, 0>>, 51 => Vec<NoLen<String, 1>>, 52 => VecDeque<NoLen<Vec<u8>, 2>>,
    53 => HashMap<NoLen<i32, 0>, String>, 54 => HashMap<i32, NoLen<String, 0>>, 55 => BTreeMap<NoLen<u8, 1>, NoLen<u8, 2>>,
    56 => BTreeMap<i8, NoLen<Vec<i32>, 2>>, 57 => BTreeMap<NoLen<String, 2>, bool>, 58 => HashSet<NoLen<i64, 2>>,
    59 => BTreeSet<NoLen<String, 0>>, 60 => LinkedList<NoLen<HashMap<u8, u8>, 1>>, 61 => NoLen<String, 0>,
    62 => NoLen<Vec<String>, 2>, 63 => NoLen<HashMap<NoLen<u8, 0>, NoLen<Oct, 1>>, 1>,
    64 => Vec<NoLen<i16, 3>>, 65 => LinkedList<NoLen<u8, 3>>, 66 => VecDeque<NoLen<i16, 3>>, 67 => BTreeSet<NoLen<i16, 3>>,
    68 => HashSet<NoLen<String, 3>>, 69 => BTreeMap<NoLen<i16, 3>, NoLen<u8, 3>>, 70 => HashMap<NoLen<i16, 3>, NoLen<u8, 3>>,
    71 => Vec<BTreeMap<u8, NoLen<u8, 3>>>,
    // with derived types
    72 => Rec, 73 => Tup, 74 => Ch, 75 => Outer<i16>, 76 => Vec<Ch>, 77 => HashMap<Tup, Vec<Rec>>, 78 => Outer<Outer<HashSet<Ch>>>,
    79 => BTreeMap<Rec, Outer<Tup>>, 80 => NoLen<Outer<NoLen<Rec, 0>>, 2>, 81 => Vec<Outer<NoLen<i16, 3>>>,
    82 => Conv, 83 => Thin<Conv>, 84 => HashMap<Conv, Vec<Conv>>, 85 => BTreeMap<Thin<Rec>, Thin<Tup>>, 86 => Outer<Thin<Conv>>,
    87 => Gap, 88 => Vec<Gap>, 89 => HashSet<Outer<Gap>>,
    90 => Via, 91 => Outer<Via>, 92 => HashMap<Via, Vec<Via>>, 93 => Thin<Via>,
}
/// Types 0..TYPES are built-in ones.
pub const TYPES: usize = 72;
/// Types 0..SCALARS are primitive.
pub const SCALARS: usize = 15;
pub fn pick_type(s: &mut Src) -> usize {
    s.below(TYPES)
}
pub fn pick_any(s: &mut Src) -> usize {
    s.below(ALL_TYPES)
}
