//! A few derived types, as members of nested values.
use crate::engine::Src;
use crate::model::{split, Tlv, Val};
use crate::values::{member, Dec, Gen, Oct};
use bsn1_serde::{Deserialize, Serialize};
use std::collections::LinkedList;

/// Combines what is said about the fields of a struct.
macro_rules! fields {
    ($t:expr, $der:expr, $make:expr; $($v:ident: $ty:ty),*) => {{
        let mut b = $t.contents;
        let mut open = false;
        let mut maybe = false;
        $(
            let $v: Option<$ty> = match split(&mut b, $der) {
                None => return Dec::Reject,
                Some(t) => match <$ty as Gen>::read(t, $der) {
                    Dec::Val(v) => Some(v),
                    Dec::Maybe(v) => { maybe = true; Some(v) }
                    Dec::Reject => return Dec::Reject,
                    Dec::Open | Dec::Segments(..) => { open = true; None }
                },
            };
        )*
        if !b.is_empty() {
            return Dec::Reject;
        }
        if open {
            return Dec::Open;
        }
        let v = $make($($v.unwrap()),*);
        if maybe { Dec::Maybe(v) } else { Dec::Val(v) }
    }};
}

/// `Gen::locate` for types made of fields.
macro_rules! locate {
    ($m:expr, $path:expr, $read:expr, $out:expr; $($n:expr => [$($w:expr),*] $ty:ty),*) => {
        match $path.first() {
            $( Some($n) => {
                $out.push(vec![$($w.to_string()),*]);
                <$ty as Gen>::locate(member($m, $n), &$path[1..], $read, $out)
            } )*
            _ => {}
        }
    };
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Rec {
    pub a: i32,
    pub b: String,
    pub c: Vec<bool>,
}
impl Gen for Rec {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        "Rec".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        Rec { a: Gen::gen(s, size), b: Gen::gen(s, size), c: Gen::gen(s, size) }
    }
    fn model(&self) -> Val {
        Val::seq(vec![self.a.model(), self.b.model(), self.c.model()])
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate!(m, path, read, out; 0 => ["a"] i32, 1 => ["b"] String, 2 => ["c"] Vec<bool>)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x30] || (der && !t.definite) {
            return Dec::Reject;
        }
        fields!(t, der, |a, b, c| Rec { a, b, c }; a: i32, b: String, c: Vec<bool>)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[bsn1_serde(id = Set, tag_class = PRIVATE, tag_num = 1000)]
pub struct Tup(pub u8, pub Oct);
impl Gen for Tup {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        "Tup".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        Tup(Gen::gen(s, size), Gen::gen(s, size))
    }
    fn model(&self) -> Val {
        Val::Cons { id: vec![0xff, 0x87, 0x68], items: vec![self.0.model(), self.1.model()] }
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate!(m, path, read, out; 0 => ["0"] u8, 1 => ["1"] Oct)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0xff, 0x87, 0x68] || (der && !t.definite) {
            return Dec::Reject;
        }
        fields!(t, der, Tup; a: u8, b: Oct)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Ch {
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0)]
    Unit,
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 1)]
    One(i64),
    #[bsn1_serde(tag_class = APPLICATION, tag_num = 31)]
    Many { x: Vec<Rec>, y: bool },
}
impl Gen for Ch {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        "Ch".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        match s.below(3) {
            0 => Ch::Unit,
            1 => Ch::One(Gen::gen(s, size)),
            _ => Ch::Many { x: Gen::gen(s, size / 2), y: Gen::gen(s, size) },
        }
    }
    fn model(&self) -> Val {
        match self {
            Ch::Unit => Val::Cons { id: vec![0xa0], items: vec![] },
            Ch::One(n) => Val::Cons { id: vec![0xa1], items: vec![n.model()] },
            Ch::Many { x, y } => Val::Cons { id: vec![0x7f, 0x1f], items: vec![x.model(), y.model()] },
        }
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        match m.id() {
            [0xa1] => locate!(m, path, read, out; 0 => ["One", "0"] i64),
            [0x7f, 0x1f] => locate!(m, path, read, out; 0 => ["Many", "x"] Vec<Rec>, 1 => ["Many", "y"] bool),
            _ => {}
        }
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if der && !t.definite {
            return Dec::Reject;
        }
        match t.id {
            [0xa0] => {
                if t.contents.is_empty() {
                    Dec::Val(Ch::Unit)
                } else {
                    Dec::Reject
                }
            }
            [0xa1] => fields!(t, der, Ch::One; a: i64),
            [0x7f, 0x1f] => fields!(t, der, |x, y| Ch::Many { x, y }; x: Vec<Rec>, y: bool),
            _ => Dec::Reject,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Outer<T: Gen> {
    pub inner: T,
    pub list: Vec<Ch>,
    #[bsn1_serde(skip)]
    pub skipped: (),
}
impl<T: Gen> Gen for Outer<T> {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        format!("Outer<{}>", T::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        Outer { inner: Gen::gen(s, size), list: Gen::gen(s, size / 2), skipped: () }
    }
    fn model(&self) -> Val {
        Val::seq(vec![self.inner.model(), self.list.model()])
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate!(m, path, read, out; 0 => ["inner"] T, 1 => ["list"] Vec<Ch>)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x30] || (der && !t.definite) {
            return Dec::Reject;
        }
        fields!(t, der, |inner, list| Outer { inner, list, skipped: () }; inner: T, list: Vec<Ch>)
    }
}

/// A number up to 999, which is converted from and to `i64`.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Small(pub u16);
#[derive(Debug)]
pub struct TooBig;
impl std::fmt::Display for TooBig {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("too big")
    }
}
impl std::error::Error for TooBig {}
impl TryFrom<i64> for Small {
    type Error = bsn1::Error;
    fn try_from(n: i64) -> Result<Self, bsn1::Error> {
        match n {
            0..=999 => Ok(Small(n as u16)),
            ..0 => Err(bsn1::Error::OverFlow.context("inner layer").context("outer layer")),
            _ => Err(bsn1::Error::from(anyhow::Error::new(TooBig)).context("outer layer")),
        }
    }
}
impl From<Small> for i64 {
    fn from(v: Small) -> i64 {
        v.0.into()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[bsn1_serde(tag_class = APPLICATION, tag_num = 3)]
pub struct Conv {
    #[bsn1_serde(skip)]
    pub gone: u8,
    #[bsn1_serde(from = "i64", into = "i64")]
    pub first: i64,
    #[bsn1_serde(try_from = "i64", into = "i64")]
    pub small: Small,
    pub last: Thin<u8>,
}
impl Gen for Conv {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        "Conv".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        Conv { gone: 0, first: Gen::gen(s, size), small: Small(s.below(1000) as u16), last: Gen::gen(s, size) }
    }
    fn model(&self) -> Val {
        Val::Cons { id: vec![0x63], items: vec![self.first.model(), i64::from(self.small.0).model(), self.last.model()] }
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        locate!(m, path, read, out; 0 => ["first"] i64, 1 => ["small"] i64, 2 => ["last"] Thin<u8>)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if t.id != [0x63] || (der && !t.definite) {
            return Dec::Reject;
        }
        let made = fields_of(t, der);
        match made {
            Dec::Val((_, n, _)) | Dec::Maybe((_, n, _)) if Small::try_from(n).is_err() => Dec::Reject,
            d => d.map(|(first, n, last)| Conv { gone: 0, first, small: Small(n as u16), last }),
        }
    }
}
fn fields_of(t: Tlv, der: bool) -> Dec<(i64, i64, Thin<u8>)> {
    fields!(t, der, |a, b, c| (a, b, c); a: i64, b: i64, c: Thin<u8>)
}

/// Encodes as the list in it.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[bsn1_serde(transparent)]
pub struct Thin<T: Gen> {
    pub content: Vec<T>,
    #[bsn1_serde(skip)]
    pub mark: (),
}
impl<T: Gen> Gen for Thin<T> {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        format!("Thin<{}>", T::name())
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        Thin { content: Gen::gen(s, size), mark: () }
    }
    fn model(&self) -> Val {
        self.content.model()
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        if read || !path.is_empty() {
            out.push(vec!["content".into()]);
        }
        <Vec<T>>::locate(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        <Vec<T>>::read(t, der).map(|content| Thin { content, mark: () })
    }
}

/// Fields without names, some of them left out.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Gap {
    Filled(#[bsn1_serde(skip)] u8, Vec<bool>, #[bsn1_serde(skip)] u8, i32),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 5)]
    Tried(#[bsn1_serde(skip)] u8, #[bsn1_serde(from = "i64", into = "i64")] i64, String),
}
impl Gen for Gap {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        "Gap".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        if s.flag() {
            Gap::Filled(0, Gen::gen(s, size), 0, Gen::gen(s, size))
        } else {
            Gap::Tried(0, Gen::gen(s, size), Gen::gen(s, size))
        }
    }
    fn model(&self) -> Val {
        match self {
            Gap::Filled(_, a, _, b) => Val::seq(vec![a.model(), b.model()]),
            Gap::Tried(_, a, b) => Val::Cons { id: vec![0xe5], items: vec![a.model(), b.model()] },
        }
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        match m.id() {
            [0x30] => locate!(m, path, read, out; 0 => ["Filled", "1"] Vec<bool>, 1 => ["Filled", "3"] i32),
            _ => locate!(m, path, read, out; 0 => ["Tried", "1"] i64, 1 => ["Tried", "2"] String),
        }
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        if der && !t.definite {
            return Dec::Reject;
        }
        match t.id {
            [0x30] => fields!(t, der, |a, b| Gap::Filled(0, a, 0, b); a: Vec<bool>, b: i32),
            [0xe5] => fields!(t, der, |a, b| Gap::Tried(0, a, b); a: i64, b: String),
            _ => Dec::Reject,
        }
    }
}

/// At most 40 numbers, converted from a list as a whole.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[bsn1_serde(try_from = "Vec<i64>", into = "Vec<i64>")]
pub struct Via(pub LinkedList<i64>);
impl TryFrom<Vec<i64>> for Via {
    type Error = TooBig;
    fn try_from(v: Vec<i64>) -> Result<Self, TooBig> {
        if v.len() <= 40 {
            Ok(Via(v.into_iter().collect()))
        } else {
            Err(TooBig)
        }
    }
}
impl From<Via> for Vec<i64> {
    fn from(v: Via) -> Self {
        v.0.into_iter().collect()
    }
}
impl Gen for Via {
    const CONSTRUCTED: bool = true;
    fn name() -> String {
        "Via".into()
    }
    fn gen(s: &mut Src, size: usize) -> Self {
        let mut v: Vec<i64> = Gen::gen(s, size);
        v.truncate(40);
        Via(v.into_iter().collect())
    }
    fn model(&self) -> Val {
        self.0.model()
    }
    fn locate(m: &Val, path: &[usize], read: bool, out: &mut Vec<Vec<String>>) {
        if path.is_empty() {
            out.push(vec![AS_A_WHOLE.into()]);
        }
        <Vec<i64>>::locate(m, path, read, out)
    }
    fn read(t: Tlv, der: bool) -> Dec<Self> {
        match <Vec<i64>>::read(t, der) {
            Dec::Val(v) | Dec::Maybe(v) if v.len() > 40 => {
                drop(v);
                Dec::Reject
            }
            d => d.map(|v| Via(v.into_iter().collect())),
        }
    }
}
/// Told by `Via::locate`; no part of a message.
pub const AS_A_WHOLE: &str = "~";
