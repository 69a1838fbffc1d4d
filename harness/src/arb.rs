//! What generated programs with derived types are made of.
use crate::checks::{decoding, encoding, flawed};
use crate::engine::{self, Ctx, Src, R};
use crate::gen;
use crate::model::{split, Tlv, Val};
use crate::values::{Dec, Gen};
use std::fmt::Debug;

/// Types of fields, serializable or not.
pub trait Arb: Sized + Clone + PartialEq + Debug + 'static {
    fn arb(s: &mut Src, size: usize) -> Self;
}
impl<T: Gen> Arb for T {
    fn arb(s: &mut Src, size: usize) -> Self {
        T::gen(s, size)
    }
}
impl Arb for char {
    fn arb(s: &mut Src, _: usize) -> Self {
        let n = u32::gen(s, 0);
        char::from_u32(n).or(char::from_u32(n & 0xffff)).unwrap_or('x')
    }
}
impl Arb for std::net::Ipv4Addr {
    fn arb(s: &mut Src, _: usize) -> Self {
        u32::gen(s, 0).into()
    }
}
impl Arb for std::num::NonZeroU8 {
    fn arb(s: &mut Src, _: usize) -> Self {
        std::num::NonZeroU8::new(s.u8()).unwrap_or(std::num::NonZeroU8::MAX)
    }
}
impl Arb for Box<str> {
    fn arb(s: &mut Src, size: usize) -> Self {
        String::gen(s, size).into()
    }
}
impl Arb for f64 {
    fn arb(s: &mut Src, _: usize) -> Self {
        i32::gen(s, 0) as f64 / 8.0
    }
}
impl Arb for () {
    fn arb(_: &mut Src, _: usize) -> Self {}
}
impl<T: Arb> Arb for Option<T> {
    fn arb(s: &mut Src, size: usize) -> Self {
        if s.flag() {
            Some(T::arb(s, size))
        } else {
            None
        }
    }
}
impl<T: 'static + ?Sized> Arb for std::marker::PhantomData<T> {
    fn arb(_: &mut Src, _: usize) -> Self {
        std::marker::PhantomData
    }
}

/// Reads the fields of one value and combines what is said about each.
pub struct Fields<'a> {
    rest: &'a [u8],
    der: bool,
    refuse: bool,
    open: bool,
    maybe: bool,
}
impl<'a> Fields<'a> {
    pub fn new(t: Tlv<'a>, der: bool) -> Self {
        Fields {
            rest: t.contents,
            der,
            refuse: der && !t.definite,
            // an indefinite length of a primitive value
            open: !t.definite && t.id[0] & 0x20 == 0,
            maybe: false,
        }
    }
    pub fn take<T: Gen>(&mut self) -> Option<T> {
        self.conv::<T, T>(Some)
    }
    /// The next value, read as `W` and converted.
    pub fn conv<W: Gen, T>(&mut self, f: impl Fn(W) -> Option<T>) -> Option<T> {
        if self.refuse {
            return None;
        }
        let Some(t) = split(&mut self.rest, self.der) else {
            self.refuse = true;
            return None;
        };
        match W::read(t, self.der).convert(f) {
            Dec::Val(v) => Some(v),
            Dec::Maybe(v) => {
                self.maybe = true;
                Some(v)
            }
            Dec::Reject => {
                self.refuse = true;
                None
            }
            Dec::Open | Dec::Segments(..) => {
                self.open = true;
                None
            }
        }
    }
    pub fn finish<T>(self, make: impl FnOnce() -> T) -> Dec<T> {
        if self.refuse || !self.rest.is_empty() {
            Dec::Reject
        } else if self.open {
            Dec::Open
        } else if self.maybe {
            Dec::Maybe(make())
        } else {
            Dec::Val(make())
        }
    }
}

fn size(s: &mut Src) -> usize {
    *s.pick(&[3, 3, 4, 4, 8])
}
/// The encoding of a value, its forms in BER, and what decoding them gives.
pub fn layout<T: Gen>(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = size(s);
    let v = T::gen(s, n);
    let m = v.model();
    let want = m.der();
    ctx.desc(|| format!("{v:?} {} as {}", engine::hexs(&want), T::name()));
    ctx.nontrivial(T::name().as_bytes());
    ctx.nontrivial(&want);
    ctx.label_if(want.len() > 130, "long contents");
    ctx.label_if(m.nodes() > 10, "ten nodes");
    encoding(&v, &want, &T::name())?;
    decoding::<T>(s, ctx, &want)?;
    let mut count = 0;
    let o = m.ber(&mut || s.flag(), &mut count);
    if count > 0 {
        ctx.label("indefinite length");
        ctx.desc(|| engine::hexs(&o));
        decoding::<T>(s, ctx, &o)?;
    }
    Ok(())
}
/// `layout`, and decoding of data in the form which the decoder declares.
pub fn converted<T: Gen>(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.flag() {
        return layout::<T>(s, ctx);
    }
    let n = size(s);
    let w = T::wire(s, n);
    let mut count = 0;
    let o = if s.flag() { w.der() } else { w.ber(&mut || s.flag(), &mut count) };
    ctx.desc(|| format!("{} as {}", engine::hexs(&o), T::name()));
    ctx.nontrivial(T::name().as_bytes());
    ctx.nontrivial(&o);
    ctx.label("data for the decoder");
    decoding::<T>(s, ctx, &o)
}
/// Decoding of near misses.
pub fn strict<T: Gen>(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = size(s);
    let w = T::wire(s, n);
    let indef = if s.flag() { 0 } else { 60 };
    let mut left = s.range(1, 3) as u32;
    let mut o = flawed(s, &w, indef, &mut left);
    if s.chance(40) {
        gen::mutate(s, &mut o);
    }
    ctx.desc(|| format!("{} as {}", engine::hexs(&o), T::name()));
    ctx.nontrivial(T::name().as_bytes());
    ctx.nontrivial(&o);
    decoding::<T>(s, ctx, &o)
}
/// One of `n` things; takes one octet whatever `n` is.
pub fn choose(s: &mut Src, n: usize) -> usize {
    (s.u8() as usize * n) >> 8
}
pub fn val(id: &[u8], items: Vec<Val>) -> Val {
    Val::Cons { id: id.to_vec(), items }
}
