//! P16: decoders of the built-in types against a reference decoder.
use vh::checks::{decoding, flawed, IDS};
use vh::values::{pick_type, with_type, Gen, Visitor, SCALARS};
use vh::{engine, gen, model, Ctx, Property, Src, R};

struct One<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
    /// octets to decode; generated from the type if none
    given: Option<Vec<u8>>,
}
impl Visitor for One<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let octets = match self.given.take() {
            Some(o) => o,
            None => {
                let s = &mut *self.s;
                let size = *s.pick(&[3, 4, 4, 8]);
                let v = T::gen(s, size);
                let indef = if s.flag() { 0 } else { 60 };
                let mut left = s.range(1, 3) as u32;
                let mut o = flawed(s, &v.model(), indef, &mut left);
                if s.chance(40) {
                    gen::mutate(s, &mut o);
                }
                o
            }
        };
        self.ctx.desc(|| format!("{} as {}", engine::hexs(&octets), T::name()));
        self.ctx.nontrivial(&octets);
        self.ctx.nontrivial(T::name().as_bytes());
        decoding::<T>(self.s, self.ctx, &octets)
    }
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.weighted(&[2, 18, 5, 3, 4]) {
        0 => {
            // constructed strings, so that the recorded finding is always met
            let segs = s.below(3);
            let mut c = Vec::new();
            for _ in 0..segs {
                let n = s.below(4);
                let b = s.bytes(n);
                c.extend(model::tlv(&[4], &b));
            }
            let text = s.flag();
            let o = model::tlv(&[if text { 0x2c } else { 0x24 }], &c);
            with_type(if text { 13 } else { 14 }, &mut One { s, ctx, given: Some(o) })
        }
        1 => {
            let i = pick_type(s);
            with_type(i, &mut One { s, ctx, given: None })
        }
        2 => {
            // one type's encoding as another
            struct Enc<'a>(&'a mut Src);
            impl Visitor for Enc<'_> {
                type Out = Vec<u8>;
                fn visit<T: Gen>(&mut self) -> Vec<u8> {
                    let v = T::gen(self.0, 4).model();
                    let odds = *self.0.pick(&[0u32, 0, 100]);
                    v.ber(&mut || self.0.chance(odds), &mut 0)
                }
            }
            let (i, j) = (pick_type(s), pick_type(s));
            let o = with_type(i, &mut Enc(s));
            with_type(j, &mut One { s, ctx, given: Some(o) })
        }
        3 => {
            let i = pick_type(s);
            let (o, _) = gen::octets(s, 60);
            with_type(i, &mut One { s, ctx, given: Some(o) })
        }
        _ => {
            // scalars: identifier, length and a few contents octets at will
            let i = s.below(SCALARS);
            let id = *s.pick(&IDS);
            let n = s.below(5);
            let c = s.bytes(n);
            let o = model::tlv(&[id], &c);
            with_type(i, &mut One { s, ctx, given: Some(o) })
        }
    }
}
/// 24 03 04 01 61 as OctetString, 2c 03 04 01 61 as String; short contents of every scalar.
fn fixed(run: &mut dyn FnMut(Vec<u8>), thorough: bool) {
    let two = |i: usize, n: usize| ((i * 256 + n - 1) / n) as u8;
    run(vec![0, 128, 128, 0x61, 0]);
    run(vec![0, 128, 128, 0x61, 255]);
    for t in 0..SCALARS {
        for id in 0..IDS.len() {
            run(vec![255, two(t, SCALARS), two(id, 16), 0]);
            for a in 0..=255u8 {
                run(vec![255, two(t, SCALARS), two(id, 16), two(1, 5), a]);
                if thorough || (id < 4 && [0u8, 0x7f, 0x80, 0xff, 0xc3].contains(&a)) {
                    for b in 0..=255u8 {
                        run(vec![255, two(t, SCALARS), two(id, 16), two(2, 5), a, b]);
                    }
                }
            }
        }
    }
}
fn main() {
    engine::main(Property {
        id: "P16",
        rule: "every octet string offered to a decoder; distinct by octets and type",
        case,
        fixed,
        quick: 900_000,
        thorough: 6_000_000,
    })
}
