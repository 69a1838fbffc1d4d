//! P13: serialization of built-in types against a reference encoder.
use bsn1_serde::OctetString;
use vh::checks::encoding;
use vh::values::{pick_type, with_type, Gen, Visitor, SCALARS, TYPES};
use vh::{engine, ensure_eq, gen, model, Ctx, Property, Src, R};

struct One<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
}
impl Visitor for One<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let size = match self.s.weighted(&[8, 3, 1]) {
            0 => 4,
            1 => 9,
            _ => 40,
        };
        let v = T::gen(self.s, size);
        let m = v.model();
        let want = m.der();
        self.ctx.desc(|| format!("{} {}", T::name(), engine::hexs(&want)));
        self.ctx.label_if(want.len() > 130, "long contents");
        self.ctx.label_if(want.len() > 65540, "very long contents");
        self.ctx.label_if(m.nodes() > 10, "ten nodes");
        self.ctx.nontrivial(T::name().as_bytes());
        self.ctx.nontrivial(&want);
        encoding(&v, &want, &T::name())?;
        // the same through references of generic code
        encoding::<T>(&v.clone(), &want, &T::name())
    }
}
/// Borrowed octet strings and their conversions.
fn octets(s: &mut Src, ctx: &mut Ctx) -> R {
    let b = gen::contents(s, true);
    let want = model::tlv(&[4], &b);
    ctx.desc(|| format!("octets {}", engine::hexs(&b)));
    ctx.label("borrowed octet string");
    ctx.nontrivial(&want);
    encoding(&OctetString::new(&b), &want, "OctetString::new")?;
    encoding(&OctetString::from(&b[..]), &want, "OctetString::from(&[u8])")?;
    encoding(&OctetString::from(b.clone()), &want, "OctetString::from(Vec)")?;
    ensure_eq!(AsRef::<[u8]>::as_ref(&OctetString::new(&b)), &b[..], "wrong-contents");
    ensure_eq!(OctetString::new(&b).into_vec(), b, "wrong-contents");
    ensure_eq!(Vec::<u8>::from(OctetString::new(&b)), b, "wrong-contents");
    let text = String::gen(s, 4);
    let want = model::tlv(&[4], text.as_bytes());
    encoding(&OctetString::from(&text[..]), &want, "OctetString::from(&str)")?;
    encoding(&OctetString::from(text.clone()), &want, "OctetString::from(String)")?;
    encoding(&OctetString::new(&text), &want, "OctetString::new(&String)")?;
    ensure_eq!(String::try_from(OctetString::new(&text)).ok(), Some(text.clone()), "wrong-contents");
    let utf8 = String::from_utf8(b.clone()).ok();
    ensure_eq!(String::try_from(OctetString::from(b)).ok(), utf8, "wrong-contents");
    Ok(())
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = match s.weighted(&[10, 20, 1]) {
        0 => s.below(SCALARS),
        1 => pick_type(s),
        _ => return octets(s, ctx),
    };
    with_type(i, &mut One { s, ctx })
}
/// Every value of the narrow types.
fn fixed(run: &mut dyn FnMut(Vec<u8>), _: bool) {
    // entropy of: scalar type i, size, integer by its first choice
    for t in [1u8, 2] {
        for v in 0..=255u8 {
            run(vec![0, ((t as u32 * 256 + 255) / SCALARS as u32) as u8, 0, 0, v]);
        }
    }
    // the default (empty or zero) value of every type
    for t in 0..TYPES {
        run(vec![200, ((t * 256 + TYPES - 1) / TYPES) as u8]);
    }
}
fn main() {
    engine::main(Property {
        id: "P13",
        rule: "every generated value; distinct by type and encoding",
        case,
        fixed,
        quick: 480_000,
        thorough: 6_000_000,
    })
}
