//! P14: round trips and streams of values.
use bsn1::{Ber, BerRef, Der, DerRef};
use vh::io::SchedReader;
use vh::values::{pick_type, with_type, Gen, Visitor, SCALARS};
use vh::{engine, ensure, ensure_eq, gen, Ctx, Fail, Property, Src, R};

fn err<'a>(what: &'a str, o: &'a [u8]) -> impl Fn(bsn1::Error) -> Fail + 'a {
    move |e| Fail::new("refused", format!("{what} of {}: {e:?}", engine::hexs(o)))
}
struct One<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
}
impl Visitor for One<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let s = &mut *self.s;
        let size = *s.pick(&[4, 4, 4, 4, 9, 30]);
        let v = T::gen(s, size);
        let d = bsn1_serde::to_der(&v).map_err(err("to_der", &[]))?;
        let b = bsn1_serde::to_ber(&v).map_err(err("to_ber", &[]))?;
        let octets = d.as_ref() as &[u8];
        self.ctx.desc(|| format!("{} {}", T::name(), engine::hexs(octets)));
        self.ctx.nontrivial(T::name().as_bytes());
        self.ctx.nontrivial(octets);
        self.ctx.label("single value");
        self.ctx.label_if(octets.len() > 130, "long contents");
        let steps = gen::steps(s);
        let mut w = Vec::new();
        bsn1_serde::write_der(&v, &mut w).map_err(err("write_der", octets))?;
        let mut wb = Vec::new();
        bsn1_serde::write_ber(&v, &mut wb).map_err(err("write_ber", octets))?;
        let back: Vec<(&str, T)> = vec![
            ("from_der", bsn1_serde::from_der(&d).map_err(err("from_der", octets))?),
            ("from_ber", bsn1_serde::from_ber(&b).map_err(err("from_ber", octets))?),
            ("from_ber of the DER", bsn1_serde::from_ber(<&BerRef>::from(&*d)).map_err(err("from_ber", octets))?),
            ("parse_der", bsn1_serde::parse_der(&mut &w[..]).map_err(err("parse_der", octets))?),
            ("parse_ber", bsn1_serde::parse_ber(&mut &wb[..]).map_err(err("parse_ber", octets))?),
            ("read_der", bsn1_serde::read_der(&mut SchedReader::new(&w, &steps)).map_err(err("read_der", octets))?),
            ("read_ber", bsn1_serde::read_ber(&mut SchedReader::new(&wb, &steps)).map_err(err("read_ber", octets))?),
            ("parsed Der", {
                let p = Der::parse(&mut &w[..]).map_err(err("Der::parse", octets))?;
                bsn1_serde::from_der(&p).map_err(err("from_der", octets))?
            }),
            ("parsed Ber", {
                let p = Ber::parse(&mut &wb[..]).map_err(err("Ber::parse", octets))?;
                bsn1_serde::from_ber(&p).map_err(err("from_ber", octets))?
            }),
            ("parsed DerRef", {
                let p = DerRef::parse(&mut &w[..]).map_err(err("DerRef::parse", octets))?;
                bsn1_serde::from_der(p).map_err(err("from_der", octets))?
            }),
        ];
        for (what, x) in back {
            ensure!(x == v, "changed", "{what} of {} as {}: {}", engine::hexs(octets), T::name(), cut(&format!("{x:?} instead of {v:?}")));
        }
        Ok(())
    }
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

/// Appends one value of the type to the stream.
struct Put<'a> {
    s: &'a mut Src,
    out: &'a mut Vec<u8>,
    ber: bool,
}
impl Visitor for Put<'_> {
    type Out = Result<Vec<u8>, Fail>;
    fn visit<T: Gen>(&mut self) -> Self::Out {
        let v = T::gen(self.s, 4);
        let before = self.out.len();
        let r = if self.ber { bsn1_serde::write_ber(&v, self.out) } else { bsn1_serde::write_der(&v, self.out) };
        r.map_err(err("write", &[]))?;
        ensure_eq!(engine::hexs(&self.out[before..]), engine::hexs(&v.model().der()), "wrong-octets", "{}", T::name());
        Ok(v.model().der())
    }
}
/// Takes one value off the stream.
struct Take<'a, 'b> {
    slice: Option<&'a mut &'b [u8]>,
    reader: Option<&'a mut SchedReader<'b>>,
    ber: bool,
    /// encoding expected; None: the type is another one and the result does not matter
    want: Option<&'a [u8]>,
    size: usize,
}
impl Visitor for Take<'_, '_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let (got, used): (Result<T, bsn1::Error>, usize) = if let Some(b) = &mut self.slice {
            let before = b.len();
            let r = if self.ber { bsn1_serde::parse_ber::<T>(b) } else { bsn1_serde::parse_der::<T>(b) };
            (r, before - b.len())
        } else {
            let r = self.reader.as_mut().unwrap();
            let before = r.pos;
            let x = if self.ber { bsn1_serde::read_ber::<_, T>(*r) } else { bsn1_serde::read_der::<_, T>(*r) };
            (x, r.pos - before)
        };
        ensure_eq!(used, self.size, "consumed", "octets taken for one {} (result {})", T::name(), cut(&format!("{got:?}")));
        if let Some(want) = self.want {
            match got {
                Ok(v) => ensure_eq!(engine::hexs(&v.model().der()), engine::hexs(want), "changed", "{}", T::name()),
                Err(e) => return Err(Fail::new("refused", format!("{} as {}: {e:?}", engine::hexs(want), T::name()))),
            }
        }
        Ok(())
    }
}
fn stream(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.range(2, 6);
    let ber = s.flag();
    let mut out = Vec::new();
    let mut list = Vec::new();
    for _ in 0..n {
        let t = pick_type(s);
        let want = with_type(t, &mut Put { s, out: &mut out, ber })?;
        // sometimes the reader asks for something else
        let ask = if s.chance(70) { pick_type(s) } else { t };
        list.push((t, ask, want));
    }
    let other = list.iter().any(|(t, a, _)| t != a);
    ctx.desc(|| format!("stream of {n} values: {}", engine::hexs(&out)));
    ctx.label("stream");
    ctx.label_if(other, "stream read with another type");
    ctx.nontrivial(&out);
    ctx.nontrivial(&list.iter().map(|l| l.1 as u8).collect::<Vec<u8>>());
    let steps = gen::steps(s);
    let mut slice = &out[..];
    let mut reader = SchedReader::new(&out, &steps);
    for (t, ask, want) in &list {
        let w = (t == ask).then_some(&want[..]);
        with_type(*ask, &mut Take { slice: Some(&mut slice), reader: None, ber, want: w, size: want.len() })?;
        with_type(*ask, &mut Take { slice: None, reader: Some(&mut reader), ber, want: w, size: want.len() })?;
    }
    ensure!(slice.is_empty() && reader.pos == out.len(), "consumed", "octets left over");
    Ok(())
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let i = match s.weighted(&[6, 20, 12]) {
        0 => s.below(SCALARS),
        1 => pick_type(s),
        _ => return stream(s, ctx),
    };
    with_type(i, &mut One { s, ctx })
}
fn main() {
    engine::main(Property {
        id: "P14",
        rule: "every generated value or stream of values; distinct by types and octets",
        case,
        fixed: engine::no_fixed,
        quick: 240_000,
        thorough: 4_000_000,
    })
}
