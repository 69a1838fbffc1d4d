//! P18: serialization into writers which accept little, are interrupted or fail.
use bsn1::{Error, Id, IdRef};
use bsn1_serde::ser::Serialize;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::io::{ErrorKind, Write};
use vh::io::{is_injected, Fault, SchedWriter, Step, KINDS, MARK};
use vh::values::{pick_any, with_type, Gen, Visitor};
use vh::{engine, ensure, gen, model, Ctx, Fail, Property, Src, R};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Route {
    Der,
    Ber,
    DynDer,
    DynBer,
    Id,
    Contents,
}
const ROUTES: [Route; 6] = [Route::Der, Route::Ber, Route::DynDer, Route::DynBer, Route::Id, Route::Contents];

fn write<T: Serialize>(v: &T, r: Route, w: &mut SchedWriter) -> Result<(), Error> {
    match r {
        Route::Der => bsn1_serde::write_der(v, w),
        Route::Ber => bsn1_serde::write_ber(v, w),
        Route::DynDer => bsn1_serde::write_der(v, w as &mut dyn Write),
        Route::DynBer => bsn1_serde::write_ber(v, w as &mut dyn Write),
        Route::Id => v.write_id(w),
        Route::Contents => v.write_der_contents(w),
    }
}
fn attempt<T: Serialize>(v: &T, name: &str, r: Route, want: &[u8], steps: &[Step], at: Option<(usize, Fault)>) -> R {
    attempt_(v, name, r, want, steps, at, false)?;
    // the sink recovers, but its failure is to be reported all the same (one which only accepted nothing
    // may be offered the rest again)
    if at.is_some() {
        attempt_(v, name, r, want, steps, at, true)?;
    }
    Ok(())
}
fn attempt_<T: Serialize>(v: &T, name: &str, r: Route, want: &[u8], steps: &[Step], at: Option<(usize, Fault)>, once: bool) -> R {
    let mut w = SchedWriter::new(steps, at);
    w.once = once;
    let res = write(v, r, &mut w);
    let show = |w: &SchedWriter| {
        format!("{r:?} of {name}, steps {steps:?}, fault {at:?}{}: {} of {}", if once { " once" } else { "" }, engine::hexs(&w.got), engine::hexs(want))
    };
    ensure!(want.starts_with(&w.got), "not-a-prefix", "{}", show(&w));
    match (at, res) {
        (Some((n, fault)), Err(e)) if n < want.len() => match fault {
            Fault::Error(k) => {
                ensure!(is_injected(&e, k), "other-error", "{} gives {e:?}", show(&w));
                Ok(())
            }
            Fault::Zero => Ok(()),
        },
        (Some((n, f)), Ok(())) if n < want.len() && !(once && f == Fault::Zero && w.got == want) => Err(Fail::new("lost", format!("success: {}", show(&w)))),
        (_, Err(e)) => Err(Fail::new("failed", format!("{} gives {e:?}", show(&w)))),
        (_, Ok(())) => {
            ensure!(w.got == want, "incomplete", "{}", show(&w));
            Ok(())
        }
    }
}
fn fault(s: &mut Src) -> Fault {
    if s.chance(50) {
        Fault::Zero
    } else {
        Fault::Error(*s.pick(KINDS))
    }
}
struct One<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
}
impl Visitor for One<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let s = &mut *self.s;
        let size = *s.pick(&[3, 4, 6, 10]);
        let v = T::gen(s, size);
        let want = v.model().der();
        let name = T::name();
        let p = model::der(&want).map_err(|e| Fail::new("model", format!("{e:?}")))?;
        let steps = gen::steps(s);
        let ctx = &mut *self.ctx;
        ctx.desc(|| format!("{name} {} into {steps:?}", engine::hexs(&want)));
        ctx.label_if(steps.contains(&Step::Interrupt), "interrupted");
        ctx.label_if(want.len() > 130, "long");
        ctx.nontrivial(name.as_bytes());
        ctx.nontrivial(&want);
        ctx.nontrivial(format!("{steps:?}").as_bytes());
        for r in ROUTES {
            let want = match r {
                Route::Id => &want[..p.id],
                Route::Contents => &want[p.id + p.len..],
                _ => &want[..],
            };
            attempt(&v, &name, r, want, &steps, None)?;
            let every = want.len() <= if gen::SLOW { 8 } else { 48 };
            ctx.label_if(every, "a fault at every position");
            if every {
                for n in 0..=want.len() {
                    attempt(&v, &name, r, want, &steps, Some((n, fault(s))))?;
                }
            } else {
                for _ in 0..if gen::SLOW { 4 } else { 16 } {
                    let n = match s.below(3) {
                        0 => s.below(12.min(want.len() + 1)),
                        1 => want.len() - s.below(12.min(want.len() + 1)),
                        _ => s.below(want.len() + 1),
                    };
                    attempt(&v, &name, r, want, &steps, Some((n, fault(s))))?;
                }
            }
        }
        Ok(())
    }
}
/// Fails in one of the methods of the trait, if its number is negative.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Frail {
    n: i16,
    how: u8,
}
impl Frail {
    fn fail(&self, at: u8) -> Result<(), Error> {
        if self.n < 0 && self.how == at {
            return Err(Error::from(std::io::Error::new(ErrorKind::Other, MARK)));
        }
        Ok(())
    }
}
impl Serialize for Frail {
    fn write_id<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        self.fail(0)?;
        w.write_all(AsRef::<[u8]>::as_ref(IdRef::integer())).map_err(Error::from)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        self.fail(1)?;
        self.n.write_der_contents(w)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        self.fail(2)?;
        match self.how {
            0 => Ok(None),
            2 => Ok(None),
            _ => Ok(Some(Id::from(IdRef::integer()).len())),
        }
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        self.fail(3)?;
        match self.how {
            1 => Ok(None),
            _ => self.n.der_contents_len(),
        }
    }
}
#[derive(bsn1_serde::Serialize)]
struct Holder {
    a: bool,
    x: Frail,
    b: u8,
}
#[derive(bsn1_serde::Serialize)]
enum Either {
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 1)]
    One(Frail),
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 2)]
    Two { a: u8, b: Frail },
}
#[derive(bsn1_serde::Serialize)]
#[bsn1_serde(transparent)]
struct Thin {
    x: Frail,
}
/// A member which cannot be serialized: 0 and 1 have to fail (the octets are needed), 2 and 3 fail
/// only if the announced size is asked for, so either no error and every octet, or this error.
fn frail(s: &mut Src, ctx: &mut Ctx) -> R {
    let how = s.below(4) as u8;
    let n = s.range(1, 5);
    let mut items: Vec<Frail> = (0..n).map(|_| Frail { n: s.below(300) as i16, how }).collect();
    let bad = s.chance(240);
    if bad {
        let i = s.below(n);
        items[i].n = -1 - s.below(300) as i16;
    }
    let enc = |f: &Frail| f.n.model().der();
    let kind = s.below(13);
    ctx.desc(|| format!("{items:?} in container {kind}"));
    ctx.label(if bad { "a member fails" } else { "no member fails" });
    ctx.nontrivial(&[kind as u8]);
    ctx.nontrivial(format!("{items:?}").as_bytes());
    let one = items.iter().find(|i| i.n < 0).unwrap_or(&items[0]).clone();
    let list = |sorted: bool, dedup: bool| {
        let mut i = items.clone();
        if dedup {
            i.sort();
            i.dedup();
        }
        let mut e: Vec<Vec<u8>> = i.iter().map(enc).collect();
        if sorted {
            e.sort();
        }
        model::tlv(&[if sorted { 0x31 } else { 0x30 }], &e.concat())
    };
    let pairs = |sorted: bool, value: bool| {
        let mut i = items.clone();
        i.sort();
        i.dedup();
        let mut e: Vec<Vec<u8>> = i
            .iter()
            .map(|f| {
                let mut k = enc(f);
                let v = model::tlv(&[1], &[0xff]);
                if value {
                    k.extend(enc(f));
                } else {
                    k.extend(v);
                }
                model::tlv(&[0x30], &k)
            })
            .collect();
        if sorted {
            e.sort();
        }
        model::tlv(&[if sorted { 0x31 } else { 0x30 }], &e.concat())
    };
    fn judge<T: Serialize>(v: &T, want: Vec<u8>, must: bool, may: bool, name: &str, wrote_all: &[Step]) -> R {
        let p = model::der(&want).map_err(|e| Fail::new("model", format!("{e:?}")))?;
        let mut outs: Vec<(String, Result<Vec<u8>, Error>)> = vec![
            ("to_der".into(), bsn1_serde::to_der(v).map(|d| d.into_vec())),
            ("to_ber".into(), bsn1_serde::to_ber(v).map(|d| d.into_vec())),
        ];
        for r in ROUTES {
            // a transparent struct has the contents of its field, without the identifier
            if r == Route::Id || (r == Route::Contents && name == "transparent struct") {
                continue;
            }
            let mut w = SchedWriter::new(wrote_all, None);
            let res = write(v, r, &mut w);
            let got = match r {
                Route::Contents => [&want[..p.id + p.len], &w.got].concat(),
                _ => w.got,
            };
            ensure!(want.starts_with(&got), "not-a-prefix", "{name} {r:?}: {}", engine::hexs(&got));
            outs.push((format!("{r:?}"), res.map(|_| got)));
        }
        for (what, o) in outs {
            match o {
                Ok(o) => {
                    ensure!(!must, "swallowed", "{what} of {name}: {} although a member fails", engine::hexs(&o));
                    ensure!(o == want, "wrong-octets", "{what} of {name}: {} instead of {}", engine::hexs(&o), engine::hexs(&want));
                }
                Err(e) => {
                    ensure!(may, "failed", "{what} of {name}: {e:?}");
                    ensure!(is_injected(&e, ErrorKind::Other), "other-error", "{what} of {name}: {e:?}");
                }
            }
        }
        Ok(())
    }
    let (must, may) = (bad && how < 2, bad);
    let steps = gen::steps(s);
    let st = &steps[..];
    let h = || items.iter().cloned();
    let t = model::tlv;
    match kind {
        0 => judge(&items, list(false, false), must, may, "Vec", st),
        1 => judge(&h().collect::<LinkedList<_>>(), list(false, false), must, may, "LinkedList", st),
        2 => {
            // in two parts
            let mut v = h().skip(1).collect::<VecDeque<_>>();
            if let Some(f) = h().next() {
                v.push_front(f)
            }
            judge(&v, list(false, false), must, may, "VecDeque", st)
        }
        3 => judge(&h().collect::<BTreeSet<_>>(), list(false, true), must, may, "BTreeSet", st),
        4 => judge(&h().collect::<HashSet<_>>(), list(true, true), must, may, "HashSet", st),
        5 => judge(&h().map(|f| (f, true)).collect::<BTreeMap<_, _>>(), pairs(false, false), must, may, "BTreeMap key", st),
        6 => judge(&h().map(|f| (f.clone(), f)).collect::<BTreeMap<_, _>>(), pairs(false, true), must, may, "BTreeMap", st),
        7 => judge(&h().map(|f| (f, true)).collect::<HashMap<_, _>>(), pairs(true, false), must, may, "HashMap key", st),
        8 => judge(&h().map(|f| (f.clone(), f)).collect::<HashMap<_, _>>(), pairs(true, true), must, may, "HashMap", st),
        9 => {
            let v = Holder { a: true, x: one.clone(), b: 7 };
            let want = t(&[0x30], &[&[1, 1, 0xff][..], &enc(&one), &[2, 1, 7]].concat());
            judge(&v, want, must, may, "struct", st)
        }
        10 => judge(&Either::One(one.clone()), t(&[0xa1], &enc(&one)), must, may, "enum", st),
        11 => {
            let v = Either::Two { a: 1, b: one.clone() };
            judge(&v, t(&[0xa2], &[&[2, 1, 1][..], &enc(&one)].concat()), must, may, "enum", st)
        }
        _ => judge(&Thin { x: one.clone() }, enc(&one), must, may, "transparent struct", st),
    }
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(80) {
        frail(s, ctx)
    } else {
        let i = pick_any(s);
        with_type(i, &mut One { s, ctx })
    }
}
fn main() {
    engine::main(Property {
        id: "P18",
        rule: "every value written into a scheduled writer; distinct by type, octets and schedule",
        case,
        fixed: engine::no_fixed,
        quick: 90_000,
        thorough: 2_000_000,
    })
}
