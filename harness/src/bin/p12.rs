//! P12: context layers and root causes.
use bsn1::Error;
use vh::faults::{altered, defects, places};
use vh::values::{pick_any, with_type, Gen, Visitor};
use vh::{engine, ensure, ensure_eq, gen, io, Ctx, Fail, Property, Src, R};

const KINDS: usize = 10;
fn kind(i: usize) -> Error {
    match i {
        0 => Error::UnterminatedBytes,
        1 => Error::RedundantBytes,
        2 => Error::OverFlow,
        3 => Error::IndefiniteLength,
        4 => Error::BadEoc,
        5 => Error::ExtraContentsOctet,
        6 => Error::UnmatchedId,
        7 => Error::InvalidUtf8,
        8 => Error::InvalidDerBooleanContents,
        _ => Error::InvalidKeyValuePair,
    }
}
fn number(e: &Error) -> Option<usize> {
    Some(match e {
        Error::UnterminatedBytes => 0,
        Error::RedundantBytes => 1,
        Error::OverFlow => 2,
        Error::IndefiniteLength => 3,
        Error::BadEoc => 4,
        Error::ExtraContentsOctet => 5,
        Error::UnmatchedId => 6,
        Error::InvalidUtf8 => 7,
        Error::InvalidDerBooleanContents => 8,
        Error::InvalidKeyValuePair => 9,
        _ => return None,
    })
}
struct Shown(u8);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "shown {}", self.0)
    }
}
/// An error of the user with a library error inside.
#[derive(Debug)]
struct Own(Error);
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("own")
    }
}
impl std::error::Error for Own {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}
/// Puts `n` generated layers around `e`; returns their texts, outermost first.
fn wrap(s: &mut Src, mut e: Error, n: usize) -> (Error, Vec<String>) {
    let mut texts = Vec::new();
    for _ in 0..n {
        let v = s.u8();
        let text = match s.below(8) {
            0 => format!("layer {v}"),
            1 => "fixed text".into(),
            2 => format!("shown {v}"),
            3 => format!("any {v}"),
            4 => String::new(),
            5 => format!("converted {v}"),
            6 => "own".into(),
            _ => {
                // by way of `?` only
                e = Error::from(anyhow::Error::from(e));
                continue;
            }
        };
        e = match text.as_bytes().first() {
            Some(b'f') => e.context("fixed text"),
            Some(b's') => e.context(Shown(v)),
            Some(b'a') => Error::from(e.into_anyhow().context(text.clone())),
            Some(b'c') => Error::from(anyhow::Error::from(e).context(text.clone())),
            Some(b'o') => Error::from(anyhow::Error::new(Own(e))),
            _ => e.context(text.clone()),
        };
        texts.insert(0, text);
    }
    (e, texts)
}
fn layers(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.u8() {
        0..=234 => s.below(8),
        _ if gen::SLOW => s.range(20, 70),
        235..=252 => s.range(20, 60),
        _ => s.range(60, 400),
    };
    let which = s.below(KINDS + 1);
    let io_kind = *s.pick(io::KINDS);
    let e = if which == KINDS { Error::from(std::io::Error::new(io_kind, "io text")) } else { kind(which) };
    let text = e.to_string();
    ctx.desc(|| format!("{n} layers around {e:?}"));
    ctx.label(if which == KINDS { "io error" } else { "plain kind" });
    ctx.label_if(n > 1, "several layers");
    let (e, mut texts) = wrap(s, e, n);
    if n > 0 {
        ctx.nontrivial(texts.join("/").as_bytes());
        ctx.nontrivial(&[which as u8]);
    }
    let shown = e.to_string();
    ensure_eq!(shown, texts.first().cloned().unwrap_or(text.clone()), "message");
    let root = e.root_cause();
    if which == KINDS {
        match root {
            Error::Io(x) => ensure!(x.kind() == io_kind && x.to_string() == "io text", "root", "{x:?}"),
            x => return Err(Fail::new("root", format!("{x:?} instead of the I/O error"))),
        }
        ensure!(*root != *root && *root != kind(0) && kind(0) != *root, "equality", "{root:?}");
    } else {
        ensure_eq!(number(root), Some(which), "root", "{root:?} instead of {:?}", kind(which));
        ensure!(*root == kind(which), "root", "{root:?}");
        for k in 0..KINDS {
            ensure_eq!(*root == kind(k), k == which, "equality", "{root:?} {k}");
            ensure_eq!(kind(k) == *root, k == which, "equality", "{root:?} {k}");
        }
    }
    if n > 0 {
        ensure!(!(e == e) && e != kind(which % KINDS) && kind(which % KINDS) != e, "equality", "wrapped {e:?}");
        ensure!(e.as_anyhow().is_some(), "wrapped", "{e:?}");
    } else {
        ensure!(e.as_anyhow().is_none(), "wrapped", "{e:?}");
    }
    texts.push(text);
    if let Some(a) = e.as_anyhow() {
        let chain: Vec<String> = a.chain().map(|c| c.to_string()).collect();
        ensure_eq!(chain, texts, "chain");
    }
    let a = e.into_anyhow();
    let chain: Vec<String> = a.chain().map(|c| c.to_string()).collect();
    ensure_eq!(chain, texts, "chain");
    // and back
    let e = Error::from(a);
    match (which == KINDS, e.root_cause()) {
        (true, Error::Io(x)) if x.kind() == io_kind => {}
        (false, r) if number(r) == Some(which) => {}
        (_, r) => return Err(Fail::new("root", format!("after into_anyhow: {r:?}"))),
    }
    Ok(())
}

struct Deep<'a> {
    s: &'a mut Src,
    ctx: &'a mut Ctx,
}
impl Visitor for Deep<'_> {
    type Out = R;
    fn visit<T: Gen>(&mut self) -> R {
        let (s, ctx) = (&mut *self.s, &mut *self.ctx);
        let v = T::gen(s, 4);
        let m = v.model();
        let mut all = Vec::new();
        places(&m, &mut Vec::new(), &mut all);
        let (place, id, cons) = all[s.below(all.len())].clone();
        let der = s.flag();
        let mut options = defects(&m, &place, &id, cons, der);
        let (name, kinds, change) = options.swap_remove(s.below(options.len()));
        let octets = altered(&m, &place, &*change);
        ctx.desc(|| format!("{}: {name} at {place:?} in {}", T::name(), engine::hexs(&octets)));
        ctx.label(name);
        ctx.label_if(place.len() > 2, "depth three or more");
        ctx.nontrivial(&octets);
        ctx.nontrivial(T::name().as_bytes());
        let got: Vec<(&str, Result<T, Error>)> = if der {
            let p = bsn1_serde::parse_der::<T>(&mut &octets[..]);
            let r = bsn1_serde::read_der::<_, T>(&mut &octets[..]);
            vec![("parse_der", p), ("read_der", r)]
        } else {
            let p = bsn1_serde::parse_ber::<T>(&mut &octets[..]);
            let r = bsn1_serde::read_ber::<_, T>(&mut &octets[..]);
            vec![("parse_ber", p), ("read_ber", r)]
        };
        for (route, g) in got {
            match g {
                Ok(v) => return Err(Fail::new("accepted", format!("{route} {} as {}: {v:?} despite {name}", engine::hexs(&octets), T::name()))),
                Err(e) => {
                    let r = e.root_cause();
                    // the root cause comes with its text at the end of the chain
                    ensure!(
                        kinds.iter().any(|k| k == r),
                        "root",
                        "{route} {} as {} with {name}: root cause {r:?} instead of {kinds:?}", engine::hexs(&octets), T::name()
                    );
                    if let Some(a) = e.as_anyhow() {
                        let last = a.chain().last().map(|c| c.to_string());
                        ensure_eq!(last, Some(r.to_string()), "chain");
                    }
                }
            }
        }
        Ok(())
    }
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(60) {
        return layers(s, ctx);
    }
    let i = pick_any(s);
    with_type(i, &mut Deep { s, ctx })
}
fn main() {
    engine::main(Property {
        id: "P12",
        rule: "errors with at least one layer, or one defect placed inside an encoded typed value; distinct by layers or octets and type",
        case,
        fixed: engine::no_fixed,
        quick: 300_000,
        thorough: 5_000_000,
    })
}
