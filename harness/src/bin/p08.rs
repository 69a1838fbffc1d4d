//! P08: building values from parts, taking them apart, converting them.
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef, Length};
use vh::values::gen_int;
use vh::{engine, ensure, ensure_eq, gen, model, Ctx, Fail, Property, Src, R};

type O<'a> = &'a [u8];

fn idref(b: &[u8]) -> Result<&IdRef, Fail> {
    let mut r = b;
    let id = IdRef::parse(&mut r).map_err(|e| Fail::new("id", format!("{} not parsed: {e:?}", engine::hexs(b))))?;
    ensure_eq!(AsRef::<[u8]>::as_ref(id), b, "id");
    Ok(id)
}
/// Everything that can be read from a borrowed value.
fn parts_der(d: &DerRef, id: O, c: O, what: &str) -> R {
    let tlv = model::tlv(id, c);
    ensure_eq!(AsRef::<[u8]>::as_ref(d), &tlv[..], "wrong-octets", "{what}");
    ensure_eq!(AsRef::<[u8]>::as_ref(d.id()), id, "wrong-id", "{what}");
    ensure_eq!(d.length().definite(), Some(c.len()), "wrong-length", "{what}");
    ensure_eq!(d.contents().as_ref(), c, "wrong-contents", "{what}");
    let (i, l, k) = d.disassemble();
    ensure_eq!(AsRef::<[u8]>::as_ref(i), id, "wrong-id", "{what} disassembled");
    ensure_eq!(l.definite(), Some(c.len()), "wrong-length", "{what} disassembled");
    ensure_eq!(k.as_ref(), c, "wrong-contents", "{what} disassembled");
    Ok(())
}
fn parts_ber(d: &BerRef, id: O, len: Option<usize>, c: O, what: &str) -> R {
    let tlv = layout(id, len, c);
    ensure_eq!(AsRef::<[u8]>::as_ref(d), &tlv[..], "wrong-octets", "{what}");
    ensure_eq!(AsRef::<[u8]>::as_ref(d.id()), id, "wrong-id", "{what}");
    ensure_eq!(d.length().definite(), len, "wrong-length", "{what}");
    ensure_eq!(d.length().is_indefinite(), len.is_none(), "wrong-length", "{what}");
    ensure_eq!(d.contents().as_ref(), c, "wrong-contents", "{what}");
    let (i, l, k) = d.disassemble();
    ensure_eq!(AsRef::<[u8]>::as_ref(i), id, "wrong-id", "{what} disassembled");
    ensure_eq!(l.definite(), len, "wrong-length", "{what} disassembled");
    ensure_eq!(k.as_ref(), c, "wrong-contents", "{what} disassembled");
    Ok(())
}
fn layout(id: O, len: Option<usize>, c: O) -> Vec<u8> {
    match len {
        Some(_) => model::tlv(id, c),
        None => [id, &[0x80], c].concat(),
    }
}
fn der(s: &mut Src, d: Der, id: O, c: O, what: &str) -> R {
    parts_der(&d, id, c, what)?;
    let tlv = model::tlv(id, c);
    let again = d.clone();
    parts_der(&again, id, c, "clone")?;
    ensure!(again == d, "differ", "clone of {what}");
    parts_der(&DerRef::to_owned(&d), id, c, "to_owned")?;
    parts_der(&Der::from(&*d), id, c, "from reference")?;
    let mut m = d.clone();
    {
        let (i, l, k) = m.disassemble_mut();
        ensure_eq!(AsRef::<[u8]>::as_ref(&*i), id, "wrong-id", "{what} disassemble_mut");
        ensure_eq!(l.definite(), Some(c.len()), "wrong-length", "{what} disassemble_mut");
        ensure_eq!((*k).as_ref(), c, "wrong-contents", "{what} disassemble_mut");
    }
    ensure_eq!(AsRef::<[u8]>::as_ref(&*m.mut_id()), id, "wrong-id", "{what} mut_id");
    ensure_eq!((*m.mut_contents()).as_ref(), c, "wrong-contents", "{what} mut_contents");
    // other views
    parts_ber(<&BerRef>::from(&*d), id, Some(c.len()), c, "BerRef of DerRef")?;
    parts_ber(&Ber::from(&*d), id, Some(c.len()), c, "Ber of DerRef")?;
    // parse again, followed by something else
    let mut more = tlv.clone();
    let n = s.below(4);
    more.extend(s.bytes(n));
    let mut r = &more[..];
    let p = DerRef::parse(&mut r).map_err(|e| Fail::new("not-parsed", format!("{what}: {e:?}")))?;
    parts_der(p, id, c, "parsed")?;
    ensure_eq!(r.len(), n, "not-consumed");
    let mut r = &more[..];
    let p = Der::parse(&mut r).map_err(|e| Fail::new("not-parsed", format!("{what}: {e:?}")))?;
    parts_der(&p, id, c, "parsed from a reader")?;
    ensure_eq!(r.len(), n, "not-consumed");
    let mut w = more.clone();
    let mut r = &mut w[..];
    let p = DerRef::parse_mut(&mut r).map_err(|e| Fail::new("not-parsed", format!("{what}: {e:?}")))?;
    parts_der(p, id, c, "parsed mutably")?;
    unsafe {
        parts_der(DerRef::from_bytes_unchecked(&tlv), id, c, "from_bytes_unchecked")?;
        parts_der(DerRef::from_mut_bytes_unchecked(&mut tlv.clone()), id, c, "from_mut_bytes_unchecked")?;
        parts_der(&Der::from_bytes_unchecked(&tlv), id, c, "from_bytes_unchecked")?;
        let mut v = tlv.clone();
        v.reserve(s.below(40));
        parts_der(&Der::from_vec_unchecked(v), id, c, "from_vec_unchecked")?;
    }
    // consume
    ensure_eq!(d.clone().into_vec(), tlv, "wrong-octets", "into_vec of {what}");
    let b = Ber::from(d);
    ber(s, b, id, Some(c.len()), c, "Ber of Der")
}
fn ber(s: &mut Src, d: Ber, id: O, len: Option<usize>, c: O, what: &str) -> R {
    parts_ber(&d, id, len, c, what)?;
    let tlv = layout(id, len, c);
    let again = d.clone();
    parts_ber(&again, id, len, c, "clone")?;
    ensure!(again == d, "differ", "clone of {what}");
    parts_ber(&BerRef::to_owned(&d), id, len, c, "to_owned")?;
    parts_ber(&Ber::from(&*d), id, len, c, "from reference")?;
    let mut m = d.clone();
    {
        let (i, l, k) = m.disassemble_mut();
        ensure_eq!(AsRef::<[u8]>::as_ref(&*i), id, "wrong-id", "{what} disassemble_mut");
        ensure_eq!(l.definite(), len, "wrong-length", "{what} disassemble_mut");
        ensure_eq!((*k).as_ref(), c, "wrong-contents", "{what} disassemble_mut");
    }
    ensure_eq!(AsRef::<[u8]>::as_ref(&*m.mut_id()), id, "wrong-id", "{what} mut_id");
    ensure_eq!((*m.mut_contents()).as_ref(), c, "wrong-contents", "{what} mut_contents");
    let mut more = tlv.clone();
    let n = s.below(4);
    more.extend(s.bytes(n));
    let mut odd = false;
    let well = model::ber_walk(&tlv, &mut odd).is_ok_and(|p| p.total() == tlv.len()) && !odd;
    if well {
        let mut r = &more[..];
        let p = BerRef::parse(&mut r).map_err(|e| Fail::new("not-parsed", format!("{what}: {e:?}")))?;
        parts_ber(p, id, len, c, "parsed")?;
        ensure_eq!(r.len(), n, "not-consumed");
        let mut r = &more[..];
        let p = Ber::parse(&mut r).map_err(|e| Fail::new("not-parsed", format!("{what}: {e:?}")))?;
        parts_ber(&p, id, len, c, "parsed from a reader")?;
        ensure_eq!(r.len(), n, "not-consumed");
        let mut w = more.clone();
        let mut r = &mut w[..];
        let p = BerRef::parse_mut(&mut r).map_err(|e| Fail::new("not-parsed", format!("{what}: {e:?}")))?;
        parts_ber(p, id, len, c, "parsed mutably")?;
    }
    unsafe {
        parts_ber(BerRef::from_bytes_unchecked(&tlv), id, len, c, "from_bytes_unchecked")?;
        parts_ber(BerRef::from_mut_bytes_unchecked(&mut tlv.clone()), id, len, c, "from_mut_bytes_unchecked")?;
        parts_ber(&Ber::from_bytes_unchecked(&tlv), id, len, c, "from_bytes_unchecked")?;
        let mut v = tlv.clone();
        v.reserve(s.below(40));
        parts_ber(&Ber::from_vec_unchecked(v), id, len, c, "from_vec_unchecked")?;
    }
    ensure_eq!(d.into_vec(), tlv, "wrong-octets", "into_vec of {what}");
    Ok(())
}
fn fragments(s: &mut Src, c: O) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut rest = c;
    loop {
        if s.chance(40) {
            v.push(Vec::new());
        }
        if rest.is_empty() {
            return v;
        }
        let n = if s.chance(30) { rest.len() } else { s.range(1, rest.len().min(60)) };
        v.push(rest[..n].to_vec());
        rest = &rest[n..];
        if v.len() > 20 {
            v.push(rest.to_vec());
            return v;
        }
    }
}
/// Contents of an indefinite-length value: elements and the end, or any octets.
fn indefinite_contents(s: &mut Src) -> Vec<u8> {
    if s.chance(40) {
        return gen::contents(s, false);
    }
    let mut v = Vec::new();
    let n = s.below(4);
    for _ in 0..n {
        let depth = s.below(3);
        gen::tree(s, depth, 100, false, &mut v);
    }
    v.extend([0, 0]);
    v
}
fn converted(s: &mut Src, ctx: &mut Ctx) -> R {
    macro_rules! int {
        ($t:ty) => {{
            let v: $t = gen_int(s);
            let (n, l) = vh::values::Integer::split(v);
            ctx.desc(|| format!("{v}_{}", stringify!($t)));
            (model::encode_int(n, l), 2u8, Der::from(v), Ber::from(v), Contents::from(v))
        }};
    }
    let (c, id, d, b, k) = match s.below(17) {
        0 => int!(i8),
        1 => int!(u8),
        2 => int!(i16),
        3 => int!(u16),
        4 => int!(i32),
        5 => int!(u32),
        6 => int!(i64),
        7 => int!(u64),
        8 => int!(i128),
        9 => int!(u128),
        10 => int!(isize),
        11 => int!(usize),
        12 => {
            let v = s.flag();
            (vec![if v { 255 } else { 0 }], 1, Der::from(v), Ber::from(v), Contents::from(v))
        }
        13 | 14 => {
            let v = <String as vh::values::Gen>::gen(s, 4);
            ctx.desc(|| format!("{v:?}"));
            let k = if s.flag() { Contents::from(v.as_str()) } else { Contents::from(v.clone()) };
            ensure_eq!(<&ContentsRef>::from(v.as_str()).as_ref(), v.as_bytes(), "wrong-contents");
            (v.as_bytes().to_vec(), 12, Der::from(&v[..]), Ber::from(&v[..]), k)
        }
        _ => {
            let v = gen::contents(s, true);
            ctx.desc(|| format!("octets {}", engine::hexs(&v)));
            let k = if s.flag() { Contents::from(&v[..]) } else { Contents::from(v.clone()) };
            (v.clone(), 4, Der::from(&v[..]), Ber::from(&v[..]), k)
        }
    };
    ensure_eq!(AsRef::<[u8]>::as_ref(&k), &c[..], "wrong-contents");
    ensure_eq!(k.len(), c.len(), "wrong-contents");
    ensure_eq!(k.is_empty(), c.is_empty(), "wrong-contents");
    ctx.label("converted");
    ctx.nontrivial(&model::tlv(&[id], &c));
    der(s, d, &[id], &c, "converted")?;
    ber(s, b, &[id], Some(c.len()), &c, "converted")
}
fn array<const N: usize>(b: &[u8]) -> R {
    let a: [u8; N] = b.try_into().unwrap();
    ensure_eq!(AsRef::<[u8]>::as_ref(&Contents::from(&a)), b, "wrong-contents", "of an array");
    ensure_eq!(<&ContentsRef>::from(&a).as_ref(), b, "wrong-contents", "of an array");
    let mut m = a;
    let r = <&mut ContentsRef>::from(&mut m);
    ensure_eq!((*r).as_ref(), b, "wrong-contents", "of a mutable array");
    if N > 0 {
        r[N - 1] ^= 0xff;
        ensure_eq!(m[N - 1], b[N - 1] ^ 0xff, "wrong-contents", "of a mutable array");
    }
    Ok(())
}
/// Contents by all conversions, and the mutable views.
fn contents(s: &mut Src, ctx: &mut Ctx) -> R {
    let b = gen::contents(s, false);
    ctx.desc(|| format!("contents {}", engine::hexs(&b)));
    ctx.label("contents and views");
    ctx.nontrivial(&b);
    match b.len() {
        0 => array::<0>(&b)?,
        1 => array::<1>(&b)?,
        2 => array::<2>(&b)?,
        7 => array::<7>(&b)?,
        15 => array::<15>(&b)?,
        16 => array::<16>(&b)?,
        22 => array::<22>(&b)?,
        23 => array::<23>(&b)?,
        24 => array::<24>(&b)?,
        128 => array::<128>(&b)?,
        256 => array::<256>(&b)?,
        _ => (),
    }
    let r = <&ContentsRef>::from(&b[..]);
    let c = ToOwned::to_owned(r);
    let mut m = b.clone();
    for (what, got) in [
        ("to_owned", Vec::from(AsRef::<[u8]>::as_ref(&c))),
        ("from a reference", Vec::from(AsRef::<[u8]>::as_ref(&Contents::from(r)))),
        ("from a vector", Vec::from(AsRef::<[u8]>::as_ref(&Contents::from(b.clone())))),
        ("from a mutable slice", Vec::from((*<&mut ContentsRef>::from(&mut m[..])).as_ref())),
        ("index", c[..].to_vec()),
    ] {
        ensure_eq!(got, b, "wrong-contents", "{what}");
    }
    let id = gen::id(s);
    let i = idref(&id)?;
    let mut d = Der::new(i, r);
    let mut e = Ber::new(i, r);
    let mut own = Id::from(i);
    let mut k = c.clone();
    let tlv = model::tlv(&id, &b);
    ensure_eq!(AsRef::<[u8]>::as_ref(&*AsMut::<DerRef>::as_mut(&mut d)), &tlv[..], "wrong-octets", "as_mut");
    ensure_eq!(AsRef::<[u8]>::as_ref(&*AsMut::<BerRef>::as_mut(&mut e)), &tlv[..], "wrong-octets", "as_mut");
    ensure_eq!(AsRef::<[u8]>::as_ref(&*AsMut::<IdRef>::as_mut(&mut own)), &id[..], "wrong-id", "as_mut");
    let v: &mut ContentsRef = AsMut::as_mut(&mut k);
    ensure_eq!((*v).as_ref(), &b[..], "wrong-contents", "as_mut");
    if !b.is_empty() {
        let j = s.below(b.len());
        let o = s.u8();
        let mut want = b.clone();
        want[j] = o;
        AsMut::<ContentsRef>::as_mut(&mut k)[j] = o;
        AsMut::<DerRef>::as_mut(&mut d).mut_contents()[j] = o;
        AsMut::<BerRef>::as_mut(&mut e).mut_contents()[j] = o;
        let tlv = model::tlv(&id, &want);
        ensure_eq!(AsRef::<[u8]>::as_ref(&k), &want[..], "wrong-contents", "changed through as_mut");
        ensure_eq!(AsRef::<[u8]>::as_ref(&d), &tlv[..], "wrong-octets", "changed through as_mut");
        ensure_eq!(AsRef::<[u8]>::as_ref(&e), &tlv[..], "wrong-octets", "changed through as_mut");
        ensure_eq!(AsRef::<[u8]>::as_ref(&c), &b[..], "wrong-contents", "a clone changed");
    }
    Ok(())
}
/// A total no allocation can have: the constructors panic.
fn impossible(s: &mut Src, ctx: &mut Ctx) -> R {
    let id_octets = gen::id(s);
    let id = idref(&id_octets)?;
    // with the 9 length octets and the identifier beyond isize::MAX
    let n = match s.below(4) {
        0 => usize::MAX - s.below(60),
        1 => (isize::MAX as usize) + 1 + s.below(60),
        2 => (isize::MAX as usize) + 1 + (s.u64() >> 1) as usize,
        _ => usize::MAX - (s.u64() >> s.range(1, 63)) as usize,
    };
    ctx.desc(|| format!("id {} and {n} octets of contents", engine::hexs(&id_octets)));
    ctx.label("impossible size");
    ctx.nontrivial(&id_octets);
    ctx.nontrivial(&n.to_be_bytes());
    let built = [
        ("Der::with_id_length", engine::guarded(|| Vec::from(AsRef::<[u8]>::as_ref(&Der::with_id_length(id, n))[..4].as_ref())).ok()),
        ("Ber::with_id_length", engine::guarded(|| Vec::from(AsRef::<[u8]>::as_ref(&Ber::with_id_length(id, n))[..4].as_ref())).ok()),
        ("Ber::with_id_length_indefinite", engine::guarded(|| Vec::from(AsRef::<[u8]>::as_ref(&unsafe { Ber::with_id_length_indefinite(id, n) })[..4].as_ref())).ok()),
    ];
    for (what, r) in built {
        ensure!(r.is_none(), "impossible", "{what} gave a value of {n} octets of contents starting {r:02x?}");
    }
    Ok(())
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(2) {
        return impossible(s, ctx);
    }
    if s.chance(16) {
        return contents(s, ctx);
    }
    if s.chance(50) {
        return converted(s, ctx);
    }
    let id_octets = gen::id(s);
    let indef = s.chance(80);
    let c = if indef { indefinite_contents(s) } else { gen::contents(s, true) };
    let id = &id_octets[..];
    let len = (!indef).then_some(c.len());
    let route = s.below(5);
    ctx.desc(|| format!("id {} {} contents {} route {route}", engine::hexs(id), if indef { "indefinite" } else { "definite" }, engine::hexs(&c)));
    ctx.label_if(id.len() > 1, "long identifier");
    ctx.label_if(c.len() > 127, "long length");
    ctx.label_if(c.len() > 65535, "three length octets");
    ctx.label_if(indef, "indefinite");
    if !c.is_empty() {
        ctx.nontrivial(&layout(id, len, &c));
        ctx.nontrivial(&[route as u8]);
    }
    let owned: Id;
    let r = idref(id)?;
    let r: &IdRef = if s.flag() {
        owned = Id::from(r);
        &owned
    } else {
        r
    };
    let k = <&ContentsRef>::from(&c[..]);
    ensure_eq!(Length::Definite(c.len()).to_bytes()[..], model::encode_len(c.len() as u64)[..], "wrong-length");
    if indef {
        let b = match route {
            0 => unsafe { Ber::new_indefinite(r, k) },
            1 => {
                let mut b = unsafe { Ber::with_id_length_indefinite(r, c.len()) };
                ensure_eq!(b.contents().len(), c.len(), "reserved");
                b.mut_contents().as_mut().copy_from_slice(&c);
                b
            }
            2 => {
                let f = fragments(s, &c);
                unsafe { Ber::from_id_iterator_indefinite(r, f.iter()) }
            }
            3 => {
                let f = fragments(s, &c);
                unsafe { Ber::from_id_iterator_indefinite(r, f.iter().map(|v| Contents::from(&v[..]))) }
            }
            _ => {
                let f = fragments(s, &c);
                unsafe { Ber::from_id_iterator_indefinite(r, f.iter().filter(|v| !v.is_empty()).cloned()) }
            }
        };
        ctx.label(["indef new", "indef reserved", "indef fragments", "indef fragments owned", "indef fragments filtered"][route]);
        return ber(s, b, id, None, &c, "built");
    }
    ctx.label(["new", "reserved", "fragments", "fragments owned", "fragments filtered"][route]);
    let (d, b) = match route {
        0 => (Der::new(r, k), Ber::new(r, &Contents::from(k))),
        1 => {
            let mut d = Der::with_id_length(r, c.len());
            let mut b = Ber::with_id_length(r, c.len());
            ensure_eq!(d.contents().len(), c.len(), "reserved");
            ensure_eq!(b.contents().len(), c.len(), "reserved");
            // in two pieces, last first
            let cut = s.below(c.len() + 1);
            d.mut_contents().as_mut()[cut..].copy_from_slice(&c[cut..]);
            d.mut_contents().as_mut()[..cut].copy_from_slice(&c[..cut]);
            b.disassemble_mut().2.as_mut().copy_from_slice(&c);
            (d, b)
        }
        2 => {
            let f = fragments(s, &c);
            (Der::from_id_iterator(r, f.iter()), Ber::from_id_iterator(r, f.iter()))
        }
        3 => {
            let f = fragments(s, &c);
            let d: Vec<Contents> = f.iter().map(|v| Contents::from(&v[..])).collect();
            (Der::from_id_iterator(r, f.iter().cloned()), Ber::from_id_iterator(r, d.iter().map(|c| -> &[u8] { c.as_ref() })))
        }
        _ => {
            let f = fragments(s, &c);
            let g = f.iter().filter(|v| !v.is_empty()).map(|v| &v[..]);
            (Der::from_id_iterator(r, g.clone()), Ber::from_id_iterator(r, g))
        }
    };
    der(s, d, id, &c, "built")?;
    ber(s, b, id, len, &c, "built")
}
fn main() {
    engine::main(Property {
        id: "P08",
        rule: "built from non-empty contents; distinct by octets and construction route",
        case,
        fixed: engine::no_fixed,
        quick: 450_000,
        thorough: 6_000_000,
    })
}
