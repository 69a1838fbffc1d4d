//! P05: identifiers.
use bsn1::{ClassTag, Error, Id, IdRef, PCTag, TagNumber};
use vh::{engine, ensure, ensure_eq, gen, kind_ok, model, Ctx, Fail, Property, Src, R};

const CLASS: [ClassTag; 4] = [ClassTag::Universal, ClassTag::Application, ClassTag::ContextSpecific, ClassTag::Private];
fn pc(c: bool) -> PCTag {
    if c {
        PCTag::Constructed
    } else {
        PCTag::Primitive
    }
}
/// All accessors against the octets expected.
fn accessors(id: &IdRef, octets: &[u8], what: &str) -> R {
    ensure_eq!(AsRef::<[u8]>::as_ref(id), octets, "wrong-octets", "{what}");
    ensure_eq!(id.len(), octets.len(), "wrong-len", "{what}");
    let k = (octets[0] >> 6) as usize;
    ensure_eq!(id.class(), CLASS[k], "wrong-class", "{what}");
    let is = [id.is_universal(), id.is_application(), id.is_context_specific(), id.is_private()];
    let mut expected = [false; 4];
    expected[k] = true;
    ensure_eq!(is, expected, "wrong-class", "{what}: is_..");
    let c = octets[0] & 0x20 != 0;
    ensure_eq!(id.pc(), pc(c), "wrong-pc", "{what}");
    ensure_eq!((id.is_primitive(), id.is_constructed()), (!c, c), "wrong-pc", "{what}: is_..");
    match (id.number(), model::id_number(octets)) {
        (Ok(n), Some(m)) => ensure_eq!(n.get(), m, "wrong-number", "{what}"),
        (Err(Error::OverFlow), None) => (),
        (g, m) => return Err(Fail::new("wrong-number", format!("{what}: number {g:?} instead of {m:?}"))),
    }
    Ok(())
}
/// All parsers on raw octets.
fn parsers(b: &[u8], ctx: &mut Ctx) -> R {
    let expected = model::id_size(b);
    let mut r1 = b;
    let g1 = IdRef::parse(&mut r1);
    let mut copy = b.to_vec();
    let base = copy.as_ptr() as usize;
    let mut r2: &mut [u8] = &mut copy;
    let g2 = IdRef::parse_mut(&mut r2);
    let mut r3 = b;
    let g3 = Id::parse(&mut r3);
    match expected {
        Ok(n) => {
            let id = g1.map_err(|e| Fail::new("refused", format!("{e:?}")))?;
            accessors(id, &b[..n], "parse")?;
            ensure_eq!(r1, &b[n..], "wrong-rest");
            let id = g2.map_err(|e| Fail::new("refused", format!("parse_mut: {e:?}")))?;
            accessors(id, &b[..n], "parse_mut")?;
            ensure_eq!((r2.as_ptr() as usize, r2.len()), (base + n, b.len() - n), "wrong-rest", "parse_mut");
            ensure_eq!(copy, b, "changed", "parse_mut");
            let id = g3.map_err(|e| Fail::new("refused", format!("Id::parse: {e:?}")))?;
            accessors(&id, &b[..n], "Id::parse")?;
            ensure_eq!(r3, &b[n..], "wrong-rest", "Id::parse");
            ctx.label_if(n > 1, "long form parsed");
            ctx.label_if(model::id_number(&b[..n]).is_none(), "number over 128 bits");
        }
        Err(k) => {
            let errs = [g1.err(), g2.err(), g3.err()];
            for e in errs {
                match e {
                    None => return Err(Fail::new("accepted", format!("accepted though {k:?}"))),
                    Some(e) => ensure!(kind_ok(&e, &k), "wrong-kind", "{e:?} is none of {k:?}"),
                }
            }
            ensure_eq!(r1, b, "slice-moved");
            ensure_eq!((r2.as_ptr() as usize, r2.len()), (base, b.len()), "slice-moved", "parse_mut");
            ctx.label_if(k.contains(&model::E::Redundant), "redundant refused");
        }
    }
    Ok(())
}
fn built(class: usize, c: bool, n: u128, ctx: &mut Ctx) -> R {
    let octets = model::encode_id(gen::CLASSES[class], c, n);
    let mut id = Id::new(CLASS[class], pc(c), TagNumber::from(n));
    accessors(&id, &octets, "new")?;
    if let Ok(m) = u8::try_from(n) {
        id = Id::new(CLASS[class], pc(c), m.into());
        ensure_eq!(AsRef::<[u8]>::as_ref(&id), &octets[..], "wrong-octets", "u8");
    }
    if let Ok(m) = u16::try_from(n) {
        ensure_eq!(TagNumber::from(m).get(), n, "wrong-number", "u16");
    }
    if let Ok(m) = u32::try_from(n) {
        ensure_eq!(TagNumber::from(m).get(), n, "wrong-number", "u32");
    }
    if let Ok(m) = u64::try_from(n) {
        ensure_eq!(TagNumber::from(m).get(), n, "wrong-number", "u64");
    }
    if let Ok(m) = usize::try_from(n) {
        ensure_eq!(TagNumber::from(m).get(), n, "wrong-number", "usize");
    }
    let mut b = octets.clone();
    b.extend([0x00, 0x80, 0xff]);
    parsers(&b, ctx)?;
    // no other encoding of the same
    let mut padded = octets.clone();
    if octets.len() == 1 {
        padded[0] |= 0x1f;
        padded.push(n as u8);
        parsers(&padded, ctx)?;
        padded.pop();
        padded.push(0x80);
        padded.push(n as u8);
        parsers(&padded, ctx)?;
    } else {
        padded.insert(1, 0x80);
        parsers(&padded, ctx)?;
        padded.insert(1, 0x80);
        parsers(&padded, ctx)?;
    }
    // truncated
    for i in 0..octets.len() {
        parsers(&octets[..i], ctx)?;
    }
    ctx.label_if(octets.len() == 1, "short form");
    ctx.label_if(octets.len() == 2, "two octets");
    ctx.label_if(octets.len() > 2, "three octets and more");
    ctx.nontrivial(&octets);
    Ok(())
}
fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let start = gen::id(s);
    let mut id: Id = match s.below(4) {
        0 => Id::parse(&mut &start[..]).map_err(|e| Fail::new("refused", format!("{e:?}")))?,
        1 => Id::from(IdRef::parse(&mut &start[..]).map_err(|e| Fail::new("refused", format!("{e:?}")))?),
        2 => IdRef::parse(&mut &start[..]).map_err(|e| Fail::new("refused", format!("{e:?}")))?.to_owned(),
        _ => unsafe { Id::from_bytes_unchecked(&start) },
    };
    let mut octets = start.clone();
    accessors(&id, &octets, "start")?;
    let n = s.range(1, 10);
    let mut trace = vec![engine::hex(&start)];
    let mut last = None;
    for _ in 0..n {
        match s.below(6) {
            0 => {
                let k = s.below(4);
                id.set_class(CLASS[k]);
                octets[0] = octets[0] & 0x3f | gen::CLASSES[k];
                trace.push(format!("class {k}"));
            }
            1 => {
                let c = s.flag();
                id.set_pc(pc(c));
                octets[0] = octets[0] & 0xdf | if c { 0x20 } else { 0 };
                trace.push(format!("constructed {c}"));
            }
            2 | 3 => {
                let n = gen::tag_number(s);
                id.set_number(n.into());
                octets = model::encode_id(octets[0] & 0xc0, octets[0] & 0x20 != 0, n);
                trace.push(format!("number {n}"));
            }
            4 => {
                let old = std::mem::replace(&mut id, Id::new(CLASS[0], pc(false), 0u8.into()));
                id = old.clone();
                // the original goes on living beside the copy
                last = Some((old, octets.clone()));
                trace.push("clone".into());
            }
            _ => {
                let mut raw = octets.clone();
                let r = IdRef::parse_mut(&mut &mut raw[..]).map_err(|e| Fail::new("refused", format!("{e:?}")))?;
                let k = s.below(4);
                r.set_class(CLASS[k]);
                octets[0] = octets[0] & 0x3f | gen::CLASSES[k];
                id = Id::from(&*r);
                trace.push(format!("mutable slice, class {k}"));
            }
        }
        if let Err(f) = accessors(&id, &octets, "after edits") {
            return Err(Fail::new(f.kind, format!("{} after {}", f.msg, trace.join(", "))));
        }
        if let Some((old, o)) = &last {
            accessors(old, o, "the original of a clone")?;
        }
        if let Some(n) = model::id_number(&octets) {
            let fresh = Id::new(CLASS[(octets[0] >> 6) as usize], pc(octets[0] & 0x20 != 0), n.into());
            ensure!(fresh == id, "differs-from-new", "{:02x?} but new gives {:02x?} after {}", &octets, AsRef::<[u8]>::as_ref(&fresh), trace.join(", "));
        }
    }
    ctx.desc(|| format!("edits {}", trace.join(", ")));
    ctx.label("edit history");
    ctx.nontrivial(trace.join(",").as_bytes());
    Ok(())
}
fn constants() -> R {
    let c: [(&IdRef, &[u8]); 11] = [
        (IdRef::eoc(), &[0x00]), (IdRef::boolean(), &[0x01]), (IdRef::integer(), &[0x02]),
        (IdRef::octet_string(), &[0x04]), (IdRef::octet_string_constructed(), &[0x24]), (IdRef::null(), &[0x05]),
        (IdRef::real(), &[0x09]), (IdRef::utf8_string(), &[0x0c]), (IdRef::utf8_string_constructed(), &[0x2c]),
        (IdRef::sequence(), &[0x30]), (IdRef::set(), &[0x31]),
    ];
    for (id, o) in c {
        accessors(id, o, "constant")?;
    }
    Ok(())
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.weighted(&[5, 4, 5]) {
        0 => {
            let class = s.below(4);
            let c = s.flag();
            let n = if s.flag() { gen::tag_number(s) } else { s.below(70_000) as u128 };
            ctx.desc(|| format!("class {class} constructed {c} number {n}"));
            constants()?;
            built(class, c, n, ctx)
        }
        1 => {
            let mut b = gen::wild_id(s);
            let n = s.below(4);
            b.extend(s.bytes(n));
            ctx.desc(|| format!("octets {}", engine::hexs(&b)));
            parsers(&b, ctx)?;
            if b.len() > 1 {
                ctx.nontrivial(&b);
            }
            Ok(())
        }
        _ => history(s, ctx),
    }
}
fn fixed(run: &mut dyn FnMut(Vec<u8>), thorough: bool) {
    // every number up to 2^16 (through the same decoding as random cases)
    let top = if thorough { 70_000u64 } else { 20_000 };
    for n in 0..top {
        let code = (n << 32).div_ceil(70_000) as u32;
        let [a, b, c, d] = code.to_be_bytes();
        run(vec![0, ((n % 4) * 64) as u8, if n % 8 > 3 { 255 } else { 0 }, 0, a, b, c, d]);
    }
}
fn main() {
    engine::main(Property {
        id: "P05",
        rule: "an identifier built, edited or parsed from more than one octet; distinct by octets or edit history",
        case,
        fixed,
        quick: 2_500_000,
        thorough: 12_000_000,
    })
}
