//! P09: edit histories against values rebuilt from scratch.
use bsn1::{Ber, BerRef, ClassTag, Contents, ContentsRef, Der, DerRef, IdRef, PCTag};
use vh::{engine, ensure, ensure_eq, gen, model, Ctx, Property, Src, R};

#[derive(Clone, Debug)]
enum Real {
    Der(Der),
    Ber(Ber),
}
#[derive(Clone, Debug)]
struct Slot {
    real: Real,
    id: Vec<u8>,
    indef: bool,
    contents: Vec<u8>,
}
impl Slot {
    fn octets(&self) -> Vec<u8> {
        if self.indef {
            [&self.id[..], &[0x80], &self.contents].concat()
        } else {
            model::tlv(&self.id, &self.contents)
        }
    }
    fn check(&self, what: &str) -> R {
        let want = self.octets();
        let (got, id, len, c): (&[u8], &IdRef, _, &ContentsRef) = match &self.real {
            Real::Der(d) => (AsRef::<[u8]>::as_ref(d), d.id(), d.length(), d.contents()),
            Real::Ber(d) => (AsRef::<[u8]>::as_ref(d), d.id(), d.length(), d.contents()),
        };
        ensure_eq!(got.len(), want.len(), "wrong-octets", "size after {what}");
        ensure!(got == want, "wrong-octets", "after {what}: {} instead of {}", engine::hexs(got), engine::hexs(&want));
        ensure_eq!(AsRef::<[u8]>::as_ref(id), &self.id[..], "wrong-id", "after {what}");
        ensure_eq!(len.definite(), (!self.indef).then_some(self.contents.len()), "wrong-length", "after {what}");
        ensure!(c.as_ref() == self.contents, "wrong-contents", "after {what}");
        Ok(())
    }
    /// Equal to the one built afresh.
    fn rebuilt(&self) -> R {
        let id = unsafe { IdRef::from_bytes_unchecked(&self.id) };
        let c = <&ContentsRef>::from(&self.contents[..]);
        match &self.real {
            Real::Der(d) => ensure!(*d == Der::new(id, c), "not-rebuilt", "{d:?}"),
            Real::Ber(b) if self.indef => {
                ensure!(*b == unsafe { Ber::new_indefinite(id, c) }, "not-rebuilt", "{b:?}")
            }
            Real::Ber(b) => ensure!(*b == Ber::new(id, c), "not-rebuilt", "{b:?}"),
        }
        Ok(())
    }
}
fn fresh(s: &mut Src) -> Slot {
    let id = gen::id(s);
    let indef = s.chance(70);
    let contents = if indef && s.flag() { vec![0, 0] } else { gen::contents(s, true) };
    let r = unsafe { IdRef::from_bytes_unchecked(&id) };
    let c = <&ContentsRef>::from(&contents[..]);
    let real = if indef {
        Real::Ber(unsafe { Ber::new_indefinite(r, c) })
    } else {
        match s.below(4) {
            0 => Real::Der(Der::new(r, c)),
            1 => Real::Ber(Ber::new(r, c)),
            2 => {
                let mut v = model::tlv(&id, &contents);
                v.reserve(s.below(100));
                Real::Der(unsafe { Der::from_vec_unchecked(v) })
            }
            _ => Real::Der(Der::parse(&mut &model::tlv(&id, &contents)[..]).unwrap()),
        }
    };
    Slot { real, id, indef, contents }
}
/// A size to grow or cut to, mostly one where the number of length octets changes.
fn target(s: &mut Src, now: usize) -> usize {
    match s.weighted(&[6, 4, 4, 3, 3, 2]) {
        0 => s.range(0, 40),
        1 => s.range(125, 131),
        2 => s.range(253, 259),
        3 => now.saturating_sub(s.below(3)),
        4 => now + s.below(3),
        _ if gen::SLOW => s.range(0, 300),
        _ => match s.u8() {
            255 => gen::huge(s),
            _ => s.range(65533, 65539),
        },
    }
}
const CLS: [(ClassTag, u8); 4] =
    [(ClassTag::Universal, 0), (ClassTag::Application, 0x40), (ClassTag::ContextSpecific, 0x80), (ClassTag::Private, 0xc0)];

fn step(s: &mut Src, slots: &mut Vec<Slot>, ctx: &mut Ctx) -> Result<(usize, &'static str), engine::Fail> {
    let i = s.below(slots.len());
    let op = s.below(14);
    let name = match op {
        0 => {
            let b = s.u8();
            let x = &mut slots[i];
            match &mut x.real {
                Real::Der(d) => d.push(b),
                Real::Ber(d) => d.push(b),
            }
            x.contents.push(b);
            "push"
        }
        1 | 2 => {
            let x = &mut slots[i];
            let t = target(s, x.contents.len());
            let add = if op == 1 && t > x.contents.len() { t - x.contents.len() } else { s.below(8) };
            let fill = s.u8();
            let bytes: Vec<u8> = (0..add).map(|j| fill.wrapping_add(j as u8)).collect();
            let before = x.contents.len();
            match (&mut x.real, s.below(3)) {
                (Real::Der(d), 0) => d.extend_from_slice(&bytes),
                (Real::Der(d), 1) => d.extend_from_slice(&bytes[..]),
                (Real::Der(d), _) => d.extend_from_slice(&Contents::from(&bytes[..])),
                (Real::Ber(d), 0) => d.extend_from_slice(&bytes),
                (Real::Ber(d), 1) => d.extend_from_slice(&bytes[..]),
                (Real::Ber(d), _) => d.extend_from_slice(&Contents::from(&bytes[..])),
            }
            x.contents.extend(&bytes);
            let widen = model::encode_len(before as u64).len() != model::encode_len(x.contents.len() as u64).len();
            ctx.label_if(widen && !x.indef, "grew the length octets");
            "extend"
        }
        3 | 4 => {
            let x = &mut slots[i];
            let t = target(s, x.contents.len());
            let t = if s.chance(8) { usize::MAX - s.below(3) } else { t };
            let before = x.contents.len();
            match &mut x.real {
                Real::Der(d) => d.truncate(t),
                Real::Ber(d) => d.truncate(t),
            }
            x.contents.truncate(t);
            let narrow = model::encode_len(before as u64).len() != model::encode_len(x.contents.len() as u64).len();
            ctx.label_if(narrow && !x.indef, "shrank the length octets");
            ctx.label_if(t >= before, "truncate to more");
            "truncate"
        }
        5 => {
            let x = &mut slots[i];
            if !x.contents.is_empty() {
                let j = s.below(x.contents.len());
                let b = s.u8();
                let how = s.below(4);
                match &mut x.real {
                    Real::Der(d) => write_at(how, j, b, d.mut_contents()),
                    Real::Ber(d) => write_at(how, j, b, d.mut_contents()),
                }
                x.contents[j] = b;
            }
            "overwrite"
        }
        6 => {
            let x = &mut slots[i];
            let n = x.contents.len().min(300);
            let fill = s.u8();
            for j in 0..n {
                x.contents[j] = fill ^ j as u8;
            }
            let c = x.contents.clone();
            match &mut x.real {
                Real::Der(d) => d.disassemble_mut().2.as_mut().copy_from_slice(&c),
                Real::Ber(d) => d.disassemble_mut().2.as_mut().copy_from_slice(&c),
            }
            "overwrite all"
        }
        7 => {
            let x = &mut slots[i];
            let (c, bits) = CLS[s.below(4)];
            let how = s.flag();
            match (&mut x.real, how) {
                (Real::Der(d), false) => d.mut_id().set_class(c),
                (Real::Der(d), true) => d.disassemble_mut().0.set_class(c),
                (Real::Ber(d), false) => d.mut_id().set_class(c),
                (Real::Ber(d), true) => d.disassemble_mut().0.set_class(c),
            }
            x.id[0] = x.id[0] & 0x3f | bits;
            "class"
        }
        8 => {
            let x = &mut slots[i];
            let cons = s.flag();
            let pc = if cons { PCTag::Constructed } else { PCTag::Primitive };
            match &mut x.real {
                Real::Der(d) => d.mut_id().set_pc(pc),
                Real::Ber(d) => d.mut_id().set_pc(pc),
            }
            x.id[0] = x.id[0] & 0xdf | if cons { 0x20 } else { 0 };
            "pc"
        }
        9 => {
            let c = slots[i].clone();
            if slots.len() < 4 {
                slots.push(c);
            } else {
                let j = s.below(slots.len());
                slots[j] = c;
            }
            "clone"
        }
        10 => {
            // into a vector and back
            let x = slots[i].clone();
            let room = s.below(80);
            let real = match x.real {
                Real::Der(d) => {
                    let mut v = d.into_vec();
                    ensure!(v == slots[i].octets(), "wrong-octets", "into_vec");
                    v.reserve(room);
                    Real::Der(unsafe { Der::from_vec_unchecked(v) })
                }
                Real::Ber(d) => {
                    let mut v = d.into_vec();
                    ensure!(v == slots[i].octets(), "wrong-octets", "into_vec");
                    v.reserve(room);
                    Real::Ber(unsafe { Ber::from_vec_unchecked(v) })
                }
            };
            slots[i].real = real;
            "through a vector"
        }
        11 => {
            // DER to BER and, if definite, back
            let x = slots[i].clone();
            slots[i].real = match x.real {
                Real::Der(d) => match s.below(3) {
                    0 => Real::Ber(Ber::from(d)),
                    1 => Real::Ber(Ber::from(&*d)),
                    _ => Real::Ber(Ber::from(<&BerRef>::from(&*d))),
                },
                Real::Ber(b) if !x.indef => Real::Der(unsafe { Der::from_vec_unchecked(b.into_vec()) }),
                r => r,
            };
            "convert"
        }
        12 => {
            // edit a borrowed value inside a larger buffer
            let x = &mut slots[i];
            if !x.indef && !x.contents.is_empty() {
                let tail = s.below(5);
                let mut v = x.octets();
                v.extend(vec![0x5a; tail]);
                let (c, bits) = CLS[s.below(4)];
                let j = s.below(x.contents.len());
                let b = s.u8();
                {
                    let mut r = &mut v[..];
                    match &mut x.real {
                        Real::Der(_) => {
                            let d = DerRef::parse_mut(&mut r).map_err(|e| engine::Fail::new("not-parsed", format!("{e:?}")))?;
                            d.mut_id().set_class(c);
                            d.mut_contents()[j] = b;
                            x.real = Real::Der(d.to_owned());
                        }
                        Real::Ber(_) => {
                            let d = BerRef::parse_mut(&mut r).map_err(|e| engine::Fail::new("not-parsed", format!("{e:?}")))?;
                            d.mut_id().set_class(c);
                            d.mut_contents()[j] = b;
                            x.real = Real::Ber(d.to_owned());
                        }
                    }
                    ensure_eq!(r.len(), tail, "not-consumed");
                }
                x.id[0] = x.id[0] & 0x3f | bits;
                x.contents[j] = b;
                let n = v.len() - tail;
                ensure!(v[..n] == x.octets() && v[n..].iter().all(|&o| o == 0x5a), "wrong-octets", "edited in a buffer");
            }
            "edit in a buffer"
        }
        _ => {
            let f = fresh(s);
            slots[i] = f;
            "replace"
        }
    };
    ctx.desc(|| format!("[{i}] {name} -> {} {}", engine::hex(&slots[i].id), slots[i].contents.len()));
    Ok((i, name))
}
fn write_at(how: usize, j: usize, b: u8, c: &mut ContentsRef) {
    match how {
        0 => c.as_mut()[j] = b,
        1 => c[j] = b,
        2 => c[j..].as_mut()[0] = b,
        _ => c[..j + 1].as_mut()[j] = b,
    }
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut slots = vec![fresh(s)];
    ctx.desc(|| format!("{} {} octets{}", engine::hex(&slots[0].id), slots[0].contents.len(), if slots[0].indef { " indefinite" } else { "" }));
    slots[0].check("building")?;
    let n = s.range(1, 14);
    let mut key = Vec::new();
    for _ in 0..n {
        let (i, name) = step(s, &mut slots, ctx)?;
        slots[i].check(name)?;
        key.extend([i as u8, name.len() as u8, name.as_bytes()[0]]);
        key.extend((slots[i].contents.len() as u32).to_le_bytes());
        // edits of one never show in another
        for (j, x) in slots.iter().enumerate() {
            if j != i {
                x.check("editing another")?;
            }
        }
    }
    for x in &slots {
        x.rebuilt()?;
    }
    ctx.label_if(slots.len() > 1, "several values");
    ctx.label_if(slots.iter().any(|x| x.indef), "indefinite");
    if n >= 2 {
        ctx.nontrivial(&key);
    }
    Ok(())
}
fn main() {
    engine::main(Property {
        id: "P09",
        rule: "histories of at least two edits; distinct by operations and resulting sizes",
        case,
        fixed: engine::no_fixed,
        quick: 600_000,
        thorough: 6_000_000,
    })
}
