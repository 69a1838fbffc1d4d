//! P10: memory under generated usage histories, with a checking allocator.
use bsn1::{Ber, BerRef, ClassTag, Contents, ContentsRef, Der, DerRef, Id, IdRef, PCTag};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use vh::engine::guarded;
use vh::{engine, ensure, gen, guard, io, model, Ctx, Fail, Property, Src, R};

#[global_allocator]
static ALLOC: guard::GuardAlloc = guard::GuardAlloc;

#[derive(Clone)]
enum Real {
    Der(Der),
    Ber(Ber),
    Id(Id),
    Contents(Contents),
    Vec(Vec<u8>),
}
#[derive(Clone)]
struct Slot {
    real: Real,
    id: Vec<u8>,
    indef: bool,
    contents: Vec<u8>,
}
impl Slot {
    fn octets(&self) -> Vec<u8> {
        match &self.real {
            Real::Id(_) => self.id.clone(),
            Real::Contents(_) => self.contents.clone(),
            _ if self.indef => [&self.id[..], &[0x80], &self.contents].concat(),
            _ => model::tlv(&self.id, &self.contents),
        }
    }
    fn check(&self, what: &str) -> R {
        let want = self.octets();
        let got: &[u8] = match &self.real {
            Real::Der(d) => d.as_ref(),
            Real::Ber(d) => d.as_ref(),
            Real::Id(d) => d.as_ref(),
            Real::Contents(d) => d.as_ref(),
            Real::Vec(d) => d,
        };
        ensure!(got == want, "wrong-octets", "after {what}: {} instead of {}", engine::hexs(got), engine::hexs(&want));
        Ok(())
    }
}
/// Yields fragments; another list once it has been traversed `after` times.
#[derive(Clone)]
struct Shifty {
    lists: Rc<[Vec<Vec<u8>>; 2]>,
    used: Rc<Cell<usize>>,
    after: usize,
    which: Option<usize>,
    at: usize,
}
impl Iterator for Shifty {
    type Item = Vec<u8>;
    fn next(&mut self) -> Option<Vec<u8>> {
        let which = *self.which.get_or_insert_with(|| {
            let n = self.used.get();
            self.used.set(n + 1);
            (n >= self.after) as usize
        });
        let r = self.lists[which].get(self.at).cloned();
        self.at += 1;
        r
    }
}
/// A fragment whose octets change each time they are asked for.
struct Fickle {
    a: Vec<u8>,
    b: Vec<u8>,
    asked: Cell<usize>,
}
impl AsRef<[u8]> for Fickle {
    fn as_ref(&self) -> &[u8] {
        self.asked.set(self.asked.get() + 1);
        if self.asked.get() % 2 == 1 {
            &self.a
        } else {
            &self.b
        }
    }
}
fn frags(s: &mut Src) -> Vec<Vec<u8>> {
    let n = s.below(4);
    (0..n)
        .map(|_| {
            let n = gen::size(s, false).min(140);
            let b = s.u8();
            vec![b; n]
        })
        .collect()
}
fn fresh(s: &mut Src) -> Result<Slot, Fail> {
    let id = gen::id(s);
    let contents = gen::contents(s, s_big());
    let r = unsafe { IdRef::from_bytes_unchecked(&id) };
    let c = <&ContentsRef>::from(&contents[..]);
    let tlv = model::tlv(&id, &contents);
    let mut indef = false;
    let real = match s.below(16) {
        0 => Real::Der(Der::new(r, c)),
        1 => Real::Ber(Ber::new(r, c)),
        2 => {
            let mut v = tlv.clone();
            v.reserve(s.below(100));
            Real::Der(unsafe { Der::from_vec_unchecked(v) })
        }
        3 => {
            let mut v = tlv.clone();
            v.shrink_to_fit();
            Real::Ber(unsafe { Ber::from_vec_unchecked(v) })
        }
        4 => Real::Der(Der::parse(&mut &tlv[..]).map_err(|e| Fail::new("not-parsed", format!("{e:?}")))?),
        5 => {
            let st = gen::steps(s);
            Real::Ber(Ber::parse(&mut io::SchedReader::new(&tlv, &st)).map_err(|e| Fail::new("not-parsed", format!("{e:?}")))?)
        }
        6 => {
            let mut d = Der::with_id_length(r, contents.len());
            d.mut_contents().as_mut().copy_from_slice(&contents);
            Real::Der(d)
        }
        7 => {
            indef = true;
            let mut d = unsafe { Ber::with_id_length_indefinite(r, contents.len()) };
            d.mut_contents().as_mut().copy_from_slice(&contents);
            Real::Ber(d)
        }
        8 => {
            indef = true;
            Real::Ber(unsafe { Ber::new_indefinite(r, c) })
        }
        9 => {
            let cut = s.below(contents.len() + 1);
            Real::Der(Der::from_id_iterator(r, [&contents[..cut], &contents[cut..]].iter()))
        }
        10 => {
            indef = true;
            let cut = s.below(contents.len() + 1);
            Real::Ber(unsafe { Ber::from_id_iterator_indefinite(r, [&contents[..cut], &contents[cut..]].iter()) })
        }
        11 => Real::Id(Id::from(r)),
        12 => {
            let mut v = contents.clone();
            v.reserve(s.below(40));
            Real::Contents(Contents::from(v))
        }
        13 => Real::Contents(Contents::from(c)),
        14 => Real::Id(Id::parse(&mut &id[..]).map_err(|e| Fail::new("not-parsed", format!("{e:?}")))?),
        _ => {
            let mut v = tlv.clone();
            v.reserve(s.below(40));
            Real::Vec(v)
        }
    };
    Ok(Slot { real, id, indef, contents })
}
fn s_big() -> bool {
    true
}
fn target(s: &mut Src, now: usize) -> usize {
    match s.weighted(&[8, 4, 4, 4, 3, 3, 1]) {
        0 => s.range(0, 40),
        1 => s.range(15, 26),
        2 => s.range(125, 131),
        3 => s.range(253, 259),
        4 => now.saturating_sub(s.below(3)),
        5 => now + s.below(3),
        _ if gen::SLOW => s.range(0, 300),
        _ => s.range(65533, 65539),
    }
}
const OPS: [&str; 20] = [
    "push", "extend", "truncate", "clone", "clone_from", "into vector", "from vector", "convert", "owned of borrowed", "drop",
    "new", "overwrite", "set number", "class", "move", "failed parse", "changing list", "changing fragment", "serde", "errors",
];
fn step(s: &mut Src, slots: &mut Vec<Slot>, op: usize) -> R {
    let i = s.below(slots.len());
    match op {
        0 | 1 => {
            let x = &mut slots[i];
            let t = target(s, x.contents.len());
            let add = if op == 0 { 1 } else { t.saturating_sub(x.contents.len()) };
            let fill = s.u8();
            let bytes: Vec<u8> = (0..add).map(|j| fill.wrapping_add(j as u8)).collect();
            match (&mut x.real, op) {
                (Real::Der(d), 0) => d.push(fill),
                (Real::Ber(d), 0) => d.push(fill),
                (Real::Der(d), _) => d.extend_from_slice(&bytes),
                (Real::Ber(d), _) => d.extend_from_slice(&bytes),
                _ => return Ok(()),
            }
            x.contents.extend(&bytes);
        }
        2 => {
            let x = &mut slots[i];
            let t = target(s, x.contents.len());
            match &mut x.real {
                Real::Der(d) => d.truncate(t),
                Real::Ber(d) => d.truncate(t),
                _ => return Ok(()),
            }
            x.contents.truncate(t);
        }
        3 => {
            let c = slots[i].clone();
            if slots.len() < 6 {
                slots.push(c);
            } else {
                slots[0] = c;
            }
        }
        4 => {
            let j = s.below(slots.len());
            if i != j {
                let from = slots[j].clone();
                let x = &mut slots[i];
                match (&mut x.real, &from.real) {
                    (Real::Der(a), Real::Der(b)) => a.clone_from(b),
                    (Real::Ber(a), Real::Ber(b)) => a.clone_from(b),
                    (Real::Id(a), Real::Id(b)) => a.clone_from(b),
                    (Real::Contents(a), Real::Contents(b)) => a.clone_from(b),
                    (a, b) => *a = b.clone(),
                }
                x.id = from.id.clone();
                x.indef = from.indef;
                x.contents = from.contents.clone();
            }
        }
        5 => {
            let x = slots.swap_remove(i);
            let want = x.octets();
            let real = match x.real {
                Real::Der(d) => Real::Vec(d.into_vec()),
                Real::Ber(d) => Real::Vec(d.into_vec()),
                r => r,
            };
            if let Real::Vec(v) = &real {
                ensure!(*v == want, "wrong-octets", "into_vec: {} instead of {}", engine::hexs(v), engine::hexs(&want));
                ensure!(v.capacity() >= v.len(), "wrong-capacity", "{} of {}", v.len(), v.capacity());
            }
            slots.push(Slot { real, ..x });
        }
        6 => {
            let grow = s.below(50);
            let shrink = s.flag();
            let x = slots.swap_remove(i);
            let real = match x.real {
                Real::Vec(mut v) => {
                    if shrink {
                        v.shrink_to_fit();
                    } else {
                        v.reserve(grow);
                    }
                    if s.flag() && !x.indef {
                        Real::Der(unsafe { Der::from_vec_unchecked(v) })
                    } else {
                        Real::Ber(unsafe { Ber::from_vec_unchecked(v) })
                    }
                }
                r => r,
            };
            slots.push(Slot { real, ..x });
        }
        7 => {
            let x = slots.swap_remove(i);
            let real = match x.real {
                Real::Der(d) => Real::Ber(Ber::from(d)),
                r => r,
            };
            slots.push(Slot { real, ..x });
        }
        8 => {
            let x = &slots[i];
            let real = match &x.real {
                Real::Der(d) => match s.below(3) {
                    0 => Real::Der(Der::from(&**d)),
                    1 => Real::Ber(Ber::from(&**d)),
                    _ => Real::Ber(<&BerRef>::from(&**d).to_owned()),
                },
                Real::Ber(d) => Real::Ber(Ber::from(&**d)),
                Real::Id(d) => Real::Id(IdRef::to_owned(d)),
                Real::Contents(d) => Real::Contents(ContentsRef::to_owned(d)),
                Real::Vec(v) if x.indef => Real::Ber(unsafe { Ber::from_bytes_unchecked(v) }),
                Real::Vec(v) => Real::Der(unsafe { Der::from_bytes_unchecked(v) }),
            };
            slots[i].real = real;
        }
        9 => {
            if slots.len() > 1 {
                slots.swap_remove(i);
            }
        }
        10 => {
            let f = fresh(s)?;
            if slots.len() < 6 {
                slots.push(f);
            } else {
                slots[i] = f;
            }
        }
        11 => {
            let x = &mut slots[i];
            let n = x.contents.len();
            if n > 0 && !matches!(x.real, Real::Id(_)) {
                let (a, b) = (s.below(n), s.u8());
                for o in x.contents[a..].iter_mut() {
                    *o ^= b;
                }
                let c = x.contents.clone();
                match &mut x.real {
                    Real::Der(d) => d.mut_contents().as_mut().copy_from_slice(&c),
                    Real::Ber(d) => d.mut_contents().as_mut().copy_from_slice(&c),
                    Real::Contents(d) => AsMut::<[u8]>::as_mut(d).copy_from_slice(&c),
                    Real::Vec(v) => {
                        let k = v.len() - n;
                        v[k..].copy_from_slice(&c);
                    }
                    _ => {}
                }
            }
        }
        12 => {
            let x = &mut slots[i];
            if let Real::Id(d) = &mut x.real {
                let num = gen::tag_number(s);
                d.set_number(num.into());
                x.id = model::encode_id(x.id[0] & 0xc0, x.id[0] & 0x20 != 0, num);
            }
        }
        13 => {
            let x = &mut slots[i];
            match &mut x.real {
                Real::Der(d) => d.mut_id().set_class(ClassTag::Private),
                Real::Ber(d) => d.mut_id().set_class(ClassTag::Private),
                Real::Id(d) => {
                    d.set_class(ClassTag::Private);
                    d.set_pc(PCTag::Constructed);
                    x.id[0] |= 0x20;
                }
                _ => return Ok(()),
            }
            x.id[0] |= 0xc0;
        }
        14 => {
            // through boxes, options and other containers
            let x = slots.swap_remove(i);
            let b = Box::new(Some(x));
            let mut v: Vec<Option<Slot>> = Vec::with_capacity(1);
            v.push(*b);
            v.push(None);
            slots.insert(0, v.swap_remove(0).unwrap());
            let j = s.below(slots.len());
            slots.swap(0, j);
        }
        15 => {
            let tlv = slots[i].octets();
            let st = gen::steps(s);
            let at = s.below(tlv.len() + 1);
            let fail = s.flag();
            for ber in [false, true] {
                let mut r = if fail {
                    io::SchedReader::failing(&tlv, &st, at, std::io::ErrorKind::Other)
                } else {
                    io::SchedReader::new(&tlv[..at], &st)
                };
                if ber {
                    let _ = Ber::parse(&mut r);
                } else {
                    let _ = Der::parse(&mut r);
                }
            }
            let mut noise = tlv;
            gen::mutate(s, &mut noise);
            let _ = Der::parse(&mut &noise[..]);
            let _ = Ber::parse(&mut &noise[..]);
            let _ = Id::parse(&mut &noise[..]);
            let _ = DerRef::parse(&mut &noise[..]).map(|d| d.to_owned());
            let _ = bsn1_serde::read_ber::<_, Vec<HashMap<String, Vec<i32>>>>(&mut &noise[..]);
            let _ = bsn1_serde::read_der::<_, HashSet<String>>(&mut &noise[..]);
        }
        16 | 17 => {
            let id = gen::id(s);
            let r = unsafe { IdRef::from_bytes_unchecked(&id) };
            let (a, b) = (frags(s), frags(s));
            let after = s.below(4);
            let route = s.below(3);
            // The promise: no corruption. Refusing by a panic is fine.
            let _ = guarded(|| {
                let mut out: Vec<Vec<u8>> = Vec::new();
                if op == 16 {
                    let it = Shifty { lists: Rc::new([a.clone(), b.clone()]), used: Rc::new(Cell::new(0)), after, which: None, at: 0 };
                    out.push(match route {
                        0 => Der::from_id_iterator(r, it).into_vec(),
                        1 => Ber::from_id_iterator(r, it).into_vec(),
                        _ => unsafe { Ber::from_id_iterator_indefinite(r, it).into_vec() },
                    });
                } else {
                    let list: Vec<Fickle> = a
                        .iter()
                        .zip(b.iter())
                        .map(|(a, b)| Fickle { a: a.clone(), b: b.clone(), asked: Cell::new(after) })
                        .collect();
                    out.push(match route {
                        0 => Der::from_id_iterator(r, list.iter()).into_vec(),
                        1 => Ber::from_id_iterator(r, list.iter()).into_vec(),
                        _ => unsafe { Ber::from_id_iterator_indefinite(r, list.iter()).into_vec() },
                    });
                }
                drop(out);
            });
        }
        18 => {
            let keep = |e: bsn1::Error| Fail::new("serde", format!("{e:?}"));
            let v: BTreeMap<i32, Vec<String>> = vh::values::Gen::gen(s, 4);
            let d = bsn1_serde::to_der(&v).map_err(keep)?;
            let b = bsn1_serde::to_ber(&v).map_err(keep)?;
            ensure!(d.as_ref() as &[u8] == b.as_ref() as &[u8], "serde", "{d:?} {b:?}");
            let w: BTreeMap<i32, Vec<String>> = bsn1_serde::from_der(&d).map_err(keep)?;
            ensure!(v == w, "serde", "{v:?} {w:?}");
            let h: HashMap<i32, Vec<String>> = v.into_iter().collect();
            let d = bsn1_serde::to_der(&h).map_err(keep)?;
            let w: HashMap<i32, Vec<String>> = bsn1_serde::from_ber(<&BerRef>::from(&*d)).map_err(keep)?;
            ensure!(h == w, "serde", "{h:?} {w:?}");
            let o: bsn1_serde::OctetString<'static> = vh::values::Gen::gen(s, 4);
            let d = bsn1_serde::to_der(&o).map_err(keep)?;
            let w: bsn1_serde::OctetString = bsn1_serde::from_der(&d).map_err(keep)?;
            ensure!(o == w && w.clone() == w, "serde", "{o:?}");
            ensure!(o.clone().into_vec() == w.into_vec(), "serde", "{o:?}");
        }
        _ => {
            let n = s.below(4);
            let mut e = if s.flag() { bsn1::Error::OverFlow } else { std::io::Error::new(std::io::ErrorKind::Other, "x").into() };
            for k in 0..n {
                e = e.context(format!("layer {k}"));
            }
            let _ = e.root_cause();
            let _ = format!("{e} {e:?}");
            if s.flag() {
                drop(e.into_anyhow());
            }
        }
    }
    Ok(())
}
#[derive(Default)]
struct Seen {
    ops: u32,
    key: u64,
    n: usize,
    heap: bool,
}
fn history(s: &mut Src, seen: &mut Seen) -> R {
    let mut slots = Vec::with_capacity(8);
    slots.push(fresh(s)?);
    let n = s.range(1, 16);
    for _ in 0..n {
        let op = s.below(OPS.len());
        step(s, &mut slots, op)?;
        seen.ops |= 1 << op;
        seen.n += 1;
        for x in &slots {
            x.check(OPS[op])?;
            seen.heap |= x.contents.len() > 30;
            seen.key = engine::mix(&[seen.key, op as u64, x.contents.len() as u64]);
        }
        if let Some(e) = guard::take_error() {
            return Err(Fail::new("memory", format!("{e}, in {}", OPS[op])));
        }
    }
    Ok(())
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let _ = guard::take_error();
    // reserve so that recording choices does not count
    if s.data.capacity() < 1 << 17 {
        s.data.reserve(1 << 17);
    }
    let before = guard::live_blocks();
    let mut seen = Seen::default();
    let r = guarded(|| history(s, &mut seen)).and_then(|r| r);
    let mut left = guard::live_blocks().saturating_sub(before);
    if left > 0 && r.is_ok() {
        // A cache filled for the first time does not grow again, a leak does.
        let choices = s.data[..s.used()].to_vec();
        let mut again = Src::replay(&choices);
        let before = guard::live_blocks();
        let _ = guarded(|| history(&mut again, &mut Seen::default()));
        left = guard::live_blocks().saturating_sub(before);
    }
    if let Some(e) = guard::take_error() {
        return Err(Fail::new("memory", format!("{e}, when dropped")));
    }
    r?;
    ensure!(left == 0, "leak", "{left} memory blocks left behind");
    for (i, o) in OPS.iter().enumerate() {
        ctx.label_if(seen.ops >> i & 1 == 1, o);
    }
    ctx.label_if(seen.heap, "heap storage");
    ctx.desc(|| {
        let names: Vec<&str> = (0..OPS.len()).filter(|i| seen.ops >> i & 1 == 1).map(|i| OPS[i]).collect();
        format!("{} operations among: {}", seen.n, names.join(", "))
    });
    if seen.n >= 3 {
        ctx.nontrivial_hash(seen.key);
    }
    Ok(())
}
fn main() {
    engine::main(Property {
        id: "P10",
        rule: "histories of at least three operations; distinct by operations and sizes of the live values",
        case,
        fixed: engine::no_fixed,
        quick: 40_000,
        thorough: 2_000_000,
    })
}
