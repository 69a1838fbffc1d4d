//! P25: operations do not disturb each other, in one thread or in several.
use bsn1::{Ber, BerRef, ClassTag, Contents, ContentsRef, Der, DerRef, Error, Id, IdRef};
use bsn1_serde::OctetString;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::{Barrier, Mutex};
use vh::derived::{Ch, Conv, Outer, Rec, Thin};
use vh::engine::guarded;
use vh::values::{Gen, NoLen};
use vh::{engine, ensure, ensure_eq, gen, io, model, Ctx, Fail, Property, Src, R};

/// A value of the library together with the octets it has to consist of.
#[derive(Clone)]
enum Real {
    Der(Der, Vec<u8>, Vec<u8>),
    Ber(Ber, Vec<u8>, Vec<u8>),
    Id(Id, Vec<u8>),
    Contents(Contents, Vec<u8>),
}
fn digest<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
impl Real {
    fn new(s: &mut Src) -> Self {
        let id = gen::id(s);
        let n = gen::size(s, false).min(300);
        let c = gen::octets_of(s, n);
        let i = unsafe { IdRef::from_bytes_unchecked(&id) };
        let r = <&ContentsRef>::from(&c[..]);
        match s.below(6) {
            0 => Real::Der(Der::new(i, r), id, c),
            1 => Real::Ber(Ber::new(i, r), id, c),
            2 => {
                let mut v = model::tlv(&id, &c);
                v.reserve(s.below(60));
                Real::Der(unsafe { Der::from_vec_unchecked(v) }, id, c)
            }
            3 => Real::Id(Id::from(i), id),
            4 => Real::Contents(Contents::from(&c[..]), c),
            _ => Real::Contents(Contents::from(c.clone()), c),
        }
    }
    fn octets(&self) -> &[u8] {
        match self {
            Real::Der(d, ..) => d.as_ref(),
            Real::Ber(d, ..) => d.as_ref(),
            Real::Id(d, _) => d.as_ref(),
            Real::Contents(d, _) => d.as_ref(),
        }
    }
    fn check(&self, what: &str) -> R {
        let want = match self {
            Real::Der(_, i, c) | Real::Ber(_, i, c) => model::tlv(i, c),
            Real::Id(_, o) | Real::Contents(_, o) => o.clone(),
        };
        ensure_eq!(self.octets(), &want[..], "octets", "{what}");
        match self {
            Real::Der(d, i, c) => {
                ensure!(d.id().as_ref() as &[u8] == i && d.contents().as_ref() as &[u8] == c, "octets", "{what}: parts of {d:?}");
                ensure_eq!(d.length().definite(), Some(c.len()), "octets", "{what}: length");
            }
            Real::Ber(d, i, c) => {
                ensure!(d.id().as_ref() as &[u8] == i && d.contents().as_ref() as &[u8] == c, "octets", "{what}: parts of {d:?}");
                ensure_eq!(d.length().definite(), Some(c.len()), "octets", "{what}: length");
            }
            _ => {}
        }
        Ok(())
    }
    fn same(&self, o: &Real) -> R {
        let (eq, hash) = match (self, o) {
            (Real::Der(a, ..), Real::Der(b, ..)) => (a == b, digest(a) == digest(&**b)),
            (Real::Ber(a, ..), Real::Ber(b, ..)) => (a == b, digest(a) == digest(&**b)),
            (Real::Id(a, _), Real::Id(b, _)) => (a == b && a.cmp(b).is_eq(), digest(a) == digest(&**b)),
            (Real::Contents(a, _), Real::Contents(b, _)) => (a == b, digest(a) == digest(&**b)),
            _ => (true, true),
        };
        ensure!(eq && hash, "equality", "a clone is equal: {eq}, hashes alike: {hash}");
        Ok(())
    }
    /// Changes the value and what it has to be.
    fn edit(&mut self, how: u8, more: &[u8]) {
        match self {
            Real::Der(d, i, c) => match how % 4 {
                0 => {
                    d.extend_from_slice(more);
                    c.extend(more);
                }
                1 => {
                    d.push(how);
                    c.push(how);
                }
                2 => {
                    d.truncate(more.len());
                    c.truncate(more.len());
                }
                _ => {
                    d.mut_id().set_class(ClassTag::Private);
                    i[0] |= 0xc0;
                }
            },
            Real::Ber(d, i, c) => match how % 4 {
                0 => {
                    d.extend_from_slice(more);
                    c.extend(more);
                }
                1 => {
                    d.push(how);
                    c.push(how);
                }
                2 => {
                    d.truncate(more.len());
                    c.truncate(more.len());
                }
                _ => {
                    d.mut_id().set_class(ClassTag::Private);
                    i[0] |= 0xc0;
                }
            },
            Real::Id(d, o) => {
                d.set_class(ClassTag::Private);
                o[0] |= 0xc0;
            }
            Real::Contents(d, o) => {
                if let Some(b) = AsMut::<[u8]>::as_mut(&mut **d).first_mut() {
                    *b = how;
                    o[0] = how;
                }
            }
        }
    }
}
/// A typed value, its encoding, and what to do with them.
trait Work: Send + Sync {
    fn write(&self, how: u8) -> R;
    fn read(&self, how: u8) -> R;
    fn name(&self) -> String;
    fn key(&self) -> &[u8];
}
struct Typed<T> {
    v: T,
    der: Vec<u8>,
    ber: Vec<u8>,
}
impl<T: Gen + Send + Sync> Work for Typed<T> {
    fn write(&self, how: u8) -> R {
        let failed = |e: Error| Fail::new("not-written", format!("{}: {e:?}", T::name()));
        match how % 5 {
            0 => {
                let d = bsn1_serde::to_der(&self.v).map_err(failed)?;
                ensure_eq!(d.as_ref() as &[u8], &self.der[..], "encoding", "{}", T::name());
            }
            1 => {
                let d = bsn1_serde::to_ber(&self.v).map_err(failed)?;
                ensure_eq!(d.as_ref() as &[u8], &self.der[..], "encoding", "{}", T::name());
            }
            2 | 3 => {
                let mut o = Vec::new();
                bsn1_serde::write_der(&self.v, &mut o).map_err(failed)?;
                ensure_eq!(o, self.der, "encoding", "{}", T::name());
            }
            _ => {
                // a sink which has room for a part only
                let mut o = vec![0; self.der.len() * (how as usize >> 3) / 32];
                let room = o.len();
                let r = bsn1_serde::write_der(&self.v, &mut &mut o[..]);
                ensure!(r.is_err(), "encoding", "{} octets written into {room} as {}", self.der.len(), T::name());
            }
        }
        Ok(())
    }
    fn read(&self, how: u8) -> R {
        let got: Result<T, Error> = match how % 6 {
            0 => bsn1_serde::parse_der(&mut &self.der[..]),
            1 => bsn1_serde::parse_ber(&mut &self.ber[..]),
            2 => bsn1_serde::read_der(&mut &self.der[..]),
            3 => bsn1_serde::read_ber(&mut io::SchedReader::new(&self.ber, &[io::Step::Max(1 + how as usize / 16)])),
            4 => bsn1_serde::from_der(unsafe { DerRef::from_bytes_unchecked(&self.der) }),
            _ => {
                let n = self.der.len() * (how as usize >> 3) / 32;
                let r = bsn1_serde::read_der::<_, T>(&mut &self.der[..n]);
                ensure!(r.is_err(), "value", "{} from {n} of {} octets", T::name(), self.der.len());
                return Ok(());
            }
        };
        match got {
            Ok(v) => ensure!(v == self.v, "value", "{}: {v:?} instead of {:?}", T::name(), self.v),
            Err(e) => return Err(Fail::new("value", format!("{}: {e:?} from {}", T::name(), engine::hexs(&self.der)))),
        }
        Ok(())
    }
    fn name(&self) -> String {
        T::name()
    }
    fn key(&self) -> &[u8] {
        &self.der
    }
}
fn typed<T: Gen + Send + Sync>(s: &mut Src) -> Box<dyn Work> {
    let v = T::gen(s, if gen::SLOW { 2 } else { 4 });
    let m = v.model();
    let der = m.der();
    let ber = m.ber(&mut || s.chance(80), &mut 0);
    Box::new(Typed { v, der, ber })
}
fn some_type(s: &mut Src) -> Box<dyn Work> {
    match s.below(22) {
        0 => typed::<i64>(s),
        1 => typed::<String>(s),
        2 => typed::<OctetString<'static>>(s),
        3 => typed::<Vec<i32>>(s),
        4 => typed::<LinkedList<String>>(s),
        5 => typed::<VecDeque<Vec<u8>>>(s),
        6 => typed::<BTreeSet<i16>>(s),
        7 => typed::<HashSet<i32>>(s),
        8 => typed::<HashSet<String>>(s),
        9 => typed::<BTreeMap<i32, String>>(s),
        10 => typed::<HashMap<i32, String>>(s),
        11 => typed::<HashMap<String, HashSet<u8>>>(s),
        12 => typed::<Vec<HashMap<u8, Vec<bool>>>>(s),
        13 => typed::<Rec>(s),
        14 => typed::<Ch>(s),
        15 => typed::<Conv>(s),
        16 => typed::<Outer<HashSet<Ch>>>(s),
        17 => typed::<NoLen<String, 0>>(s),
        18 => typed::<Vec<NoLen<i32, 2>>>(s),
        19 => typed::<HashMap<i32, NoLen<String, 0>>>(s),
        20 => typed::<BTreeMap<NoLen<u8, 1>, NoLen<Vec<u8>, 2>>>(s),
        _ => typed::<BTreeMap<Thin<u8>, u128>>(s),
    }
}
#[derive(Debug, Clone)]
enum Op {
    /// look at a shared value, clone it and drop the clone
    Look(usize),
    /// edit a clone of a shared value
    Edit(usize, u8, Vec<u8>),
    /// give a clone to another thread
    Give(usize, usize),
    Write(usize, u8),
    Read(usize, u8),
    /// parse the octets of a shared value, or some of them
    Parse(usize, u8),
    Layers(u8),
}
fn op(s: &mut Src, reals: usize, works: usize, threads: usize) -> Op {
    match s.below(14) {
        0 | 1 => Op::Look(s.below(reals)),
        2 | 3 => {
            let n = s.below(40);
            Op::Edit(s.below(reals), s.u8(), s.bytes(n))
        }
        4 => Op::Give(s.below(reals), s.below(threads)),
        5..=8 => Op::Write(s.below(works), s.u8()),
        9..=11 => Op::Read(s.below(works), s.u8()),
        12 => Op::Parse(s.below(reals), s.u8()),
        _ => Op::Layers(s.u8()),
    }
}
struct World {
    reals: Vec<Real>,
    works: Vec<Box<dyn Work>>,
    boxes: Vec<Mutex<Vec<Real>>>,
}
impl World {
    fn run(&self, me: usize, op: &Op) -> R {
        let got = self.boxes[me].lock().unwrap().pop();
        if let Some(mut r) = got {
            r.check("from another thread")?;
            r.edit(me as u8, &[1, 2, 3]);
            r.check("edited, from another thread")?;
        }
        match op {
            Op::Look(i) => {
                let r = &self.reals[*i];
                r.check("shared")?;
                let c = r.clone();
                c.check("clone")?;
                c.same(r)?;
                drop(c);
                r.check("shared, after its clone was dropped")
            }
            Op::Edit(i, how, more) => {
                let r = &self.reals[*i];
                let mut c = r.clone();
                c.edit(*how, more);
                c.check("edited clone")?;
                drop(c);
                r.check("shared, after its clone was edited")
            }
            Op::Give(i, to) => {
                self.boxes[*to].lock().unwrap().push(self.reals[*i].clone());
                Ok(())
            }
            Op::Write(i, how) => self.works[*i].write(*how),
            Op::Read(i, how) => self.works[*i].read(*how),
            Op::Parse(i, how) => {
                let (Real::Der(_, id, c) | Real::Ber(_, id, c)) = &self.reals[*i] else { return Ok(()) };
                if id[..] == [0] {
                    return Ok(()); // an end-of-contents marker
                }
                let o = self.reals[*i].octets();
                let part = &o[..o.len() * (*how as usize >> 3) / 32];
                let shown = match how % 4 {
                    0 => Der::parse(&mut &o[..]).map(|d| Real::Der(d, id.clone(), c.clone())),
                    1 => Ber::parse(&mut &o[..]).map(|d| Real::Ber(d, id.clone(), c.clone())),
                    2 => DerRef::parse(&mut &o[..]).map(|d| Real::Der(d.to_owned(), id.clone(), c.clone())),
                    _ => BerRef::parse(&mut &o[..]).map(|d| Real::Ber(d.to_owned(), id.clone(), c.clone())),
                };
                match shown {
                    Ok(r) => r.check("parsed")?,
                    Err(e) => return Err(Fail::new("parse", format!("{e:?} from {}", engine::hexs(o)))),
                }
                let cut = match how % 2 {
                    0 => Der::parse(&mut &part[..]).err(),
                    _ => Ber::parse(&mut &part[..]).err(),
                };
                ensure!(cut.is_some_and(|e| *e.root_cause() == Error::UnterminatedBytes), "parse", "{} is cut", engine::hexs(part));
                Ok(())
            }
            Op::Layers(n) => {
                let mut e = Error::UnmatchedId;
                for i in 0..n % 8 {
                    e = e.context(format!("layer {i} of {n}"));
                }
                ensure!(*e.root_cause() == Error::UnmatchedId, "layers", "{e:?}");
                let want = if n % 8 == 0 { e.to_string() } else { format!("layer {} of {n}", n % 8 - 1) };
                ensure_eq!(e.to_string(), want, "layers");
                Ok(())
            }
        }
    }
}
/// Not to be compiled if a type may not be shared or given away.
fn shareable<T: Send + Sync + ?Sized>() {}
fn all_shareable() {
    shareable::<Error>();
    shareable::<(Id, Contents, Der, Ber, bsn1::Length)>();
    shareable::<(&IdRef, &ContentsRef, &DerRef, &BerRef)>();
    shareable::<OctetString<'static>>();
}
fn rounds() -> usize {
    static ROUNDS: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *ROUNDS.get_or_init(|| match std::env::args().nth(1).as_deref() {
        _ if gen::SLOW => 1,
        // one saved case: how threads meet differs from time to time
        Some("one") => 300,
        _ => 3,
    })
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let threads = s.range(1, 4);
    let reals: Vec<Real> = (0..s.range(1, 3)).map(|_| Real::new(s)).collect();
    let works: Vec<Box<dyn Work>> = (0..s.range(1, 3)).map(|_| some_type(s)).collect();
    let most = if gen::SLOW { 5 } else { 10 };
    let programs: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            let n = s.range(1, most);
            (0..n).map(|_| op(s, reals.len(), works.len(), threads)).collect()
        })
        .collect();
    ctx.desc(|| {
        let names: Vec<String> = works.iter().map(|w| w.name()).collect();
        format!("shared {names:?}; threads {programs:?}")
    });
    ctx.label(match threads {
        1 => "one thread",
        2 => "two threads",
        _ => "three or four threads",
    });
    let ops: usize = programs.iter().map(|p| p.len()).sum();
    if ops > 1 {
        for w in &works {
            ctx.nontrivial(w.key());
        }
        ctx.nontrivial(format!("{programs:?}").as_bytes());
    }
    let world = World { reals, works, boxes: (0..threads).map(|_| Mutex::new(Vec::new())).collect() };
    if threads == 1 {
        for o in &programs[0] {
            world.run(0, o)?;
        }
    } else {
        for _ in 0..rounds() {
            let start = Barrier::new(threads);
            let results: Vec<R> = std::thread::scope(|scope| {
                let hands: Vec<_> = programs
                    .iter()
                    .enumerate()
                    .map(|(me, p)| {
                        let (world, start) = (&world, &start);
                        scope.spawn(move || -> R {
                            start.wait();
                            guarded(|| {
                                for o in p {
                                    world.run(me, o)?;
                                }
                                Ok(())
                            })
                            .and_then(|r| r)
                        })
                    })
                    .collect();
                hands.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for r in results {
                r?;
            }
        }
    }
    for r in &world.reals {
        r.check("shared, at the end")?;
    }
    Ok(())
}
fn main() {
    all_shareable();
    engine::main(Property {
        id: "P25",
        rule: "two or more operations in all; distinct by shared typed values and programs",
        case,
        fixed: engine::no_fixed,
        quick: 20_000,
        thorough: 600_000,
    })
}
