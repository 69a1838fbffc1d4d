//! Entropy source, case runner, shrinker, statistics and the worker process.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Why a case failed. `kind` is stable while shrinking.
#[derive(Debug, Clone, PartialEq)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
impl Fail {
    pub fn new(kind: impl Into<String>, msg: impl Into<String>) -> Self {
        let mut msg = msg.into();
        if let Some((i, _)) = msg.char_indices().nth(8000) {
            msg.truncate(i);
        }
        Fail { kind: kind.into(), msg }
    }
}
pub type R = Result<(), Fail>;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}
pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x5bd1_e995);
    for &p in parts {
        r.0 ^= p.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        r.0 = r.next();
    }
    r.next()
}
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (bytes.len() as u64);
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

/// Where the choices of a case come from: random octets (recorded) or recorded ones.
pub struct Src {
    rng: Option<(Rng, u64, u32)>,
    pub data: Vec<u8>,
    pos: usize,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some((Rng::new(seed), 0, 0)), data: Vec::with_capacity(4096), pos: 0 }
    }
    pub fn replay(data: &[u8]) -> Self {
        Src { rng: None, data: data.to_vec(), pos: 0 }
    }
    /// Starts with the recorded octets and goes on at random.
    pub fn prefixed(data: &[u8], seed: u64) -> Self {
        Src { rng: Some((Rng::new(seed), 0, 0)), data: data.to_vec(), pos: 0 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    pub fn u8(&mut self) -> u8 {
        if self.pos < self.data.len() {
            self.pos += 1;
            return self.data[self.pos - 1];
        }
        self.pos += 1;
        match &mut self.rng {
            None => 0,
            Some((rng, word, left)) => {
                if *left == 0 {
                    *word = rng.next();
                    *left = 8;
                }
                let b = *word as u8;
                *word >>= 8;
                *left -= 1;
                self.data.push(b);
                b
            }
        }
    }
    fn uint(&mut self, n: u32) -> u64 {
        let mut v = 0u64;
        for _ in 0..n {
            v = v << 8 | self.u8() as u64;
        }
        v
    }
    /// 0..n, monotone in the octets drawn, so that zero octets give zero.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n as u64;
        if n <= 1 {
            0
        } else if n <= 1 << 8 {
            (self.uint(1) * n >> 8) as usize
        } else if n <= 1 << 16 {
            (self.uint(2) * n >> 16) as usize
        } else {
            ((self.uint(4) as u128 * n as u128) >> 32) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/256; false is the simple choice.
    pub fn chance(&mut self, num: u32) -> bool {
        256 - (self.u8() as u32) <= num
    }
    pub fn flag(&mut self) -> bool {
        self.u8() >= 128
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index by weight.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &w) in ws.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        ws.len() - 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn u128(&mut self) -> u128 {
        (self.uint(8) as u128) << 64 | self.uint(8) as u128
    }
    pub fn u64(&mut self) -> u64 {
        self.uint(8)
    }
}

/// Statistics of the run; labels and keys are set by the case.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, u64>,
    pub want_desc: bool,
    pub desc: String,
    key: Option<u64>,
    fresh_label: bool,
    pub tier_thorough: bool,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        let e = self.labels.entry(l).or_insert(0);
        *e += 1;
        if *e == 1 {
            self.fresh_label = true;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Marks the case as non-trivial, identified by `key`.
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nontrivial_hash(hash(key));
    }
    pub fn nontrivial_hash(&mut self, h: u64) {
        self.key = Some(match self.key {
            None => h,
            Some(k) => mix(&[k, h]),
        });
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            let s = f();
            self.desc.push_str(&s);
        }
    }
    /// A defect was met; it is a failure unless known_findings.txt lists it.
    pub fn known(&mut self, what: &'static str, msg: String) -> R {
        static LISTED: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
        let listed = LISTED.get_or_init(|| {
            std::env::var("VH_KNOWN").unwrap_or_default().split(',').map(String::from).collect()
        });
        if listed.iter().any(|l| l == what) {
            *self.known.entry(what).or_insert(0) += 1;
            Ok(())
        } else {
            Err(Fail::new(what, msg))
        }
    }
}

pub struct Property {
    pub id: &'static str,
    /// What makes a case non-trivial.
    pub rule: &'static str,
    pub case: fn(&mut Src, &mut Ctx) -> R,
    /// Deterministic cases given as entropy vectors, run before the random ones.
    pub fixed: fn(&mut dyn FnMut(Vec<u8>), thorough: bool),
    /// Random cases per shard, quick tier.
    pub quick: u64,
    pub thorough: u64,
}
pub fn no_fixed(_: &mut dyn FnMut(Vec<u8>), _: bool) {}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        PANIC.with(|c| *c.borrow_mut() = Some((loc, msg)));
    }));
}
/// Runs `f`, turning a panic into a failure.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (loc, msg) =
                PANIC.with(|c| c.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            Err(Fail::new("panic", format!("panic at {loc}: {msg}")))
        }
    }
}
pub fn run_case(p: &Property, src: &mut Src, ctx: &mut Ctx) -> R {
    guarded(|| (p.case)(src, ctx)).and_then(|r| r)
}

/// Minimises the entropy of a failing case; `same` tells whether a candidate still fails alike.
pub fn shrink(mut best: Vec<u8>, mut budget: usize, same: &mut dyn FnMut(&[u8]) -> bool) -> Vec<u8> {
    while best.last() == Some(&0) {
        let mut c = best.clone();
        c.pop();
        if budget == 0 || !same(&c) {
            break;
        }
        budget -= 1;
        best = c;
    }
    loop {
        let start = (best.len(), hash(&best));
        // Shorter prefixes
        let mut cut = best.len() / 2;
        while cut > 0 && budget > 0 {
            if best.len() >= cut {
                let c = best[..best.len() - cut].to_vec();
                budget -= 1;
                if same(&c) {
                    best = c;
                    continue;
                }
            }
            cut /= 2;
        }
        // Delete chunks
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                budget -= 1;
                if same(&c) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks, then lower octets
        let mut size = 16;
        while size > 1 {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                if best[i..i + size].iter().any(|&b| b != 0) {
                    let mut c = best.clone();
                    c[i..i + size].fill(0);
                    budget -= 1;
                    if same(&c) {
                        best = c;
                    }
                }
                i += size;
            }
            size /= 4;
        }
        for i in 0..best.len() {
            if budget == 0 {
                break;
            }
            for cand in [0, best[i] / 2, best[i].saturating_sub(16), best[i].saturating_sub(1)] {
                if cand < best[i] && budget > 0 {
                    let mut c = best.clone();
                    c[i] = cand;
                    budget -= 1;
                    if same(&c) {
                        best = c;
                        if cand == 0 {
                            break;
                        }
                    }
                }
            }
        }
        if budget == 0 || start == (best.len(), hash(&best)) {
            return best;
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
/// Hex, cut when long.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex(b)
    } else {
        format!("{}..({} octets)", hex(&b[..40]), b.len())
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn describe(p: &Property, entropy: &[u8]) -> (Option<Fail>, String) {
    let mut ctx = Ctx { want_desc: true, ..Default::default() };
    let mut src = Src::replay(entropy);
    let r = run_case(p, &mut src, &mut ctx);
    (r.err(), ctx.desc)
}

/// Worker process.
///
/// `worker SEED SHARD NSHARDS CASES TIER OUTDIR [CORPUS]`, `one HEXFILE`, `merge FILES..`
pub fn main(p: Property) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&p, &args[2..]),
        Some("one") => {
            let data = unhex(&std::fs::read_to_string(&args[2]).expect("replay file"));
            let (fail, desc) = describe(&p, &data);
            println!("case: {desc}");
            match fail {
                None => println!("held"),
                Some(f) => {
                    println!("FAILED [{}] {}", f.kind, f.msg);
                    std::process::exit(3);
                }
            }
        }
        Some("entropy") => {
            let mut src = Src::random(args[2].parse().unwrap());
            println!("{}", hex(&src.bytes(args[3].parse().unwrap())));
        }
        Some("info") => {
            println!("{{\"id\":{},\"rule\":{},\"quick\":{},\"thorough\":{}}}", jstr(p.id), jstr(p.rule), p.quick, p.thorough);
        }
        Some("merge") => {
            let mut all: Vec<u64> = Vec::new();
            for f in &args[2..] {
                let b = std::fs::read(f).unwrap();
                all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            all.sort_unstable();
            all.dedup();
            println!("{}", all.len());
        }
        _ => {
            eprintln!("usage: worker|one|merge|info");
            std::process::exit(2);
        }
    }
    std::process::exit(0)
}

/// Replay data of the case being run, for the driver to find after a crash: the entropy is
/// recomputed from these numbers.
struct Progress(std::fs::File);
impl Progress {
    fn set(&mut self, text: &str) {
        use std::os::unix::fs::FileExt;
        let _ = self.0.write_all_at(format!("{text}\n").as_bytes(), 0);
    }
}

fn worker(p: &Property, a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let shard: u64 = a[1].parse().unwrap();
    let nshards: u64 = a[2].parse().unwrap();
    let cases: u64 = a[3].parse().unwrap();
    let thorough = a[4] == "thorough";
    let out = &a[5];
    let start_at: u64 = a.get(6).map(|s| s.parse().unwrap()).unwrap_or(0);
    let stem = format!("{out}/{}", shard);
    let mut progress = Progress(std::fs::File::create(format!("{stem}.progress")).unwrap());
    let id_hash = hash(p.id.as_bytes());

    let mut ctx = Ctx { tier_thorough: thorough, ..Default::default() };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evaluations = 0u64;
    let mut fixed_run = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut failure: Option<(Vec<u8>, Fail)> = None;

    let mut one = |src: &mut Src, ctx: &mut Ctx, failure: &mut Option<(Vec<u8>, Fail)>| {
        ctx.key = None;
        ctx.fresh_label = false;
        let r = run_case(p, src, ctx);
        evaluations += 1;
        if let Some(k) = ctx.key {
            if r.is_ok() {
                seen.insert(k);
            }
        }
        let used = src.used();
        if let Err(f) = r {
            *failure = Some((src.data[..used].to_vec(), f));
        } else if ctx.fresh_label && samples.len() < 24 {
            let (_, d) = describe(p, &src.data[..used]);
            if !d.is_empty() {
                samples.push(d.chars().take(1000).collect());
            }
        }
    };

    if start_at == 0 {
        let mut n = 0u64;
        let mut list = |v: Vec<u8>| {
            let mine = n % nshards == shard % nshards;
            n += 1;
            if mine && failure.is_none() {
                progress.set(&format!("F {}", hex(&v)));
                fixed_run += 1;
                one(&mut Src::replay(&v), &mut ctx, &mut failure);
            }
        };
        if let Ok(f) = std::env::var("VH_REGRESS") {
            for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
                if !l.starts_with('#') {
                    list(unhex(l));
                }
            }
        }
        (p.fixed)(&mut list, thorough);
    }
    let mut i = start_at;
    while failure.is_none() && i < cases {
        let s = mix(&[seed, id_hash, shard, i]);
        progress.set(&format!("R {s}"));
        one(&mut Src::random(s), &mut ctx, &mut failure);
        i += 1;
    }
    // A case reduced from the failing one may crash.
    progress.set(&failure.as_ref().map_or("D".to_string(), |(e, _)| format!("F {}", hex(e))));

    let mut fail_json = "null".to_string();
    if let Some((entropy, f)) = failure {
        let kind = f.kind.clone();
        let start = std::time::Instant::now();
        let small = shrink(entropy, 6000, &mut |c| {
            if start.elapsed().as_secs() >= 60 {
                return false; // cases which take long: good enough
            }
            let mut src = Src::replay(c);
            matches!(run_case(p, &mut src, &mut Ctx::default()), Err(f) if f.kind == kind)
        });
        let (again, desc) = describe(p, &small);
        let f = again.unwrap_or(f);
        fail_json = format!(
            "{{\"entropy\":{},\"kind\":{},\"msg\":{},\"desc\":{}}}",
            jstr(&hex(&small)), jstr(&f.kind), jstr(&f.msg), jstr(&desc)
        );
    }
    let hashes: Vec<u8> = seen.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{stem}.hashes"), hashes).unwrap();
    let s: Vec<String> = samples.iter().map(|s| jstr(s)).collect();
    let mut f = std::fs::File::create(format!("{stem}.json")).unwrap();
    write!(
        f,
        "{{\"evaluations\":{},\"fixed\":{},\"labels\":{},\"known\":{},\"samples\":[{}],\"failure\":{}}}",
        evaluations, fixed_run, jmap(&ctx.labels), jmap(&ctx.known), s.join(","), fail_json
    )
    .unwrap();
}
