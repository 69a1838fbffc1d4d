//! Reference implementation of the X.690 rules the crate promises to follow, written from the
//! standard; it shares no code with the code under test.
//!
//! Restrictions documented by the crate and adopted here: identifier and length octets must be
//! in the shortest form, also in BER, and lengths must fit into a machine word.

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum E {
    Unterminated,
    Redundant,
    Overflow,
    Indefinite,
}

/// Class bits (0x00, 0x40, 0x80, 0xc0), constructed bit (0x20) and number to identifier octets.
pub fn encode_id(class: u8, constructed: bool, number: u128) -> Vec<u8> {
    let lead = class | if constructed { 0x20 } else { 0 };
    if number <= 30 {
        return vec![lead | number as u8];
    }
    let mut groups = vec![(number & 0x7f) as u8];
    let mut rest = number >> 7;
    while rest != 0 {
        groups.insert(0, (rest & 0x7f) as u8 | 0x80);
        rest >>= 7;
    }
    groups.insert(0, lead | 31);
    groups
}

/// Size of the identifier at the start of `b`, or all errors which may be reported.
pub fn id_size(b: &[u8]) -> Result<usize, Vec<E>> {
    let Some(&lead) = b.first() else { return Err(vec![E::Unterminated]) };
    if lead & 0x1f != 0x1f {
        return Ok(1);
    }
    let tail = &b[1..];
    let end = tail.iter().position(|o| o & 0x80 == 0);
    let mut errs = Vec::new();
    if tail.first() == Some(&0x80) {
        errs.push(E::Redundant); // leading zero group
    }
    if let Some(&o) = tail.first() {
        if o < 31 {
            errs.push(E::Redundant); // the short form would do
        }
    }
    if end.is_none() {
        errs.push(E::Unterminated);
    }
    if errs.is_empty() {
        Ok(end.unwrap() + 2)
    } else {
        Err(errs)
    }
}

/// Number of an identifier, `None` if it needs more than 128 bits.
pub fn id_number(id: &[u8]) -> Option<u128> {
    if id.len() == 1 {
        return Some((id[0] & 0x1f) as u128);
    }
    let mut n: u128 = 0;
    for &o in &id[1..] {
        if n >> 121 != 0 {
            return None;
        }
        n = n << 7 | (o & 0x7f) as u128;
    }
    Some(n)
}

pub fn encode_len(n: u64) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let be = n.to_be_bytes();
    let skip = be.iter().position(|&b| b != 0).unwrap();
    let mut v = vec![0x80 | (8 - skip) as u8];
    v.extend_from_slice(&be[skip..]);
    v
}

/// Length at the start of `b` (`None`: indefinite) and its size, or the errors which apply.
pub fn length(b: &[u8]) -> Result<(Option<u64>, usize), Vec<E>> {
    let Some(&first) = b.first() else { return Err(vec![E::Unterminated]) };
    if first == 0x80 {
        return Ok((None, 1));
    }
    if first < 0x80 {
        return Ok((Some(first as u64), 1));
    }
    let count = (first & 0x7f) as usize;
    let mut errs = Vec::new();
    if b.len() < 1 + count {
        errs.push(E::Unterminated);
    }
    match b.get(1) {
        Some(0) => errs.push(E::Redundant),
        Some(&o) if count == 1 && o < 0x80 => errs.push(E::Redundant),
        _ => (),
    }
    if count > size_of::<usize>() {
        errs.push(E::Overflow);
    }
    if !errs.is_empty() {
        return Err(errs);
    }
    let n = b[1..=count].iter().fold(0u64, |a, &o| a << 8 | o as u64);
    Ok((Some(n), 1 + count))
}

/// The parts of one value: sizes of identifier, length and contents octets.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Parts {
    pub id: usize,
    pub len: usize,
    pub contents: usize,
    pub definite: Option<u64>,
}
impl Parts {
    pub fn total(&self) -> usize {
        self.id + self.len + self.contents
    }
}

fn header(b: &[u8]) -> Result<(usize, usize, Option<u64>), Vec<E>> {
    let id = id_size(b)?;
    let (n, len) = length(&b[id..])?;
    Ok((id, len, n))
}

/// The DER value at the start of `b`.
pub fn der(b: &[u8]) -> Result<Parts, Vec<E>> {
    let (id, len, n) = header(b)?;
    let Some(n) = n else { return Err(vec![E::Indefinite]) };
    if ((b.len() - id - len) as u64) < n {
        return Err(vec![E::Unterminated]);
    }
    Ok(Parts { id, len, contents: n as usize, definite: Some(n) })
}

/// The BER value at the start of `b`. The contents of an indefinite-length value include its
/// end-of-contents octets, as in the crate.
pub fn ber(b: &[u8]) -> Result<Parts, Vec<E>> {
    ber_walk(b, &mut false)
}
/// `odd` tells whether the end-of-contents identifier was met with another length than zero inside
/// a value of indefinite length; what a parser makes of that is open.
pub fn ber_walk(b: &[u8], odd: &mut bool) -> Result<Parts, Vec<E>> {
    let (id, len, n) = header(b)?;
    if let Some(n) = n {
        if ((b.len() - id - len) as u64) < n {
            return Err(vec![E::Unterminated]);
        }
        return Ok(Parts { id, len, contents: n as usize, definite: Some(n) });
    }
    // Explicit stack of open values instead of recursion: only their number matters.
    let mut open = 1usize;
    let mut at = id + len;
    while open > 0 {
        let rest = &b[at..];
        if rest.len() >= 2 && rest[0] == 0 && rest[1] == 0 {
            open -= 1;
            at += 2;
            continue;
        }
        if rest.first() == Some(&0) && rest.len() > 1 {
            *odd = true;
        }
        let (i, l, n) = header(rest)?;
        match n {
            None => {
                open += 1;
                at += i + l;
            }
            Some(n) => {
                if ((rest.len() - i - l) as u64) < n {
                    return Err(vec![E::Unterminated]);
                }
                at += i + l + n as usize;
            }
        }
    }
    Ok(Parts { id, len, contents: at - id - len, definite: None })
}

pub fn tlv(id: &[u8], contents: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend(encode_len(contents.len() as u64));
    v.extend_from_slice(contents);
    v
}

/// Shortest two's complement octets of a number given as sign and 128-bit pattern.
pub fn encode_int(negative: bool, low: u128) -> Vec<u8> {
    // 17 octets in two's complement hold every i128 and u128.
    let mut v = vec![if negative { 0xff } else { 0 }];
    v.extend_from_slice(&low.to_be_bytes());
    while v.len() > 1 && ((v[0] == 0 && v[1] < 0x80) || (v[0] == 0xff && v[1] >= 0x80)) {
        v.remove(0);
    }
    v
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Int {
    /// sign and two's complement pattern of at most 128 bits beyond the sign
    Val(bool, u128),
    Empty,
    Redundant,
    /// more than 128 bits and a sign
    Huge,
}
pub fn decode_int(c: &[u8]) -> Int {
    if c.is_empty() {
        return Int::Empty;
    }
    if c.len() > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80)) {
        return Int::Redundant;
    }
    let neg = c[0] >= 0x80;
    if c.len() > 17 || (c.len() == 17 && c[0] != 0 && c[0] != 0xff) {
        return Int::Huge;
    }
    let mut low: u128 = if neg { u128::MAX } else { 0 };
    for &o in c {
        low = low << 8 | o as u128;
    }
    Int::Val(neg, low)
}
/// Whether (neg, low) lies in the range of a type of `bits` bits.
pub fn int_fits(neg: bool, low: u128, bits: u32, signed: bool) -> bool {
    match (neg, signed) {
        (true, false) => false,
        (false, false) => bits == 128 || low >> bits == 0,
        (false, true) => low >> (bits - 1) == 0,
        // bits-1.. of the pattern must all be ones; for 128 the top bit is the sign
        (true, true) => (low as i128) < 0 && (low as i128) >> (bits - 1) == -1,
    }
}

/// A node of a value as X.690 sees it.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Val {
    Prim { id: Vec<u8>, contents: Vec<u8> },
    Cons { id: Vec<u8>, items: Vec<Val> },
    /// SET OF: items are ordered by their encodings
    SetOf { id: Vec<u8>, items: Vec<Val> },
}
impl Val {
    pub fn id(&self) -> &[u8] {
        match self {
            Val::Prim { id, .. } | Val::Cons { id, .. } | Val::SetOf { id, .. } => id,
        }
    }
    pub fn prim(id: u8, contents: &[u8]) -> Val {
        Val::Prim { id: vec![id], contents: contents.to_vec() }
    }
    pub fn seq(items: Vec<Val>) -> Val {
        Val::Cons { id: vec![0x30], items }
    }
    pub fn set(mut items: Vec<Val>) -> Val {
        // not in the order of a hash table, which differs from run to run
        items.sort_by_cached_key(|i| i.der());
        Val::SetOf { id: vec![0x31], items }
    }
    pub fn der(&self) -> Vec<u8> {
        match self {
            Val::Prim { id, contents } => tlv(id, contents),
            Val::Cons { id, items } => tlv(id, &items.iter().flat_map(|i| i.der()).collect::<Vec<u8>>()),
            Val::SetOf { id, items } => {
                let mut e: Vec<Vec<u8>> = items.iter().map(|i| i.der()).collect();
                e.sort();
                tlv(id, &e.concat())
            }
        }
    }
    /// BER with some constructed nodes in indefinite-length form; returns how many there were.
    pub fn ber(&self, indefinite: &mut dyn FnMut() -> bool, count: &mut usize) -> Vec<u8> {
        let (id, items) = match self {
            Val::Prim { id, contents } => return tlv(id, contents),
            Val::Cons { id, items } | Val::SetOf { id, items } => (id, items),
        };
        // an indefinite length needs the constructed form
        let indef = id[0] & 0x20 != 0 && indefinite();
        // BER does not prescribe the order of a SET OF
        let turn = matches!(self, Val::SetOf { .. }) && indefinite();
        let mut c = Vec::new();
        for k in 0..items.len() {
            c.extend(items[if turn { items.len() - 1 - k } else { k }].ber(indefinite, count));
        }
        if indef {
            *count += 1;
            let mut v = id.clone();
            v.push(0x80);
            v.extend(c);
            v.extend([0, 0]);
            v
        } else {
            tlv(id, &c)
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            Val::Prim { .. } => 1,
            Val::Cons { items, .. } | Val::SetOf { items, .. } => 1 + items.iter().map(|i| i.nodes()).sum::<usize>(),
        }
    }
}

/// A delimited value in octets, as the reference decoder sees it.
#[derive(Debug, Clone, Copy)]
pub struct Tlv<'a> {
    pub id: &'a [u8],
    pub definite: bool,
    /// Without the closing end-of-contents octets
    pub contents: &'a [u8],
}
thread_local! {
    /// Set when `split` met an odd end-of-contents.
    pub static ODD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Splits the first value off; `None` if there is no well-formed one.
pub fn split<'a>(b: &mut &'a [u8], der_rules: bool) -> Option<Tlv<'a>> {
    let mut odd = false;
    let p = if der_rules { der(b) } else { ber_walk(b, &mut odd) };
    if odd {
        ODD.with(|o| o.set(true));
    }
    let p = p.ok()?;
    let id = &b[..p.id];
    let mut contents = &b[p.id + p.len..p.total()];
    if p.definite.is_none() {
        contents = &contents[..contents.len() - 2];
    }
    *b = &b[p.total()..];
    Some(Tlv { id, definite: p.definite.is_some(), contents })
}
