//! Generators of octet strings: identifiers, lengths, values, near misses.
use crate::engine::Src;
use crate::io::Step;
use crate::model;

/// Interpreted, for another platform: sizes are kept small.
pub const SLOW: bool = cfg!(miri);

/// A tag number, mostly around the boundaries of the encoding.
pub fn tag_number(s: &mut Src) -> u128 {
    match s.weighted(&[5, 3, 4, 4, 3]) {
        0 => s.below(31) as u128,
        1 => 29 + s.below(8) as u128,
        2 => {
            // around a power of 128
            let k = s.below(19) as u32;
            let base = if 7 * k >= 128 { u128::MAX } else { 1u128 << (7 * k) };
            base.wrapping_add(s.below(5) as u128).wrapping_sub(2)
        }
        3 => {
            // around a power of two
            let base = 1u128 << s.below(128);
            base.wrapping_add(s.below(3) as u128).wrapping_sub(1)
        }
        _ => {
            let v = s.u128();
            v >> s.below(128)
        }
    }
}
pub const CLASSES: [u8; 4] = [0x00, 0x40, 0x80, 0xc0];

/// Well-formed identifier octets.
pub fn id(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[6, 4, 3, 1]) {
        0 => vec![*s.pick(&[0x02, 0x30, 0x04, 0x0c, 0x31, 0x01, 0x05, 0x24, 0x2c, 0x09, 0xa0, 0x81])],
        1 => {
            let c = *s.pick(&CLASSES);
            let pc = s.flag();
            let n = s.below(31) as u128;
            model::encode_id(c, pc, n)
        }
        2 => {
            let c = *s.pick(&CLASSES);
            let pc = s.flag();
            let n = tag_number(s);
            model::encode_id(c, pc, n)
        }
        _ => {
            // long identifiers, also beyond 128 bits
            let n = match s.u8() {
                0..=231 => s.range(1, 40),
                _ if SLOW => s.range(40, 70),
                232..=251 => s.range(40, 140),
                _ => s.range(140, 600),
            };
            let mut v = vec![*s.pick(&CLASSES) | if s.flag() { 0x20 } else { 0 } | 0x1f];
            for i in 0..n {
                let mut o = s.u8() | 0x80;
                if i == 0 && o == 0x80 {
                    o = 0x81;
                }
                v.push(o);
            }
            let mut last = s.u8() & 0x7f;
            if n == 0 {
                last = last.max(31);
            }
            v.push(last);
            v
        }
    }
}
/// Identifier octets which may be malformed.
pub fn wild_id(s: &mut Src) -> Vec<u8> {
    if !s.chance(60) {
        return id(s);
    }
    let lead = s.u8() | 0x1f;
    match s.below(6) {
        0 => vec![lead, s.below(32) as u8],
        1 => vec![lead, 0x80, s.u8()],
        2 => vec![lead],
        3 => vec![lead, 0x80 | s.u8()],
        4 => vec![lead, 0x80 | s.u8(), 0x80, s.u8() & 0x7f],
        _ => vec![lead, s.u8(), s.u8(), s.u8()],
    }
}
/// Length octets for `n`, possibly malformed, indefinite or lying.
pub fn wild_len(s: &mut Src, n: usize) -> Vec<u8> {
    match s.weighted(&[60, 3, 3, 3, 3, 3, 3, 3, 2]) {
        0 => model::encode_len(n as u64),
        1 => vec![0x80],
        2 => {
            // too many octets for this number
            let be = (n as u64).to_be_bytes();
            let k = s.range(1, 8);
            let mut v = vec![0x80 | k as u8];
            v.extend_from_slice(&be[8 - k..]);
            v
        }
        3 => model::encode_len((n as u64).wrapping_add(s.range(1, 3) as u64)),
        4 => model::encode_len((n as u64).saturating_sub(s.range(1, 3) as u64)),
        5 => {
            let k = s.range(1, 8);
            let mut v = vec![0x80 | k as u8];
            v.extend(s.bytes(k));
            v
        }
        6 => {
            let k = *s.pick(&[9usize, 10, 16, 127]);
            let mut v = vec![0x80 | k as u8];
            let m = s.below(k + 1);
            v.extend(s.bytes(m));
            v
        }
        7 => {
            let n = s.below(4);
            let mut v = vec![0x80 | s.u8()];
            v.extend(s.bytes(n));
            v
        }
        _ if s.chance(100) => model::encode_len(u64::MAX - s.below(40) as u64),
        _ => model::encode_len(s.u64() >> s.below(64)),
    }
}
/// Sizes around the boundaries of the length encoding and of inline storage.
pub fn size(s: &mut Src, big: bool) -> usize {
    match s.weighted(&[30, 20, 10, 8, 6, if big { 3 } else { 0 }]) {
        0 => s.below(6),
        1 => s.range(0, 30),
        2 => s.range(18, 26),
        3 => s.range(120, 132),
        4 => s.range(250, 262),
        _ if SLOW => s.range(250, 300),
        _ => match s.u8() {
            255 => huge(s),
            _ => s.range(65528, 65540),
        },
    }
}
/// Sizes of three and four length octets; rare, because the cases take long.
pub fn huge(s: &mut Src) -> usize {
    match s.u8() {
        _ if SLOW => s.range(250, 300),
        0..=99 => s.range(65537, 1 << 18),
        100..=199 => (1 << s.range(17, 22)) - 3 + s.below(6),
        _ => (1 << 24) - 3 + s.below(6),
    }
}
pub fn contents(s: &mut Src, big: bool) -> Vec<u8> {
    let n = size(s, big);
    octets_of(s, n)
}
pub fn octets_of(s: &mut Src, n: usize) -> Vec<u8> {
    if n > 64 {
        let b = s.u8();
        let step = s.u8();
        (0..n).map(|i| b.wrapping_add((i as u8).wrapping_mul(step | 1))).collect()
    } else {
        match s.weighted(&[4, 1, 1]) {
            0 => s.bytes(n),
            1 => vec![0; n],
            _ => (0..n).map(|_| *s.pick(&[0u8, 0, 0x80, 0xff, 0x30, 0x02])).collect(),
        }
    }
}
/// A tree of values in BER; `indef` out of 256 constructed nodes are of indefinite length.
pub fn tree(s: &mut Src, depth: usize, indef: u32, wild: bool, out: &mut Vec<u8>) {
    if s.chance(24) && depth > 0 {
        // end-of-contents look-alikes and odd elements
        match s.below(4) {
            0 => out.extend([0x00, 0x01, 0x00]),
            1 => out.extend([0x04, 0x02, 0x00, 0x00]),
            2 => out.extend([0x20, 0x00]),
            _ => out.extend([0x80, 0x00]),
        }
        return;
    }
    let id = if wild { wild_id(s) } else { id(s) };
    out.extend(&id);
    let branch = depth > 0 && s.chance(160);
    let mut c = Vec::new();
    if branch {
        let n = s.below(4);
        for _ in 0..n {
            tree(s, depth - 1, indef, wild, &mut c);
        }
    } else {
        c = contents(s, false);
    }
    if branch && s.chance(indef) {
        out.push(0x80);
        out.extend(c);
        if !(wild && s.chance(16)) {
            out.extend([0, 0]);
        }
    } else {
        let l = if wild { wild_len(s, c.len()) } else { model::encode_len(c.len() as u64) };
        out.extend(l);
        out.extend(c);
    }
}
/// A chain of `n` nested indefinite-length values, closed `closed` times.
pub fn deep(n: usize, closed: usize, lead: u8, out: &mut Vec<u8>) {
    for _ in 0..n {
        out.extend([lead, 0x80]);
    }
    for _ in 0..closed {
        out.extend([0, 0]);
    }
}
pub fn mutate(s: &mut Src, v: &mut Vec<u8>) {
    let n = s.range(1, 3);
    for _ in 0..n {
        let len = v.len();
        match s.below(8) {
            0 if len > 0 => {
                let i = s.below(len.min(40));
                v[i] ^= 1 << s.below(8);
            }
            1 if len > 0 => {
                let i = s.below(len);
                v[i] = s.u8();
            }
            2 if len > 0 => {
                let i = s.below(len);
                v.remove(i);
            }
            3 => {
                let i = s.below(len + 1);
                let b = s.u8();
                v.insert(i, b);
            }
            4 => {
                let i = s.below(len + 1);
                v.truncate(i);
            }
            5 if len > 1 => {
                let i = s.below(len);
                let j = s.range(i, len - 1);
                let c = v[i..=j].to_vec();
                v.splice(i..i, c);
            }
            6 if len > 0 => {
                let i = s.below(len);
                v[i] = *s.pick(&[0x00, 0x80, 0x7f, 0x81, 0xff, 0x1f, 0x30, 0x84, 0x88]);
            }
            _ => {
                let n = s.range(1, 4);
                let b = s.bytes(n);
                v.extend(b);
            }
        }
    }
}
/// An octet string to parse: from plain noise to well-formed trees with trailing data.
pub fn octets(s: &mut Src, indef: u32) -> (Vec<u8>, &'static str) {
    let mut v = Vec::new();
    let kind = match s.weighted(&[3, 6, 6, 5, 3, 2, 2]) {
        0 => {
            let n = s.below(12);
            v = s.bytes(n);
            "noise"
        }
        1 => {
            let depth = s.below(5);
            tree(s, depth, indef, false, &mut v);
            "tree"
        }
        2 => {
            let depth = s.below(4);
            tree(s, depth, indef, true, &mut v);
            "wild-tree"
        }
        3 => {
            let depth = s.below(4);
            tree(s, depth, indef, false, &mut v);
            mutate(s, &mut v);
            "mutated-tree"
        }
        4 => {
            v.extend(wild_id(s));
            let c = contents(s, true);
            v.extend(wild_len(s, c.len()));
            v.extend(c);
            "header+contents"
        }
        5 => {
            let d = match s.u8() {
                0..=83 => s.range(1, 8),
                _ if SLOW => s.range(60, 70),
                84..=167 => s.range(120, 140),
                168..=252 => s.range(250, 300),
                253 => s.range(300, 5000),
                254 => s.range(32_760, 32_775),
                _ => s.range(65_500, 70_000),
            };
            let closed = (d + s.below(3)).saturating_sub(s.below(3));
            let lead = *s.pick(&[0x30u8, 0x31, 0x24, 0xa0]);
            deep(d, closed, lead, &mut v);
            "deep"
        }
        _ => {
            let depth = s.below(4);
            tree(s, depth, indef, false, &mut v);
            let i = s.below(v.len() + 1);
            v.truncate(i);
            "truncated"
        }
    };
    if s.chance(110) {
        let n = s.below(6);
        let t = s.bytes(n);
        v.extend(t);
    }
    (v, kind)
}

/// A schedule of transfers.
pub fn steps(s: &mut Src) -> Vec<Step> {
    match s.below(5) {
        0 => vec![Step::Max(1)],
        1 => vec![],
        2 => {
            let n = s.range(2, 8);
            (0..n).map(|_| if s.chance(80) { Step::Interrupt } else { Step::Max(s.range(1, 5)) }).collect()
        }
        3 => vec![Step::Max(s.range(1, 20))],
        _ => {
            let n = s.range(1, 12);
            (0..n)
                .map(|_| match s.below(4) {
                    0 => Step::Interrupt,
                    1 => Step::Max(1),
                    2 => Step::Max(s.range(1, 200)),
                    _ => Step::Max(s.range(1, 5000)),
                })
                .collect()
        }
    }
}
