//! P07: integers and booleans.
use bsn1::{Ber, Contents, ContentsRef, Der, DerRef, Error};
use vh::model::{self, Int};
use vh::values::{gen_int, Integer};
use vh::{engine, ensure, ensure_eq, Ctx, Fail, Property, Src, R};

/// Decodes into one type.
macro_rules! into_type {
    ($t:ty, $c:expr, $octets:expr, $int:expr) => {{
        let got = $c.to_integer::<$t>();
        match $int {
            Int::Val(n, l) if model::int_fits(n, l, <$t as Integer>::BITS, <$t as Integer>::SIGNED) => {
                let v = <$t as Integer>::join(n, l);
                match got {
                    Ok(g) => ensure_eq!(g, v, "wrong-number", "{} as {}", engine::hexs($octets), stringify!($t)),
                    Err(e) => return Err(Fail::new("refused", format!("{} as {}: {e:?} instead of {v}", engine::hexs($octets), stringify!($t)))),
                }
                let u: $t = unsafe { $c.to_integer_unchecked() };
                ensure_eq!(u, v, "wrong-number", "{} as {} unchecked", engine::hexs($octets), stringify!($t));
            }
            Int::Val(..) | Int::Huge => ensure!(
                matches!(got, Err(Error::OverFlow)),
                if got.is_ok() { "accepted" } else { "wrong-kind" },
                "{} as {}: {got:?} instead of an overflow", engine::hexs($octets), stringify!($t)
            ),
            Int::Empty | Int::Redundant => ensure!(
                got.is_err(), "accepted", "{} as {}: {got:?} though {:?}", engine::hexs($octets), stringify!($t), $int
            ),
        }
    }};
}
fn decode(octets: &[u8], ctx: &mut Ctx) -> R {
    let c = <&ContentsRef>::from(octets);
    let int = model::decode_int(octets);
    into_type!(i8, c, octets, int);
    into_type!(u8, c, octets, int);
    into_type!(i16, c, octets, int);
    into_type!(u16, c, octets, int);
    into_type!(i32, c, octets, int);
    into_type!(u32, c, octets, int);
    into_type!(i64, c, octets, int);
    into_type!(u64, c, octets, int);
    into_type!(i128, c, octets, int);
    into_type!(u128, c, octets, int);
    into_type!(isize, c, octets, int);
    into_type!(usize, c, octets, int);
    // the same from owned contents
    let owned = Contents::from(octets);
    ensure_eq!(owned.to_integer::<i128>().ok(), c.to_integer::<i128>().ok(), "differ", "owned");

    let one = (octets.len() == 1).then(|| octets[0]);
    ensure_eq!(c.to_bool_ber().ok(), one.map(|o| o != 0), "wrong-bool", "BER {}", engine::hexs(octets));
    let der = match one {
        Some(0) => Some(false),
        Some(0xff) => Some(true),
        _ => None,
    };
    ensure_eq!(c.to_bool_der().ok(), der, "wrong-bool", "DER {}", engine::hexs(octets));
    ctx.label(match int {
        Int::Val(..) => "integer contents",
        Int::Empty => "empty",
        Int::Redundant => "padded",
        Int::Huge => "over 128 bits",
    });
    Ok(())
}
macro_rules! from_type {
    ($t:ty, $s:expr, $ctx:expr) => {{
        let v: $t = gen_int($s);
        let (n, l) = v.split();
        let octets = model::encode_int(n, l);
        $ctx.desc(|| format!("{v}_{}", stringify!($t)));
        ensure_eq!(AsRef::<[u8]>::as_ref(&Contents::from(v)), &octets[..], "wrong-octets", "{v}_{}", stringify!($t));
        let tlv = model::tlv(&[2], &octets);
        ensure_eq!(AsRef::<[u8]>::as_ref(&Der::from(v)), &tlv[..], "wrong-octets", "Der of {v}_{}", stringify!($t));
        ensure_eq!(AsRef::<[u8]>::as_ref(&Ber::from(v)), &tlv[..], "wrong-octets", "Ber of {v}_{}", stringify!($t));
        octets
    }};
}
fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    match s.weighted(&[3, 8, 3, 1]) {
        0 => {
            let n = s.u8() as usize % 24;
            let b = s.bytes(n);
            ctx.desc(|| format!("contents {}", engine::hex(&b)));
            if n > 0 {
                ctx.nontrivial(&b);
            }
            decode(&b, ctx)
        }
        1 => {
            let octets = match s.below(12) {
                0 => from_type!(i8, s, ctx),
                1 => from_type!(u8, s, ctx),
                2 => from_type!(i16, s, ctx),
                3 => from_type!(u16, s, ctx),
                4 => from_type!(i32, s, ctx),
                5 => from_type!(u32, s, ctx),
                6 => from_type!(i64, s, ctx),
                7 => from_type!(u64, s, ctx),
                8 => from_type!(i128, s, ctx),
                9 => from_type!(u128, s, ctx),
                10 => from_type!(isize, s, ctx),
                _ => from_type!(usize, s, ctx),
            };
            decode(&octets, ctx)?;
            for pad in [0x00u8, 0xff] {
                let mut p = octets.clone();
                p.insert(0, pad);
                decode(&p, ctx)?;
            }
            ctx.label_if(octets.len() > 8, "over 64 bits");
            ctx.label_if(octets[0] >= 0x80, "negative");
            ctx.nontrivial(&octets);
            Ok(())
        }
        2 => {
            // contents around the size of each type, with boundary octets
            let n = *s.pick(&[1usize, 2, 3, 4, 5, 8, 9, 16, 17, 18, 1, 2]);
            let b: Vec<u8> = (0..n)
                .map(|_| if s.chance(200) { *s.pick(&[0u8, 0xff, 0x80, 0x7f, 0x01, 0xfe, 0x81]) } else { s.u8() })
                .collect();
            ctx.desc(|| format!("contents {}", engine::hex(&b)));
            ctx.nontrivial(&b);
            decode(&b, ctx)
        }
        _ => {
            let v = s.flag();
            let o = [if v { 0xffu8 } else { 0 }];
            ctx.desc(|| format!("{v}"));
            ensure_eq!(AsRef::<[u8]>::as_ref(&Contents::from(v)), &o, "wrong-bool");
            ensure_eq!(AsRef::<[u8]>::as_ref(<&ContentsRef>::from(v)), &o, "wrong-bool");
            let tlv = [1, 1, o[0]];
            ensure_eq!(AsRef::<[u8]>::as_ref(&Der::from(v)), &tlv, "wrong-bool");
            ensure_eq!(AsRef::<[u8]>::as_ref(&Ber::from(v)), &tlv, "wrong-bool");
            ensure_eq!(AsRef::<[u8]>::as_ref(DerRef::boolean(v)), &tlv, "wrong-bool");
            ctx.label("boolean");
            Ok(())
        }
    }
}
fn fixed(run: &mut dyn FnMut(Vec<u8>), thorough: bool) {
    run(vec![0, 0]);
    for a in 0..=255u8 {
        run(vec![0, 1, a]);
        for b in 0..=255u8 {
            run(vec![0, 2, a, b]);
            if thorough || [0u8, 1, 0x7f, 0x80, 0xff].contains(&a) {
                for c in 0..=255u8 {
                    run(vec![0, 3, a, b, c]);
                }
            }
        }
    }
}
fn main() {
    engine::main(Property {
        id: "P07",
        rule: "non-empty integer contents, each decoded into all 12 types; distinct by contents octets",
        case,
        fixed,
        quick: 3_000_000,
        thorough: 12_000_000,
    })
}
