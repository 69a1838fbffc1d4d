"""Checks of the derive macros: programs with derived types are generated, built and run.

Each generated module defines a type, with attributes chosen at random or from a catalogue, and
states beside it, independently of the macros, how its values are encoded and what its decoder
has to make of octets (trait vh::values::Gen).
"""
import json, os, random, re, shutil, subprocess, tempfile, time, zlib

import run
from run import HERE, NoAnswer

BINS = 8
# generated modules per program
COUNT = {"quick": {"P19": 256, "P20": 288, "P21": 288}, "thorough": {"P19": 400, "P20": 480, "P21": 440}}
# random cases per binary and build profile
CASES = {"quick": {"P19": 200_000, "P20": 250_000, "P21": 300_000},
         "thorough": {"P19": 1_500_000, "P20": 2_000_000, "P21": 3_000_000}}
CASE = {"P19": "layout", "P20": "converted", "P21": "strict"}
RULE = {
    "P19": "every generated value of a generated type; distinct by type and encoding",
    "P20": "every generated value of, or input for, a generated type; distinct by type and octets",
    "P21": "every generated input for a generated type; distinct by type and octets",
}
G = "::vh::values::Gen"
A = "::vh::arb::Arb::arb"
FN = "fn"

# ---------------------------------------------------------------- identifiers

BASES = {"EOC": 0x00, "Boolean": 0x01, "Integer": 0x02, "BitString": 0x03, "OctetString": 0x04, "Null": 0x05,
         "Real": 0x09, "UTF8String": 0x0c, "Sequence": 0x30, "Set": 0x31}
CLASSES = {"UNIVERSAL": 0x00, "APPLICATION": 0x40, "CONTEXT_SPECIFIC": 0x80, "PRIVATE": 0xc0}
PCS = {"PRIMITIVE": 0x00, "CONSTRUCTED": 0x20}
NUMBERS = [0, 1, 2, 5, 15, 16, 17, 29, 30, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255, 256, 257, 1000, 2 ** 14 - 1,
           2 ** 14, 2 ** 14 + 1, 2 ** 16, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, 2 ** 28, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
           2 ** 35 - 1, 2 ** 35, 2 ** 42, 2 ** 49 - 1, 2 ** 56, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64,
           2 ** 70 - 1, 2 ** 70, 2 ** 77 - 1, 2 ** 105, 2 ** 126 - 1, 2 ** 126, 2 ** 127, 2 ** 128 - 1]


def octets(base, cls, pc, num):
    """Identifier octets selected by the attributes (None: not given)."""
    first = BASES[base or "Sequence"]
    c = CLASSES[cls] if cls else first & 0xc0
    p = PCS[pc] if pc else first & 0x20
    n = num if num is not None else first & 0x1f
    if n < 31:
        return [c | p | n]
    groups = []
    while n:
        groups.insert(0, n & 0x7f)
        n >>= 7
    return [c | p | 0x1f] + [g | 0x80 for g in groups[:-1]] + [groups[-1]]


class Ident:
    def __init__(self, base=None, cls=None, pc=None, num=None):
        self.base, self.cls, self.pc, self.num = base, cls, pc, num
        self.octets = octets(base, cls, pc, num)

    def args(self, rng):
        a = []
        if self.base:
            a.append(f"id = {self.base}")
        if self.cls:
            a.append(f"tag_class = {self.cls}")
        if self.pc:
            a.append(f"tag_pc = {self.pc}")
        if self.num is not None:
            form = rng.choice(["{}", "{}", "0x{:x}", "0x{:X}", "0o{:o}", "0b{:b}"])
            a.append("tag_num = " + form.format(self.num))
        rng.shuffle(a)
        return a

    def rust(self):
        return "[" + ", ".join(f"{o:#04x}u8" for o in self.octets) + "]"


def any_ident(rng, nested=True):
    while True:
        i = Ident(
            rng.choice([None, None, None] + list(BASES)),
            rng.choice([None] + list(CLASSES)),
            rng.choice([None, None] + list(PCS)),
            rng.choice([None, rng.choice(NUMBERS), rng.choice(NUMBERS), rng.randrange(200),
                        rng.getrandbits(rng.randrange(1, 129))]),
        )
        # a member which looks like the end of its container is no use
        if not (nested and i.octets[0] & 0x1f == 0 and i.octets[0] < 0x40):
            return i


def attribute(args):
    if not args:
        return ""
    # brackets and a comma at the end make no difference
    n = zlib.crc32(repr(args).encode()) % 16
    a, b = {0: "[]", 1: "{}"}.get(n, "()")
    return f"#[bsn1_serde{a}{', '.join(args)}{',' if n % 4 == 3 else ''}{b}]\n"


# ---------------------------------------------------------------- fields

class Field:
    """ser: expression of the model of `{x}`, a reference, or None; de: expression of Option<ty>
    with reader `r`; wire: expression of a Val in the decoder's form, or None."""

    def __init__(self, ty, attrs=(), ser=f"{G}::model({{x}})", de=None, wire=None, needs=""):
        self.ty, self.attrs, self.ser = ty, list(attrs), ser
        self.de = de or f"r.take::<{ty}>()"
        self.wire = wire if wire is not None else f"<{ty} as {G}>::wire(s, size)"
        self.needs = needs  # items of the module this field refers to
        self.name = None


PLAIN = ["bool", "u8", "i8", "u16", "i16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize",
         "::std::string::String", "::vh::values::Oct", "::std::vec::Vec<u8>", "::std::vec::Vec<::std::string::String>",
         "::std::collections::LinkedList<bool>", "::std::collections::VecDeque<i16>",
         "::std::collections::BTreeSet<u8>", "::std::collections::HashSet<i16>",
         "::std::collections::BTreeMap<u8, ::std::string::String>", "::std::collections::HashMap<i8, bool>",
         "::std::vec::Vec<::std::vec::Vec<i32>>", "::vh::values::NoLen<::std::string::String, 0>",
         "::vh::values::NoLen<i32, 1>", "::vh::values::NoLen<::std::vec::Vec<u8>, 2>", "::vh::values::NoLen<i16, 3>",
         "::vh::derived::Rec", "::vh::derived::Tup", "::vh::derived::Ch", "::std::vec::Vec<::vh::derived::Ch>"]
SIMPLE = PLAIN[:16]
# types without an encoding of their own
FOREIGN = ["char", "f64", "()", "::std::option::Option<u8>", "::std::net::Ipv4Addr", "::std::boxed::Box<str>",
           "::std::num::NonZeroU8", "::std::marker::PhantomData<u8>"]
HAVE_DEFAULT = [t for t in PLAIN if "vh::" not in t] + ["char", "f64", "()", "::std::option::Option<u8>",
                                                       "::std::boxed::Box<str>", "::std::marker::PhantomData<u8>"]


class Names:
    """Fresh names within one module."""
    def __init__(self):
        self.n = 0

    def new(self, stem):
        self.n += 1
        return f"{stem}{self.n}"


def plain_field(rng, names, inner=None):
    if inner and rng.random() < 0.4:
        t = rng.choice(inner)
        return Field(rng.choice(["{}", "{}", "::std::vec::Vec<{}>", "::std::collections::BTreeMap<u8, {}>",
                                 "::std::collections::LinkedList<{}>",
                                 "::std::collections::HashMap<bool, {}>"]).format(t))
    return Field(rng.choice(PLAIN if rng.random() < 0.6 else SIMPLE))


def literal(rng, ty):
    """An expression of the type which is not its default."""
    if ty in ("u8", "i8", "u16", "i16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"):
        return str(rng.randrange(1, 127))
    return {"bool": "true", "char": "'z'", "f64": "2.5", "()": "()",
            "::std::string::String": "\"deflt\".to_string()",
            "::std::vec::Vec<u8>": "::std::vec::Vec::from([7u8, 7])",
            "::std::option::Option<u8>": "::std::option::Option::Some(9)",
            "::std::boxed::Box<str>": "::std::boxed::Box::from(\"bx\")",
            "::std::net::Ipv4Addr": "::std::net::Ipv4Addr::new(1, 2, 3, 4)",
            "::std::num::NonZeroU8": "::std::num::NonZeroU8::MIN"}.get(ty)


# user functions whose names also are names in generated code
CLASHES = ["id", "length", "contents", "buffer", "this", "val", "ret", "err", "context", "field", "len", "parse"]


def default_of(rng, names, ty, owner, kind=None):
    """(arguments, expression, items, methods of the owner) of a default for a skipped field."""
    lit = literal(rng, ty)
    kinds = []
    if ty in HAVE_DEFAULT:
        kinds += ["none", "none"]
    if lit:
        kinds += ["fn", "mod", "clash"]
        if owner:
            kinds += ["Self", "owner"]
    if ty.startswith(("::std::string::", "::std::vec::", "::std::collections::")):
        kinds += ["new"]
    kind = kind or rng.choice(kinds)
    if kind == "none":
        return [], f"<{ty} as ::std::default::Default>::default()", "", ""
    if kind == "new":
        head = ty.split("<")[0]
        short = rng.choice([head, head[2:]])
        return [f'default = "{short}::new"'], f"<{ty}>::new()", "", ""
    f = names.new("dflt_")
    if kind == "fn":
        return [f'default = "{f}"'], f"{f}()", f"pub fn {f}() -> {ty} {{ {lit} }}\n", ""
    if kind == "clash":
        name = rng.choice(CLASHES)
        item = f"pub fn {name}() -> {ty} {{ {lit} }}\n"
        return [f'default = "{name}"'], f"{name}()", item, ""
    if kind == "mod":
        return ([f'default = "{f}::inner::make"'], f"{f}::inner::make()",
                f"pub mod {f} {{ pub mod inner {{ pub fn make() -> {ty} {{ {lit} }} }} }}\n", "")
    path = f"Self::{f}" if kind == "Self" else f"{owner}::{f}"
    return [f'default = "{path}"'], lit, "", f"pub fn {f}() -> {ty} {{ {lit} }}\n"


SKIPS = ["skip", "both", "ser", "de", "default only"]


def skip_field(rng, names, owner=None, mode=None, ty=None, kind=None):
    mode = mode or rng.choice(SKIPS)
    types = HAVE_DEFAULT + ["::std::net::Ipv4Addr", "::std::num::NonZeroU8"]
    if mode in ("ser", "de", "default only"):
        types = [t for t in types if t in PLAIN]
    ty = ty or rng.choice(types)
    f = Field(ty)
    f.methods = ""
    args = {"skip": ["skip"], "both": ["skip_serializing", "skip_deserializing"], "ser": ["skip_serializing"],
            "de": ["skip_deserializing"], "default only": []}[mode]
    if mode != "ser":
        extra, expr, f.needs, f.methods = default_of(rng, names, ty, owner, kind)
        args = args + extra
        rng.shuffle(args)
        if mode != "default only":
            f.de, f.wire = f"::std::option::Option::Some({expr})", ""
    if mode in ("skip", "both", "ser"):
        f.ser = None
    if args:
        f.attrs = args
    f.mode = mode
    return f


# how a number of 16 bits is written in another type: encode, decode or None, decode always
PROXIES = {
    "u16": ("u16", "n", "::std::option::Option::Some(p)", "p"),
    "u32": ("u32", "n as u32", "u16::try_from(p).ok()", "p as u16"),
    "i64": ("i64", "-(n as i64)", "u16::try_from(p.wrapping_neg()).ok()", "p.wrapping_neg() as u16"),
    "String": ("::std::string::String", "n.to_string()", "p.parse().ok()", "p.len() as u16"),
    "Vec": ("::std::vec::Vec<u8>", "n.to_be_bytes().to_vec()",
            "if p.len() == 2 { ::std::option::Option::Some(p[0] as u16 * 256 + p[1] as u16) } "
            "else { ::std::option::Option::None }",
            "p.iter().fold(p.len() as u16, |a, b| a.wrapping_mul(31).wrapping_add(*b as u16))"),
    "Oct": ("::vh::values::Oct", "::bsn1_serde::OctetString::from(n.to_le_bytes().to_vec())",
            "match AsRef::<[u8]>::as_ref(&p) { [a, b] => ::std::option::Option::Some(*a as u16 + *b as u16 * 256), "
            "_ => ::std::option::Option::None }", "AsRef::<[u8]>::as_ref(&p).len() as u16"),
    "Map": ("::std::collections::BTreeMap<u8, bool>",
            "[((n >> 8) as u8, true), (n as u8, false)].into_iter().collect()",
            "if p.len() < 3 { ::std::option::Option::Some(p.len() as u16) } else { ::std::option::Option::None }",
            "p.keys().map(|k| *k as u16).sum()"),
    "Set": ("::std::collections::HashSet<i8>", "[n as i8, (n >> 8) as i8].into_iter().collect()",
            "if p.len() < 3 { ::std::option::Option::Some(p.len() as u16) } else { ::std::option::Option::None }",
            "p.len() as u16"),
    "Rec": ("::vh::derived::Tup", "::vh::derived::Tup(n as u8, ::bsn1_serde::OctetString::from(vec![(n >> 8) as u8; 3]))",
            "if AsRef::<[u8]>::as_ref(&p.1).len() < 3 { ::std::option::Option::Some(p.0 as u16) } "
            "else { ::std::option::Option::None }", "(p.0 as u16).wrapping_add(AsRef::<[u8]>::as_ref(&p.1).len() as u16)"),
    "Ch": ("::vh::derived::Ch",
           "if n % 2 == 0 { ::vh::derived::Ch::Unit } else { ::vh::derived::Ch::One(n as i64) }",
           "match p { ::vh::derived::Ch::Unit => ::std::option::Option::Some(0), "
           "::vh::derived::Ch::One(n) => u16::try_from(n).ok(), _ => ::std::option::Option::None }",
           "match p { ::vh::derived::Ch::Unit => 0, ::vh::derived::Ch::One(n) => n as u16, _ => 77 }"),
}
SER = [None, "into", "to", "to-method"]
DE = [None, "from", "try_from"]


class Conversion:
    """Items which let a type `ty` with `num(&self) -> u16` and `make(u16) -> Self` be converted."""

    def __init__(self, rng, names, ty, ser, de, p1, p2, owner_is_self=False):
        self.args, self.items = [], ""
        self.ser = self.de = None  # (model expression of {x}), (wire type, closure)
        bad = names.new("Bad")
        t1, enc, _, _ = PROXIES[p1]
        t2, _, opt, tot = PROXIES[p2]
        show = lambda t: re.sub(r"^::", "", t) if rng.random() < 0.5 else t
        enc_f = names.new("enc_")
        if ser:
            self.items += f"pub fn {enc_f}(n: u16) -> {t1} {{ {enc} }}\n"
            self.ser = f"{G}::model(&{enc_f}({{x}}.num()))"
        if ser == "into":
            self.args.append(f'into = "{show(t1)}"')
            if rng.random() < 0.5 and t1 not in self.used_into(names):
                self.items += f"impl ::std::convert::From<{ty}> for {t1} {{ fn from(v: {ty}) -> Self {{ {enc_f}(v.num()) }} }}\n"
            else:
                self.items += f"impl ::std::convert::Into<{t1}> for {ty} {{ fn into(self) -> {t1} {{ {enc_f}(self.num()) }} }}\n"
        elif ser == "to":
            f = names.new("to_") if rng.random() < 0.8 else rng.choice(["buffer", "this", "field_ref", "self_"])
            self.args.append(f'to = "{f}"')
            self.items += f"pub fn {f}(v: &{ty}) -> {t1} {{ {enc_f}(v.num()) }}\n"
        elif ser == "to-method":
            m = names.new("to_")
            self.args.append(f'to = "{rng.choice(["Self", ty]) if owner_is_self else ty}::{m}"')
            self.items += f"impl {ty} {{ pub fn {m}(&self) -> {t1} {{ {enc_f}(self.num()) }} }}\n"
        dec_f = names.new("dec_")
        if de == "from":
            self.args.append(f'from = "{show(t2)}"')
            self.items += f"pub fn {dec_f}(p: {t2}) -> u16 {{ {tot} }}\n"
            self.items += f"impl ::std::convert::From<{t2}> for {ty} {{ fn from(p: {t2}) -> Self {{ {ty}::make({dec_f}(p)) }} }}\n"
            self.de = (t2, f"|p| ::std::option::Option::Some({ty}::make({dec_f}(p)))")
        elif de == "try_from":
            self.args.append(f'try_from = "{show(t2)}"')
            self.items += f"pub fn {dec_f}(p: {t2}) -> ::std::option::Option<u16> {{ {opt} }}\n"
            self.items += (f"#[derive(Debug)] pub struct {bad};\n"
                           f"impl ::std::fmt::Display for {bad} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {{ f.write_str(\"bad\") }} }}\n"
                           f"impl ::std::error::Error for {bad} {{}}\n"
                           f"impl ::std::convert::TryFrom<{t2}> for {ty} {{ type Error = {bad}; fn try_from(p: {t2}) -> ::std::result::Result<Self, {bad}> "
                           f"{{ {dec_f}(p).map({ty}::make).ok_or({bad}) }} }}\n")
            self.de = (t2, f"|p| {dec_f}(p).map({ty}::make)")
        rng.shuffle(self.args)
        # a good value for the decoder half of the time, if there is a way to make one
        if self.de:
            good = ""
            if p1 == p2 and ser:
                good = f"if s.flag() {{ {G}::model(&{enc_f}(u16::gen_u16(s))) }} else "
            self.wire = f"{{ {good} {{ <{t2} as {G}>::wire(s, size) }} }}".replace("u16::gen_u16(s)", f"<u16 as {G}>::gen(s, 0)")
        self.needs_structure = not (ser and de)

    @staticmethod
    def used_into(names):
        return ()


STD = [
    # type, attributes, model of {x}, wire type, conversion
    ("u8", ['into = "u32"', 'try_from = "u32"'], f"{G}::model(&u32::from(*{{x}}))", "u32", "|w| u8::try_from(w).ok()"),
    ("i16", ['into = "i64"', 'try_from = "i64"'], f"{G}::model(&i64::from(*{{x}}))", "i64", "|w| i16::try_from(w).ok()"),
    ("i64", ['into = "i128"', 'from = "i32"'], f"{G}::model(&i128::from(*{{x}}))", "i32", "|w| ::std::option::Option::Some(i64::from(w))"),
    ("i64", ['from = "u8"'], f"{G}::model({{x}})", "u8", "|w| ::std::option::Option::Some(i64::from(w))"),
    ("u8", ['into = "u16"'], f"{G}::model(&u16::from(*{{x}}))", "u8", "|w| ::std::option::Option::Some(w)"),
    ("u64", ['try_from = "i128"'], f"{G}::model({{x}})", "i128", "|w| u64::try_from(w).ok()"),
    ("u128", ['try_from = "u128"', 'into = "u128"'], f"{G}::model({{x}})", "u128", "|w| ::std::option::Option::Some(w)"),
    ("::std::boxed::Box<str>", ['into = "String"', 'from = "String"'], f"{G}::model(&{{x}}.to_string())", "::std::string::String",
     "|w: ::std::string::String| ::std::option::Option::Some(w.into_boxed_str())"),
    ("char", ['into = "u32"', 'try_from = "u32"'], f"{G}::model(&(*{{x}} as u32))", "u32", "|w| ::std::primitive::char::from_u32(w)"),
    ("char", ['to = "char::to_string"', 'from = "u8"'], f"{G}::model(&{{x}}.to_string())", "u8", "|w| ::std::option::Option::Some(w as char)"),
    ("::std::net::Ipv4Addr", ['into = "u32"', 'from = "u32"'], f"{G}::model(&u32::from_be_bytes({{x}}.octets()))", "u32",
     "|w: u32| ::std::option::Option::Some(::std::net::Ipv4Addr::from(w.to_be_bytes()))"),
    ("::std::num::NonZeroU8", ['into = "u8"', 'try_from = "u8"'], f"{G}::model(&{{x}}.get())", "u8", "|w| ::std::num::NonZeroU8::new(w)"),
    ("::std::string::String", ['to = "bsn1_serde::OctetString::new"', 'try_from = "bsn1_serde::OctetString"'],
     "::vh::model::Val::prim(4, {x}.as_bytes())", "::vh::values::Oct",
     "|w: ::vh::values::Oct| ::std::string::String::from_utf8(AsRef::<[u8]>::as_ref(&w).to_vec()).ok()"),
    ("::std::vec::Vec<u8>", ['to = "::bsn1_serde::OctetString::new"', 'from = "::bsn1_serde::OctetString"'],
     "::vh::model::Val::prim(4, {x})", "::vh::values::Oct",
     "|w: ::vh::values::Oct| ::std::option::Option::Some(AsRef::<[u8]>::as_ref(&w).to_vec())"),
    ("::std::string::String", ['to = "String::len"'], f"{G}::model(&{{x}}.len())", "::std::string::String", "|w| ::std::option::Option::Some(w)"),
    ("bool", ['to = "bool::clone"'], f"{G}::model({{x}})", "bool", "|w| ::std::option::Option::Some(w)"),
    ("::std::vec::Vec<u8>", ['into = "std::collections::VecDeque<u8>"', 'from = "std::collections::BinaryHeapNot"'], None, None, None),
    ("::std::vec::Vec<u8>", ['into = "std::collections::VecDeque<u8>"', 'from = "std::collections::VecDeque::<u8>"'],
     f"{G}::model({{x}})", "::std::collections::VecDeque<u8>", "|w: ::std::collections::VecDeque<u8>| ::std::option::Option::Some(w.into_iter().collect())"),
]
STD = [s for s in STD if s[2]]


def std_field(rng, i=None):
    ty, attrs, ser, w, conv = STD[i] if i is not None else rng.choice(STD)
    attrs = list(attrs)
    rng.shuffle(attrs)
    return Field(ty, attrs, ser, f"r.conv::<{w}, {ty}>({conv})", f"<{w} as {G}>::wire(s, size)")


def user_field(rng, names, ser=..., de=..., p1=None, p2=None):
    """A field of a type of the module's own, converted."""
    ser = rng.choice(SER) if ser is ... else ser
    de = rng.choice(DE) if de is ... else de
    p1 = p1 or rng.choice(list(PROXIES))
    p2 = p2 or (p1 if rng.random() < 0.6 else rng.choice(list(PROXIES)))
    ty = names.new("User")
    c = Conversion(rng, names, ty, ser, de, p1, p2)
    ident = any_ident(rng)
    items = f"{DERIVE_PLAIN}pub struct {ty} {{ pub hi: u8, pub lo: u8 }}\n"
    if not (ser and de):
        derives = ", ".join(["::bsn1_serde::Serialize"] * (not ser) + ["::bsn1_serde::Deserialize"] * (not de))
        items = f"{DERIVE_PLAIN}#[derive({derives})]\n{attribute(ident.args(rng))}pub struct {ty} {{ pub hi: u8, pub lo: u8 }}\n"
    items += (f"impl {ty} {{ pub fn num(&self) -> u16 {{ self.hi as u16 * 256 + self.lo as u16 }}\n"
              f"pub fn make(n: u16) -> Self {{ {ty} {{ hi: (n >> 8) as u8, lo: n as u8 }} }} }}\n"
              f"impl ::vh::arb::Arb for {ty} {{ fn arb(s: &mut ::vh::Src, size: usize) -> Self {{ Self::make(<u16 as {G}>::gen(s, size)) }} }}\n")
    items += c.items
    model = f"::vh::arb::val(&{ident.rust()}, ::std::vec::Vec::from([{G}::model(&{{x}}.hi), {G}::model(&{{x}}.lo)]))"
    f = Field(ty, c.args, c.ser or model, needs=items)
    if c.de:
        f.de = f"r.conv::<{c.de[0]}, {ty}>({c.de[1]})"
        f.wire = c.wire
    else:
        # read the structure through a hand-written reader
        rd = names.new("Read")
        f.needs += reader(rd, ty, ident)
        f.de = f"r.conv::<{rd}, {ty}>(|w| ::std::option::Option::Some(w.0))"
        f.wire = f"<{rd} as {G}>::wire(s, size)"
    return f


def reader(name, ty, ident):
    """A Gen which only reads the structural form of a user type."""
    return f"""#[derive(Debug, Clone, PartialEq)] pub struct {name}(pub {ty});
impl ::bsn1_serde::ser::Serialize for {name} {{
fn write_id<W: ?Sized + ::std::io::Write>(&self, _: &mut W) -> ::std::result::Result<(), ::vh::bsn1::Error> {{ unreachable!() }}
fn write_der_contents<W: ?Sized + ::std::io::Write>(&self, _: &mut W) -> ::std::result::Result<(), ::vh::bsn1::Error> {{ unreachable!() }}
fn id_len(&self) -> ::std::result::Result<::std::option::Option<usize>, ::vh::bsn1::Error> {{ unreachable!() }}
fn der_contents_len(&self) -> ::std::result::Result<::std::option::Option<usize>, ::vh::bsn1::Error> {{ unreachable!() }}
}}
impl ::bsn1_serde::de::Deserialize for {name} {{
unsafe fn from_ber(_: &::vh::bsn1::IdRef, _: ::vh::bsn1::Length, _: &::vh::bsn1::ContentsRef) -> ::std::result::Result<Self, ::vh::bsn1::Error> {{ unreachable!() }}
fn from_der(_: &::vh::bsn1::IdRef, _: &::vh::bsn1::ContentsRef) -> ::std::result::Result<Self, ::vh::bsn1::Error> {{ unreachable!() }}
}}
impl {G} for {name} {{
const CONSTRUCTED: bool = true;
fn name() -> ::std::string::String {{ "{name}".to_string() }}
fn gen(s: &mut ::vh::Src, size: usize) -> Self {{ {name}({A}(s, size)) }}
fn model(&self) -> ::vh::model::Val {{ ::vh::arb::val(&{ident.rust()}, ::std::vec::Vec::from([{G}::model(&self.0.hi), {G}::model(&self.0.lo)])) }}
fn read(t: ::vh::model::Tlv, der: bool) -> ::vh::values::Dec<Self> {{
if t.id != {ident.rust()} {{ return ::vh::values::Dec::Reject; }}
let mut r = ::vh::arb::Fields::new(t, der);
let a = r.take::<u8>();
let b = r.take::<u8>();
r.finish(|| {name}({ty} {{ hi: a.unwrap(), lo: b.unwrap() }}))
}}
}}
"""


# ---------------------------------------------------------------- containers

DERIVE_PLAIN = "#[derive(::std::fmt::Debug, ::std::clone::Clone, ::std::cmp::PartialEq)]\n"
DERIVE = ("#[derive(::std::fmt::Debug, ::std::clone::Clone, ::std::cmp::PartialEq, ::bsn1_serde::Serialize, "
          "::bsn1_serde::Deserialize)]\n")
NAMES = ["a", "b", "c", "x", "y", "value", "first", "second", "buffer", "id", "length", "contents", "ret", "this", "val",
         "r#type", "r#match", "r#fn", "self_", "_u", "err", "context", "w", "count", "data", "len", "a1", "a2", "a3",
         "field", "tag", "ber", "der", "eoc", "Upper", "snake_case_name"]


def set_names(rng, fields, shape):
    pool = rng.sample(NAMES, len(fields)) if len(fields) <= len(NAMES) else [f"f{i}" for i in range(len(fields))]
    for i, f in enumerate(fields):
        f.name = pool[i] if shape == "named" else str(i)


# around the types of fields in a definition which is not finished
OPEN, CLOSE = "\x01", "\x02"


def dressed(text):
    """The same definition, perhaps with attributes of others, conditional attributes, or made by a
    macro which gets types and values as arguments."""
    rng = random.Random(zlib.crc32(text.encode()))
    if rng.random() < 0.25:
        text = re.sub(r"#\[bsn1_serde(\(.*?\))\](?=[ \n])",
                      lambda m: rng.choice(["{0}", "#[cfg_attr(all(), bsn1_serde{1})]", "#[doc = \"id = Set\"] {0}", "/** skip */ {0}",
                                            "{0} #[allow(unused)]", "#[cfg_attr(any(), bsn1_serde(skip, nonsense))] {0}"])
                      .format(m.group(0), m.group(1)), text)
    if rng.random() < 0.75:
        return text.replace(OPEN, "").replace(CLOSE, "")
    args, pattern = [], []

    def param(kind, value):
        pattern.append(f"$p{len(args)}:{kind}")
        args.append(value)
        return f"$p{len(args) - 1}"

    if rng.random() < 0.7:
        text = re.sub(f"{OPEN}(.*?){CLOSE}", lambda m: param("ty", m.group(1)) if rng.random() < 0.6 else m.group(1), text)
    text = text.replace(OPEN, "").replace(CLOSE, "")
    text = re.sub(r'(?<= = )("[^"]*"|[0-9]\w*)(?=[,)\]}])',
                  lambda m: param(rng.choice(["literal", "literal", "expr", "tt"]), m.group(0)) if rng.random() < 0.8 else m.group(0), text)
    text = re.sub(r"(?<=id = |ss = |pc = )\w+", lambda m: param("ident", m.group(0)) if rng.random() < 0.4 else m.group(0), text)
    text = re.sub(r"#\[(bsn1_serde\([^$]*?\))\](?=[ \n])", lambda m: f"#[{param('meta', m.group(1))}]" if rng.random() < 0.3 else m.group(0), text)
    return f"macro_rules! define {{ ({', '.join(pattern)}) => {{\n{text}}} }}\ndefine! {{ {', '.join(args)} }}\n"


def body(fields, shape):
    decl = []
    for f in fields:
        vis = f.vis if hasattr(f, "vis") else "pub "
        decl.append(attribute(f.attrs).replace("\n", " ") + vis + (f"{f.name}: " if shape == "named" else "") + OPEN + f.ty + CLOSE)
    if shape == "named":
        return "{ " + ", ".join(decl) + " }"
    if shape == "tuple":
        return "(" + ", ".join(decl) + ")"
    return ""


def shaped(path, fields, shape, exprs):
    if shape == "named":
        return path + " { " + ", ".join(f"{f.name}: {e}" for f, e in zip(fields, exprs)) + " }"
    if shape == "tuple":
        return path + "(" + ", ".join(exprs) + ")"
    return path


class Part:
    """A struct, or a variant of an enum."""

    def __init__(self, path, ident, fields, shape, transparent=False):
        self.path, self.ident, self.fields, self.shape, self.transparent = path, ident, fields, shape, transparent

    def pattern(self):
        return shaped(self.path, self.fields, self.shape, [f"f{i}" for i in range(len(self.fields))])

    def gen(self):
        return shaped(self.path, self.fields, self.shape, [f"{A}(s, size)"] * len(self.fields))

    def model(self):
        items = [f.ser.format(x=f"f{i}") for i, f in enumerate(self.fields) if f.ser]
        if self.transparent:
            assert len(items) == 1
            return items[0]
        return f"::vh::arb::val(&{self.ident.rust()}, {vec(items)})"

    def wire(self):
        items = [f.wire for f in self.fields if f.wire]
        if self.transparent:
            assert len(items) == 1
            return items[0]
        return f"::vh::arb::val(&{self.ident.rust()}, {vec(items)})"

    def read(self):
        if self.transparent:
            # the decoder of the one field sees the whole value
            lines, mapped = [], None
            for i, f in enumerate(self.fields):
                m = re.match(r"r\.conv::<(.*)>\((.*)\)$", f.de, re.S)
                if f.de.startswith("::std::option::Option::Some("):
                    lines.append(f"let f{i} = || {f.de};")
                elif m:
                    w = split_type(m.group(1))
                    mapped = (i, f"<{w} as {G}>::read(t, der).convert({m.group(2)})")
                else:
                    mapped = (i, f"<{f.ty} as {G}>::read(t, der).convert(::std::option::Option::Some)")
            i, expr = mapped
            vals = [f"f{k}" if k == i else f"f{k}().unwrap()" for k in range(len(self.fields))]
            return "\n".join(lines) + f"\n{expr}.map(|f{i}| {shaped(self.path, self.fields, self.shape, vals)})"
        lines = ["let mut r = ::vh::arb::Fields::new(t, der);"]
        for i, f in enumerate(self.fields):
            lines.append(f"let f{i}: ::std::option::Option<{f.ty}> = {f.de};")
        vals = [f"f{i}.unwrap()" for i in range(len(self.fields))]
        lines.append(f"r.finish(|| {shaped(self.path, self.fields, self.shape, vals)})")
        return "\n".join(lines)


def split_type(s):
    """`W, T` -> `W`, minding brackets."""
    depth = 0
    for i, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif c == "," and depth == 0:
            return s[:i]
    return s


def vec(items):
    return "::std::vec::Vec::from([" + ", ".join(items) + "])" if items else "::std::vec::Vec::new()"


def gen_impl(title, name, generics, args, where, parts, is_enum, conv=None):
    """`impl Gen`; conv replaces the structural form on one or both sides."""
    if is_enum:
        gen = f"match s.below({len(parts)}) {{\n" + "".join(
            f"{i if i + 1 < len(parts) else '_'} => {p.gen()},\n" for i, p in enumerate(parts)) + "}"
        model = "match self {\n" + "".join(f"{p.pattern()} => {p.model()},\n" for p in parts) + "}"
        wire = f"match s.below({len(parts)}) {{\n" + "".join(
            f"{i if i + 1 < len(parts) else '_'} => {p.wire()},\n" for i, p in enumerate(parts)) + "}"
        read = "".join(f"if t.id == {p.ident.rust()} {{\n{p.read()}\n}} else " for p in parts)
        read += "{ ::vh::values::Dec::Reject }"
    else:
        p = parts[0]
        gen, model, wire = p.gen(), f"let {p.pattern()} = self;\n{p.model()}", p.wire()
        read = p.read()
        if not p.transparent:
            read = f"if t.id != {p.ident.rust()} {{ return ::vh::values::Dec::Reject; }}\n" + read
    if conv and conv.ser:
        model = conv.ser.format(x="self")
    if conv and conv.de:
        wire = conv.wire
        read = f"<{conv.de[0]} as {G}>::read(t, der).convert({conv.de[1]})"
    return f"""#[allow(unused_variables, unused_mut, non_snake_case)]
impl{generics} {G} for {name}{args} {where} {{
const CONSTRUCTED: bool = true;
fn name() -> ::std::string::String {{ "{title}".to_string() }}
fn gen(s: &mut ::vh::Src, size: usize) -> Self {{ let size = size * 2 / 3; {gen} }}
fn model(&self) -> ::vh::model::Val {{ {model} }}
fn wire(s: &mut ::vh::Src, size: usize) -> ::vh::model::Val {{ let size = size * 2 / 3; {wire} }}
fn read(t: ::vh::model::Tlv, der: bool) -> ::vh::values::Dec<Self> {{ {read} }}
}}
"""


class Module:
    def __init__(self, label):
        self.label, self.text, self.main = label, "", None


def add_struct(m, rng, title, name, ident, fields, shape, transparent=False, generics=None, conv=None, extra=(), derive=DERIVE):
    """Appends a struct with its oracle to the module."""
    set_names(rng, fields, shape)
    g = generics or {"decl": "", "impl": "", "args": "", "where": ""}
    args = list(extra) + (conv.args if conv else []) + (["transparent"] if transparent else [])
    if not transparent and not (conv and conv.args):
        args += ident.args(rng)
    done = set()
    for f in fields:
        if f.needs and f.needs not in done:
            m.text += f.needs
            done.add(f.needs)
    b = body(fields, shape)
    tail = g["where"] + (" " + b if shape == "named" else "")
    if shape == "named":
        m.text += dressed(f"{derive}{attribute(args)}pub struct {name}{g['decl']} {g['where']} {b}\n")
    else:
        m.text += dressed(f"{derive}{attribute(args)}pub struct {name}{g['decl']}{b} {g['where']};\n")
    methods = "".join(getattr(f, "methods", "") for f in fields)
    if methods:
        m.text += f"impl{g['impl']} {name}{g['args']} {g['where']} {{ {methods} }}\n"
    part = Part(name, ident, fields, shape, transparent)
    if conv:
        m.text += conv.items
    m.text += gen_impl(title, name, g["impl"], g["args"], g["where"], [part], False, conv)


def add_enum(m, rng, title, name, variants, generics=None, conv=None):
    """variants: (name, ident, fields, shape)."""
    g = generics or {"decl": "", "impl": "", "args": "", "where": ""}
    parts, decl, done, methods = [], "", set(), ""
    for vname, ident, fields, shape in variants:
        set_names(rng, fields, shape)
        for f in fields:
            f.vis = ""
            if f.needs and f.needs not in done:
                m.text += f.needs
                done.add(f.needs)
            methods += getattr(f, "methods", "")
        decl += f"{attribute(ident.args(rng))}{vname}{body(fields, shape)},\n"
        parts.append(Part(f"{name}::{vname}", ident, fields, shape))
    args = conv.args if conv else []
    text = dressed(f"{DERIVE}{attribute(args)}pub enum {name}{g['decl']} {g['where']} {{\n{decl}}}\n")
    m.text += text
    if methods:
        m.text += f"impl{g['impl']} {name}{g['args']} {g['where']} {{ {methods} }}\n"
    # variants in scope, to see whether they hide names of derived code
    if rng.random() < 0.3 and not re.search(r"\b(Ok|Err|None|Some)\b", m.text.replace(text, "").replace("Option::Some", "")):
        m.text += f"#[allow(unused_imports)] pub use self::{name}::*;\n"
    if conv:
        m.text += conv.items
    m.text += gen_impl(title, name, g["impl"], g["args"], g["where"], parts, True, conv)


def distinct_idents(rng, n, nested=True):
    seen, out = set(), []
    while len(out) < n:
        i = any_ident(rng, nested)
        if rng.random() < 0.5 and out:
            # a near miss of an earlier one
            o = rng.choice(out)
            i = Ident(o.base, rng.choice([o.cls] + list(CLASSES)), rng.choice([o.pc] + list(PCS)),
                      rng.choice([o.num, (o.num or 0) + 1, (o.num or 0) + 128]))
            if i.num is not None and i.num >= 2 ** 128:
                continue
            if nested and i.octets[0] & 0x1f == 0 and i.octets[0] < 0x40:
                continue
        if tuple(i.octets) not in seen:
            seen.add(tuple(i.octets))
            out.append(i)
    return out


GENERICS = [
    # declaration, impl, names, where, main arguments, field types
    ("<X: ::vh::values::Gen>", None, "<X>", "", "<{0}>", ["X", "::std::vec::Vec<X>"]),
    ("<W: ::vh::values::Gen>", None, "<W>", "", "<{0}>", ["W"]),
    ("<X>", None, "<X>", "where X: ::vh::values::Gen", "<{0}>", ["X", "::std::collections::LinkedList<X>"]),
    ("<X: ::vh::values::Gen, Y>", None, "<X, Y>", "where Y: ::vh::values::Gen,", "<{0}, {1}>", ["X", "Y", "::std::vec::Vec<Y>"]),
    ("<X: ::vh::values::Gen = u8>", "<X: ::vh::values::Gen>", "<X>", "", "", ["X"]),
    ("<X: ::vh::values::Gen, const N: usize>", None, "<X, N>", "", "<{0}, 3>", ["X"]),
    ("<const N: u8>", None, "<N>", "", "<7>", ["i32", "::vh::values::NoLen<u8, N>"]),
    ("<'a, X: ::vh::values::Gen>", None, "<'a, X>", "where 'a: 'static", "<'static, {0}>", ["X"]),
    ("<'a: 'static, X>", None, "<'a, X>", "where X: ::vh::values::Gen", "<'static, {0}>", ["X"]),
    ("<Bsn1W: ::vh::values::Gen + ::std::cmp::Ord>", None, "<Bsn1W>", "", "<i16>", ["Bsn1W", "::std::collections::BTreeSet<Bsn1W>"]),
    ("<K, V>", None, "<K, V>", "where K: ::vh::values::Gen + Ord, V: ::vh::values::Gen", "<u8, {0}>",
     ["::std::collections::BTreeMap<K, V>", "V"]),
]


def generics(rng, i=None):
    decl, imp, args, where, main, types = GENERICS[i] if i is not None else rng.choice(GENERICS)
    actual = main.format(rng.choice(SIMPLE + ["::vh::derived::Rec"]), rng.choice(PLAIN))
    need = []
    if "'a" in decl:
        need.append(("::std::marker::PhantomData<&'a u8>", True))
    g = {"decl": decl, "impl": imp or decl, "args": args, "where": where, "main": actual, "types": types, "skip": need}
    for p in ("X", "Y", "W", "Bsn1W", "K", "V"):
        if re.search(rf"[<,] ?{p}\b", args) and not any(re.search(rf"\b{p}\b", t) for t in types):
            g["types"] = types + [p]
    return g


def generic_fields(rng, g):
    fields = []
    for t in g["types"]:
        fields.append(Field(t))
    if rng.random() < 0.5:
        fields.append(Field(rng.choice(SIMPLE)))
    for t, _ in g["skip"]:
        f = Field(t, ["skip"], None, "::std::option::Option::Some(::std::marker::PhantomData)")
        f.wire = ""
        fields.insert(rng.randrange(len(fields) + 1), f)
    rng.shuffle(fields)
    return fields


SHAPES = ["named", "tuple"]
TYPE_NAMES = ["S", "T", "Result", "Option", "Error", "Vec", "Write", "Serialize", "Deserialize", "IdRef", "Length", "r#Self_",
              "Clone_", "String", "ContentsRef", "BerRef", "Der", "Some", "Default", "From", "Into", "Buffer", "lower"]
VARIANTS = ["A", "B", "C", "D", "E", "F", "One", "Two", "Ok", "Err", "None", "Some", "Unit", "Value", "r#loop", "X1", "X2", "X3"]


def struct_module(rng, label, ident=None, shape=None, count=None, name="S"):
    m = Module(label)
    names = Names()
    shape = shape or rng.choice(SHAPES)
    count = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 9, 14]) if count is None else count
    ident = ident or any_ident(rng, nested=False)
    inner = []
    if rng.random() < 0.4:
        inner = ["Inner"]
        if rng.random() < 0.5:
            add_struct(m, rng, label + "::Inner", "Inner", any_ident(rng), [plain_field(rng, names) for _ in range(rng.randrange(4))],
                       rng.choice(SHAPES))
        else:
            add_enum(m, rng, label + "::Inner", "Inner", variants(rng, names, rng.randrange(1, 5)))
    fields = [plain_field(rng, names, inner) for _ in range(count)]
    add_struct(m, rng, label, name, ident, fields, shape if shape != "unit" else "unit")
    m.main = name
    return m


def variants(rng, names, n, make=None, nested=True):
    out = []
    vn = rng.sample(VARIANTS, n)
    for v, ident in zip(vn, distinct_idents(rng, n, nested)):
        shape = rng.choice(["named", "tuple", "unit", "tuple"])
        k = 0 if shape == "unit" else rng.choice([0, 1, 1, 2, 3])
        out.append((v, ident, [(make or plain_field)(rng, names) for _ in range(k)], shape))
    return out


def enum_module(rng, label, n=None, make=None):
    m = Module(label)
    names = Names()
    n = n or rng.choice([1, 2, 2, 3, 4, 5, 8, 12])
    add_enum(m, rng, label, "S", variants(rng, names, n, make))
    m.main = "S"
    return m


def generic_module(rng, label, i=None, enum=None):
    m = Module(label)
    g = generics(rng, i)
    fields = generic_fields(rng, g)
    enum = rng.random() < 0.4 if enum is None else enum
    if enum:
        ids = distinct_idents(rng, 3)
        vs = [("A", ids[0], fields, rng.choice(SHAPES)), ("B", ids[1], [Field("u8")], "tuple"), ("C", ids[2], [], "unit")]
        add_enum(m, rng, label, "S", vs, g)
    else:
        add_struct(m, rng, label, "S", any_ident(rng, False), fields, rng.choice(SHAPES), generics=g)
    m.main = "S" + g["main"]
    return m


def mixed_fields(rng, names, owner, n):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.3:
            out.append(plain_field(rng, names))
        elif k < 0.6:
            out.append(skip_field(rng, names, owner))
        elif k < 0.8:
            out.append(std_field(rng))
        else:
            out.append(user_field(rng, names))
    return unclash(rng, out)


def unclash(rng, fields):
    """At most one definition of each function name."""
    seen, out = set(), []
    for f in fields:
        new = set(re.findall(r"pub (?:fn|mod) (\w+)", re.sub(r"impl .*", "", f.needs)))
        if new & seen:
            f = Field(rng.choice(SIMPLE))
            new = set()
        seen |= new
        out.append(f)
    return out


def attr_struct(rng, label, fields=None, shape=None):
    m = Module(label)
    names = Names()
    if fields is None:
        fields = mixed_fields(rng, names, "S", rng.choice([1, 2, 3, 4, 6, 10]))
    add_struct(m, rng, label, "S", any_ident(rng, False), fields, shape or rng.choice(SHAPES))
    m.main = "S"
    return m


def attr_enum(rng, label, n=None):
    m = Module(label)
    names = Names()
    vs = variants(rng, names, n or rng.choice([1, 2, 3, 4]))
    fields, out = [], []
    for v, ident, fs, shape in vs:
        new = mixed_fields(rng, names, "S", len(fs)) if shape != "unit" else []
        out.append((v, ident, new, shape))
        fields += new
    kept = unclash(rng, fields)
    i, final = 0, []
    for v, ident, fs, shape in out:
        final.append((v, ident, kept[i:i + len(fs)], shape))
        i += len(fs)
    add_enum(m, rng, label, "S", final)
    m.main = "S"
    return m


def defined(f):
    """The helpers a field brings along."""
    return set(re.findall(r"pub (?:fn|mod) (\w+)", re.sub(r"impl .*", "", f.needs)))


def transparent(rng, label, field=None, shape=None, split=False):
    """One field which counts, among skipped ones; `split`: one for each direction."""
    m = Module(label)
    names = Names()
    if split:
        fields = [skip_field(rng, names, None, "ser"), skip_field(rng, names, None, "de")]
        rng.shuffle(fields)
    else:
        fields = [field or rng.choice([plain_field, lambda r, n: std_field(r), user_field])(rng, names)]
    kept, seen = list(fields), set()
    for f in fields:
        seen |= defined(f)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        f = skip_field(rng, names, "S", rng.choice(["skip", "both"]))
        if not defined(f) & seen:
            seen |= defined(f)
            kept.insert(rng.randrange(len(kept) + 1), f)
    add_struct(m, rng, label, "S", Ident(), kept, shape or rng.choice(SHAPES), transparent=True)
    m.main = "S"
    return m


def transparent_generic(rng, label):
    m = Module(label)
    g = generics(rng, rng.choice([0, 2, 4, 5, 7, 8]))
    names = Names()
    fields = [Field(t) for t in g["types"][:1]]
    for t, _ in g["skip"]:
        f = Field(t, ["skip"], None, "::std::option::Option::Some(::std::marker::PhantomData)")
        f.wire = ""
        fields.insert(rng.randrange(len(fields) + 1), f)
    if rng.random() < 0.5:
        fields.append(skip_field(rng, names, None, "skip"))
    add_struct(m, rng, label, "S", Ident(), fields, rng.choice(SHAPES), transparent=True, generics=g)
    m.main = "S" + g["main"]
    return m


def converted(rng, label, ser=..., de=..., p1=None, p2=None, kind=None):
    """A container with a conversion."""
    m = Module(label)
    names = Names()
    ser = rng.choice(SER) if ser is ... else ser
    de = rng.choice(DE) if de is ... else de
    if not ser and not de:
        ser = "into"
    p1 = p1 or rng.choice(list(PROXIES))
    p2 = p2 or (p1 if rng.random() < 0.6 else rng.choice(list(PROXIES)))
    kind = kind or rng.choice(["named", "tuple", "enum"])
    c = Conversion(rng, names, "S", ser, de, p1, p2, owner_is_self=True)
    if kind == "enum":
        ids = distinct_idents(rng, 3)
        vs = [("Zero", ids[0], [], "unit"), ("Small", ids[1], [Field("u8")], "tuple"),
              ("Big", ids[2], [Field("u8"), Field("u8")], "named")]
        add_enum(m, rng, label, "S", vs, conv=c)
        hi, lo = vs[2][2][0].name, vs[2][2][1].name
        m.text += f"""impl S {{ #[allow(non_snake_case)] pub fn num(&self) -> u16 {{ match self {{ S::Zero => 0, S::Small(x) => *x as u16, S::Big {{ {hi}: h, {lo}: l }} => *h as u16 * 256 + *l as u16 }} }}
pub fn make(n: u16) -> Self {{ if n == 0 {{ S::Zero }} else if n < 256 {{ S::Small(n as u8) }} else {{ S::Big {{ {hi}: (n >> 8) as u8, {lo}: n as u8 }} }} }} }}
"""
    else:
        fields = [Field("u8"), Field("u8")]
        # without conversion on one side the container has the default identifier
        add_struct(m, rng, label, "S", Ident(), fields, kind, conv=c)
        hi, lo = fields[0].name, fields[1].name
        make = f"S {{ {hi}: (n >> 8) as u8, {lo}: n as u8 }}"
        m.text += f"""impl S {{ pub fn num(&self) -> u16 {{ self.{hi} as u16 * 256 + self.{lo} as u16 }}
pub fn make(n: u16) -> Self {{ {make} }} }}
"""
    m.main = "S"
    return m


# ---------------------------------------------------------------- programs

def plain_catalogue(rng):
    out = []

    def add(make, *a, **k):
        out.append(lambda label: make(rng, label, *a, **k))

    for b in BASES:
        add(struct_module, Ident(b), shape=rng.choice(SHAPES))
        add(struct_module, Ident(b, rng.choice(list(CLASSES)), rng.choice(list(PCS)), rng.choice(NUMBERS)))
    for c in CLASSES:
        for p in [None] + list(PCS):
            add(struct_module, Ident(rng.choice([None, "Set", "Integer"]), c, p), shape=rng.choice(SHAPES), count=rng.randrange(3))
    for n in NUMBERS:
        add(enum_numbers, n)
    for i in range(len(GENERICS)):
        add(generic_module, i, False)
        add(generic_module, i, True)
    for t in TYPE_NAMES:
        add(struct_module, None, name=t)
    add(struct_module, None, "unit", 0)
    add(struct_module, Ident("Null"), "unit", 0)
    for k in (0, 1, 14, 32):
        add(struct_module, None, "named", k)
        add(struct_module, None, "tuple", k)
    for k in (1, 2, 12, 16):
        add(enum_module, k)
    return out


def enum_numbers(rng, label, n):
    """Variants whose tag numbers are close to `n`."""
    m = Module(label)
    cls = rng.choice([c for c in CLASSES if c != "UNIVERSAL"])
    nums = sorted({x for x in (n, n + 1, n - 1, n + 31, n ^ 0x80, n + 256, n & 0x7f, n & 0x1f) if 0 <= x < 2 ** 128})
    rng.shuffle(nums)
    names = Names()
    vs = []
    for v, num in zip(rng.sample(VARIANTS, len(nums)), nums):
        shape = rng.choice(["named", "tuple", "unit"])
        k = 0 if shape == "unit" else rng.choice([0, 1, 2])
        vs.append((v, Ident(None, cls, None, num), [Field(rng.choice(SIMPLE)) for _ in range(k)], shape))
    add_enum(m, rng, label, "S", vs)
    m.main = "S"
    return m


def attr_catalogue(rng):
    out = []

    def add(make, *a, **k):
        out.append(lambda label: make(rng, label, *a, **k))

    def one(field, transparent_too=True):
        # the field among others, and alone in a transparent struct
        add(around, field, None)
        if transparent_too:
            add(transparent_of, field)

    for i in range(len(STD)):
        one(lambda names, i=i: std_field(rng, i))
    for mode in SKIPS:
        for kind in (["none", "fn", "mod", "clash", "Self", "owner", "new"] if mode != "ser" else [None]):
            ty = "::std::string::String" if kind == "new" else rng.choice(["u8", "i64", "bool"])
            add(around, lambda names, mode=mode, kind=kind, ty=ty: skip_field(rng, names, "S", mode, ty, kind), None)
    for name in CLASHES:
        add(clash, name)
    for name in ("Default", "Some", "Option", "Clone"):
        add(hiding, name)
    for ser in SER:
        for de in DE:
            if ser or de:
                p = rng.choice(list(PROXIES))
                one(lambda names, ser=ser, de=de, p=p: user_field(rng, names, ser, de, p, p))
                for kind in ("named", "tuple", "enum"):
                    add(converted, ser, de, kind=kind)
    for p in PROXIES:
        add(converted, rng.choice(SER[1:]), rng.choice(DE[1:]), p, p)
        add(converted, rng.choice(SER[1:]), rng.choice(DE[1:]), p, None)
    for _ in range(3):
        add(transparent, split=True)
        add(transparent_generic)
    return out


def around(rng, label, field, shape):
    """The field among plain ones, at a random place; in a struct or a variant."""
    m = Module(label)
    names = Names()
    fields = [Field(rng.choice(SIMPLE)) for _ in range(rng.randrange(3))]
    fields.insert(rng.randrange(len(fields) + 1), field(names))
    if rng.random() < 0.3:
        ids = distinct_idents(rng, 2)
        add_enum(m, rng, label, "S", [("A", ids[0], fields, rng.choice(SHAPES)), ("B", ids[1], [Field("u8")], "tuple")])
    else:
        add_struct(m, rng, label, "S", any_ident(rng, False), fields, shape or rng.choice(SHAPES))
    m.main = "S"
    return m


def transparent_of(rng, label, field):
    m = Module(label)
    names = Names()
    fields = [field(names)]
    for _ in range(rng.choice([0, 1, 2])):
        fields.insert(rng.randrange(len(fields) + 1), skip_field(rng, names, "S", rng.choice(["skip", "both"]), kind="fn", ty="u8"))
    add_struct(m, rng, label, "S", Ident(), fields, rng.choice(SHAPES), transparent=True)
    m.main = "S"
    return m


def clash(rng, label, name):
    """User functions which are called like variables in generated code."""
    m = Module(label)
    f = Field("u8", ["skip", f'default = "{name}"'], None, f"::std::option::Option::Some({name}())",
              needs=f"pub fn {name}() -> u8 {{ 77 }}\n")
    f.wire = ""
    g = Field("u16", [f'to = "to::{name}"'], f"{G}::model(&to::{name}({{x}}))",
              needs=f"pub mod to {{ pub fn {name}(v: &u16) -> u16 {{ *v / 2 }} }}\n")
    fields = [f, g, Field("bool")]
    rng.shuffle(fields)
    if rng.random() < 0.5:
        add_struct(m, rng, label, "S", any_ident(rng, False), fields, rng.choice(SHAPES))
    else:
        ids = distinct_idents(rng, 2)
        add_enum(m, rng, label, "S", [("A", ids[0], fields, "named"), ("B", ids[1], [], "unit")])
    m.main = "S"
    return m


def hiding(rng, label, name):
    """A type which hides a name of the prelude."""
    m = Module(label)
    f = skip_field(rng, Names(), None, "skip", "u8", "none")
    fields = [Field("u8"), f, std_field(rng, 0), std_field(rng, 1)][:rng.choice([2, 3, 4])]
    rng.shuffle(fields)
    add_struct(m, rng, label, name, any_ident(rng, False), fields, rng.choice(SHAPES))
    m.main = name
    return m


def random_plain(rng, label):
    return rng.choice([struct_module, struct_module, enum_module, generic_module])(rng, label)


def random_attr(rng, label):
    return rng.choice([attr_struct, attr_struct, attr_enum, transparent, transparent_generic, converted])(rng, label)


def program(prop, seed, count):
    rng = random.Random(f"{prop} {seed}")
    plain, attr = plain_catalogue(rng), attr_catalogue(rng)
    if prop == "P19":
        makers = plain
        more = random_plain
    elif prop == "P20":
        makers = attr
        more = random_attr
    else:
        makers = rng.sample(plain, min(len(plain), count // 3)) + rng.sample(attr, min(len(attr), count // 3))
        more = lambda r, l: (random_plain if r.random() < 0.5 else random_attr)(r, l)
    mods = []
    for i in range(max(count, len(makers))):
        label = f"t{i}"
        mods.append(makers[i](label) if i < len(makers) else more(rng, label))
    return mods


def binary_source(prop, mods, cases):
    text = "#![allow(dead_code, non_camel_case_types, non_snake_case, unused_variables, unused_imports)]\n"
    lines = []
    for m in mods:
        start = text.count("\n") + 1
        text += f"mod {m.label} {{\n{m.text}pub type Main_ = {m.main};\n}}\n"
        lines.append((start, text.count("\n"), m))
    arms = "".join(f"{i} => vh::arb::{CASE[prop]}::<{m.label}::Main_>(s, ctx),\n" for i, m in enumerate(mods[:-1]))
    text += f"""fn case(s: &mut vh::Src, ctx: &mut vh::Ctx) -> vh::R {{
match vh::arb::choose(s, {len(mods)}) {{
{arms}_ => vh::arb::{CASE[prop]}::<{mods[-1].label}::Main_>(s, ctx),
}}
}}
fn fixed(run: &mut dyn FnMut(Vec<u8>), _: bool) {{
for i in 0..{len(mods)} {{ let first = ((i * 256 + {len(mods)} - 1) / {len(mods)}) as u8; run(vec![first]); run(vec![first, 0, 255, 255, 255, 255, 255, 255]); }}
}}
fn main() {{
vh::engine::main(vh::Property {{ id: "{prop}", rule: "{RULE[prop]}", case, fixed, quick: {cases}, thorough: {cases} }})
}}
"""
    return text, lines


MANIFEST = """[package]
name = "dv"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
vh = {{ path = "{harness}" }}
bsn1_serde = {{ path = "/repo/bsn1_serde" }}

[profile.release]
opt-level = 1
debug = false
codegen-units = 4
incremental = false

[profile.release.package."*"]
opt-level = 2

[profile.checked]
inherits = "release"
debug-assertions = true
overflow-checks = true

[workspace]
"""


def write_crate(root, prop, groups, cases):
    os.makedirs(os.path.join(root, "src", "bin"))
    with open(os.path.join(root, "Cargo.toml"), "w") as f:
        f.write(MANIFEST.format(harness=run.HARNESS))
    lock = open(os.path.join(run.HARNESS, "Cargo.lock")).read()
    deps = "\n".join(f' "{d}",' for d in ("bsn1_serde", "vh"))
    lock += f'\n[[package]]\nname = "dv"\nversion = "0.1.0"\ndependencies = [\n{deps}\n]\n'
    with open(os.path.join(root, "Cargo.lock"), "w") as f:
        f.write(lock)
    maps = []
    for i, mods in enumerate(groups):
        text, lines = binary_source(prop, mods, cases)
        with open(os.path.join(root, "src", "bin", f"g{i}.rs"), "w") as f:
            f.write(text)
        maps.append(lines)
    return maps


def build(root, env, bins, target, keep_going=False):
    """Builds in both profiles; returns (ok, output)."""
    return run.build(env, bins, os.path.join(root, "Cargo.toml"), target, fatal=False)


def single(prop, m, env, base, target):
    """A crate with one module; returns (root, ok, output)."""
    root = tempfile.mkdtemp(dir=base)
    write_crate(os.path.join(root, "c"), prop, [[m]], 1)
    ok, out = build(os.path.join(root, "c"), env, ["g0"], target)
    return root, ok, out


def uncompiled(prop, out, maps, env, base, target):
    """The module which does not compile, with the compiler's words."""
    suspects = []
    out = "\n".join(b for b in re.split(r"\n(?=error|warning|\n)", out) if b.startswith("error"))
    for g, lines in enumerate(maps):
        for hit in re.finditer(rf"src/bin/g{g}\.rs:(\d+):", out):
            n = int(hit.group(1))
            for a, b, m in lines:
                if a <= n <= b and m not in suspects:
                    suspects.append(m)
    for m in suspects[:12]:
        _, ok, text = single(prop, m, env, base, target)
        if not ok and re.search(r"^error", text, re.M):
            # and not because nothing compiles any more
            ctl = Module("t0")
            ctl.text, ctl.main = "", "::std::vec::Vec<u8>"
            if not single(prop, ctl, env, base, target)[1]:
                raise NoAnswer("the harness does not build")
            return m, "\n".join(l for l in text.splitlines() if l.startswith("error") or "-->" in l)[:1500]
    return None, None


def check(prop, tier, seed, env, start):
    mods = program(prop, seed, COUNT[tier][prop])
    groups = [mods[i::BINS] for i in range(BINS)]
    cases = CASES[tier][prop]
    base = tempfile.mkdtemp(dir=run.WORK, prefix="derive-")
    target = os.path.join(base, "target")
    try:
        maps = write_crate(os.path.join(base, "c"), prop, groups, cases)
        bins = [f"g{i}" for i in range(BINS)]
        ok, out = build(os.path.join(base, "c"), env, bins, target)
        built = time.time()
        failures, results = [], []
        if not ok:
            m, text = uncompiled(prop, out, maps, env, base, target)
            if m is None:
                import sys
                sys.stderr.write(out[-6000:])
                raise NoAnswer("the generated program does not build")
            failures.append({"property": prop, "seed": seed, "kind": "does-not-compile", "msg": text, "profile": "release",
                             "desc": m.text[:3000], "module": [m.label, m.text, m.main], "entropy": ""})
            distinct = 0
        else:
            with tempfile.TemporaryDirectory(dir=base) as o:
                results, failures = run_bins(prop, tier, seed, env, cases, o, target, groups)
                hashes = [os.path.join(o, f) for f in os.listdir(o) if f.endswith(".hashes")]
                distinct = int(subprocess.run([run.binary("release", "g0", target), "merge"] + hashes, env=env,
                                              stdout=subprocess.PIPE, check=True).stdout)
        labels, samples = {}, []
        for r in results:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            samples += [s for s in r["samples"][:2] if s not in samples]
        coverage = {
            "evaluations": sum(r["evaluations"] for r in results) or 1, "distinct_nontrivial": distinct, "rule": RULE[prop],
            "samples": ([m.text[:700] for m in mods[:: max(1, len(mods) // 4)]] + samples)[:20], "exhaustive": False,
            "generated_types": len(mods), "labels": dict(sorted(labels.items())),
            "builds": {"release": "optimised, no assertions", "checked": "debug assertions and overflow checks"},
            "build_s": round(built - start, 1),
        }
        assumptions = run.ASSUMPTIONS + ["the statement of each generated type in derive.py says correctly what its attributes mean"]
        return run.report(prop, tier, seed, "exploration", coverage, assumptions, start, failures, {})
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_bins(prop, tier, seed, env, cases, out, target, groups):
    procs = []
    for pi, prof in enumerate(run.PROFILES):
        for i in range(BINS):
            shard = pi * BINS + i
            cmd = [run.binary(prof, f"g{i}", target), "worker", str(seed), str(shard), "1", str(cases), tier, out]
            log = open(os.path.join(out, f"{shard}.log"), "wb")
            procs.append((prof, i, shard, subprocess.Popen(cmd, env=env, stdout=log, stderr=log, preexec_fn=run.limits)))
    deadline = time.time() + run.WATCHDOG[tier]
    results, failures = [], []
    try:
        for prof, i, shard, p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                raise NoAnswer(f"shard {shard} ran out of time")
            f = None
            if p.returncode == 0:
                r = json.load(open(os.path.join(out, f"{shard}.json")))
                results.append(r)
                f = r["failure"]
            else:
                log = open(os.path.join(out, f"{shard}.log"), errors="replace").read()[-2000:]
                if p.returncode < 0 and -p.returncode in run.CRASH:
                    import signal
                    f = run.crash(f"g{i}", prof, out, shard, env, signal.Signals(-p.returncode).name, log, target)
                else:
                    raise NoAnswer(f"shard {shard} ended with {p.returncode}: {log}")
            if f:
                first = int(f["entropy"][:2] or "0", 16)
                m = groups[i][first * len(groups[i]) >> 8]
                f = dict(f, profile=prof, property=prop, seed=seed, module=[m.label, m.text, m.main],
                         desc=f["desc"] + "\n" + m.text[:3000])
                failures.append(f)
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                p.kill()
    unique = {}
    for f in failures:
        unique.setdefault(f["kind"], f)
    return results, list(unique.values())


def replay(data, env):
    m = Module(data["module"][0])
    m.text, m.main = data["module"][1], data["module"][2]
    base = tempfile.mkdtemp(dir=run.WORK, prefix="derive-")
    try:
        target = os.path.join(base, "target")
        root, ok, out = single(data["property"], m, env, base, target)
        if not ok:
            print(out[-3000:])
            if data["kind"] != "does-not-compile":
                raise NoAnswer("the program of the replay file does not build")
            print(f"VIOLATION property={data['property']} replay={data.get('path', '')}")
            return 1
        state, text = run.run_one(run.binary(data["profile"], "g0", target), bytes.fromhex(data["entropy"]), env)
        print(text)
        if state in ("failed", "crash"):
            print(f"VIOLATION property={data['property']} replay={data.get('path', '')}")
            return 1
        return 0 if state == "held" else 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
