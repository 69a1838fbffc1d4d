"""P22: definitions whose attributes the derive macros have to refuse.

Many definitions go into one file; each has to draw an error on its own lines. One which draws
none is built alone, and counts as accepted if that succeeds.
"""
import json, os, random, shutil, subprocess, tempfile, time

import run
from run import NoAnswer

ID = ["id = Set", "id = Integer", "tag_class = PRIVATE", "tag_class = UNIVERSAL", "tag_pc = PRIMITIVE",
      "tag_pc = CONSTRUCTED", "tag_num = 5", "tag_num = 0x1ff", "tag_num = 0"]
SKIP = ["skip", "skip_serializing", "skip_deserializing", 'default = "Vec::new"']
INTO = ['into = "Vec<u8>"', 'to = "to_vec"']
FROM = ['from = "Vec<u8>"', 'try_from = "Vec<u8>"']
CONV = INTO + FROM
PLACES = {"struct": SKIP, "enum": ID + SKIP + ["transparent"], "variant": SKIP + CONV + ["transparent"], "field": ID + ["transparent"]}
MALFORMED = [
    "id = Foo", "id = set", 'id = "Set"', "id = 0x30", "id", "id Set", "id =", "tag_class = FOO", "tag_class = private",
    'tag_class = "PRIVATE"', "tag_class = 1", "tag_class", "tag_pc = Primitive", "tag_pc = 1", "tag_pc", "tag_num = -1",
    "tag_num = 340282366920938463463374607431768211456", 'tag_num = "5"', "tag_num = 1.5", "tag_num = FIVE", "tag_num",
    "tag_num = 'a'", "tag_num = 0x1ffffffffffffffffffffffffffffffff", "unknown", "unknown = 1", "Id = Set", "tag = 5", "5", "\"id\"",
    "transparent = true", "transparent(true)", "id = Set; tag_num = 5", "id: Set", "id == Set",
]
BAD_CONV = ["into = u16", "into", 'into = ""', 'into = "1x"', "to = 5", "to", 'to = "a b"', "from = u16", "from", 'from = "&u16"',
            "try_from = u16", "try_from", 'try_from = "[u8; 2]"']
BAD_SKIP = ["skip = true", "skip(true)", "default", "default = Vec", "default = 5", 'default = ""', 'default = "a b"', "skipp",
            "skip_serialising", "skip_deserializing = false"]
EQUALS = '#[bsn1_serde = "id"]'


def attr(*args):
    return f"#[bsn1_serde({', '.join(args)})]"


class Def:
    """text: items of a module; what: the flaw."""

    def __init__(self, what, text):
        self.what, self.text = what, text


def build(rng, derive, controls=False):
    """The definitions for one derive macro: flawed ones, or else ones like them without a flaw."""
    out = []
    head = f"#[derive(Clone, bsn1_serde::{derive})]\n"

    def struct(what, args, field=(), shape=None):
        shape = shape or rng.choice(["named", "tuple"])
        a = list(args)
        rng.shuffle(a)
        f = list(field)
        rng.shuffle(f)
        fa = attr(*f) + " " if f else ""
        before = rng.choice(["", "pub b: u8, "]) if shape == "named" else rng.choice(["", "pub u8, "])
        if "transparent" in a:
            before = ""
        body = f"{{ {before}{fa}pub a: Vec<u8> }}" if shape == "named" else f"({before}{fa}pub Vec<u8>);"
        out.append(Def(f"{derive}: {what}", f"{head}{attr(*a) if a else ''}\npub struct S{body}\n"))

    def enum(what, args, variant=(), field=()):
        a, v, f = list(args), list(variant), list(field)
        for x in (a, v, f):
            rng.shuffle(x)
        shape = rng.choice(["named", "tuple"])
        fa = attr(*f) + " " if f else ""
        body = f"{{ {fa}a: Vec<u8> }}" if shape == "named" else f"({fa}Vec<u8>)"
        first = rng.choice(["", f"{attr('id = Set')} Z,\n"])
        out.append(Def(f"{derive}: {what}", f"{head}{attr(*a) if a else ''}\npub enum S {{ {first}{attr(*v) if v else ''} A{body} }}\n"))

    def place(where, what, args):
        if where == "struct":
            struct(what, args)
        elif where == "enum":
            enum(what, args)
        elif where == "variant":
            enum(what, [], args)
        elif rng.random() < 0.5:
            struct(what, [], args)
        else:
            enum(what, [], [], args)

    if controls:
        for where, args in (("struct", ID + CONV + ["transparent"]), ("variant", ID), ("enum", CONV), ("field", SKIP + CONV)):
            for a in args:
                place(where, f"`{a}` on {where}", [a])
        place("struct", "several on struct", ["id = Set", "tag_class = PRIVATE", "tag_pc = PRIMITIVE", "tag_num = 5"])
        place("enum", "both conversions on enum", [rng.choice(INTO), rng.choice(FROM)])
        place("field", "skip and default on field", ["skip", 'default = "Vec::new"'])
        return out
    for where, args in PLACES.items():
        for a in args:
            place(where, f"`{a}` on {where}", [a])
            place(where, f"`{a}` on {where}", [a] + rng.sample(
                {"struct": ID + CONV, "enum": CONV, "variant": ID, "field": CONV}[where], 1))
    # exclusive pairs, each allowed alone
    for a in ID:
        for c in CONV + ["transparent"]:
            place("struct", f"`{a}` with `{c}` on struct", [a, c])
    for c in CONV:
        place("struct", f"`{c}` with transparent on struct", [c, "transparent"])
        for s in SKIP:
            place("field", f"`{c}` with `{s}` on field", [c, s])
    for where in ("struct", "enum", "field"):
        place(where, f"into with to on {where}", INTO)
        place(where, f"from with try_from on {where}", FROM)
    # repetitions
    for where, args in (("struct", ID + CONV + ["transparent"]), ("variant", ID), ("enum", CONV), ("field", SKIP + CONV)):
        for a in args:
            place(where, f"`{a}` twice on {where}", [a, a])
    for where, a, b in (("struct", "id = Set", "tag_num = 3"), ("struct", INTO[0], FROM[0]), ("struct", "transparent", "id = Set")):
        out.append(Def(f"{derive}: two attributes on {where}", f"{head}{attr(a)}\n{attr(b)}\npub struct S(pub Vec<u8>);\n"))
    out.append(Def(f"{derive}: two attributes on field", f"{head}pub struct S({attr('skip')} {attr('default = \"Vec::new\"')} pub Vec<u8>);\n"))
    out.append(Def(f"{derive}: two attributes on variant", f"{head}pub enum S {{ {attr('id = Set')} {attr('tag_num = 3')} A(u8) }}\n"))
    # malformed arguments
    for a in MALFORMED:
        place("struct", f"`{a}` on struct", [a])
        place("variant", f"`{a}` on variant", [a])
    for a in BAD_CONV:
        place(rng.choice(["struct", "enum"]), f"`{a}` on a container", [a])
        place("field", f"`{a}` on field", [a])
    for a in BAD_SKIP:
        place("field", f"`{a}` on field", [a])
    # arguments which nothing, or something else than one comma, separates
    def separate(where, args):
        a, b = rng.sample(args, 2)
        for flaw, text in (("no comma", f"{a} {b}"), ("two commas", f"{a},, {b}"), ("a comma in front", f", {a}"),
                           ("a semicolon", f"{a}; {b}"), ("a comma as the value", f"{a}, {b.split(' ')[0]} = ,")):
            place(where, f"{flaw} on {where}", [text])
    separate("struct", ["id = Set", "tag_class = PRIVATE", "tag_pc = PRIMITIVE", "tag_num = 5"])
    separate("struct", [rng.choice(INTO), rng.choice(FROM)])
    separate("enum", [rng.choice(INTO), rng.choice(FROM)])
    separate("variant", ["id = Set", "tag_class = PRIVATE", "tag_pc = PRIMITIVE", "tag_num = 5"])
    separate("field", rng.choice([SKIP, [rng.choice(INTO), rng.choice(FROM)]]))
    # not in parentheses
    for body in (f"{EQUALS}\npub struct S(pub Vec<u8>);", f"pub struct S({EQUALS} pub Vec<u8>);",
                 f"{EQUALS}\npub enum S {{ A(Vec<u8>) }}", f"pub enum S {{ {EQUALS} A(Vec<u8>) }}",
                 f"pub enum S {{ A {{ {EQUALS} a: Vec<u8> }} }}"):
        out.append(Def(f"{derive}: no parentheses", f"{head}{body}\n"))
    # flaws below a type which is converted as a whole
    whole = INTO if derive == "Serialize" else FROM
    for where, args in (("field", PLACES["field"] + MALFORMED[:20] + BAD_SKIP), ("variant", PLACES["variant"] + MALFORMED[:20])):
        for a in rng.sample(args, 12):
            if where == "field" and rng.random() < 0.5:
                struct(f"`{a}` on field of a converted struct", [rng.choice(whole)], [a])
            elif where == "field":
                enum(f"`{a}` on field of a converted enum", [rng.choice(whole)], [], [a])
            else:
                enum(f"`{a}` on variant of a converted enum", [rng.choice(whole)], [a])
    # transparent with other than one field which counts
    other = "skip_serializing" if derive == "Serialize" else "skip_deserializing"
    this = "skip_deserializing" if derive == "Serialize" else "skip_serializing"
    for what, body in [
        ("no field", "{}"), ("no field", "();"), ("no field", ";"), ("two fields", "{ a: u8, b: u8 }"), ("two fields", "(u8, u8);"),
        ("three fields", "(u8, u8, u8);"), ("skipped only", f"({attr('skip')} u8);"),
        ("skipped only", f"{{ {attr('skip')} a: u8, {attr('skip_serializing', 'skip_deserializing')} b: u8 }}"),
        ("skipped on this side only", f"({attr(other)} u8);"), ("two on this side", f"({attr(this)} u8, u8);"),
        ("two besides a skipped one", f"(u8, {attr('skip')} u8, u8);"),
        ("two with conversions", f"({attr(*[INTO[0]])} Vec<u8>, {attr(FROM[0])} Vec<u8>);"),
    ]:
        out.append(Def(f"{derive}: transparent, {what}", f"{head}{attr('transparent')}\npub struct S{body}\n"))
    out.append(Def(f"{derive}: union", f"#[derive(Clone, Copy, bsn1_serde::{derive})]\npub union S {{ a: u8, b: i8 }}\n"))
    return out


MANIFEST = """[package]
name = "mu"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
bsn1_serde = {{ path = "/repo/bsn1_serde" }}

[workspace]
"""
PRELUDE = "#![allow(dead_code, unused)]\npub fn to_vec<T>(_: &T) -> Vec<u8> { Vec::new() }\nfn main() {}\n"
# what the definition needs to compile if its flaw goes unnoticed
MODULE = """use super::to_vec;
impl From<Vec<u8>> for S { fn from(_: Vec<u8>) -> S { loop {} } }
impl From<S> for Vec<u8> { fn from(_: S) -> Vec<u8> { loop {} } }
"""


def write(root, defs):
    os.makedirs(os.path.join(root, "src"))
    with open(os.path.join(root, "Cargo.toml"), "w") as f:
        f.write(MANIFEST.format())
    lock = open(os.path.join(run.HARNESS, "Cargo.lock")).read()
    lock = lock.split("[[package]]")
    keep = [p for p in lock if 'name = "vh"' not in p]
    deps = "\n".join(f' "{d}",' for d in ("bsn1_serde",))
    with open(os.path.join(root, "Cargo.lock"), "w") as f:
        f.write("[[package]]".join(keep).rstrip() + f'\n\n[[package]]\nname = "mu"\nversion = "0.1.0"\ndependencies = [\n{deps}\n]\n')
    text, lines = PRELUDE, []
    for i, d in enumerate(defs):
        start = text.count("\n") + 1
        text += f"mod m{i} {{\n{MODULE}{d.text}}}\n"
        lines.append((start, text.count("\n")))
    with open(os.path.join(root, "src", "main.rs"), "w") as f:
        f.write(text)
    return lines


def errors(root, target, env):
    """(exit status, [(first line, last line, message)]) of the compiler for the file."""
    p = subprocess.run(["cargo", "check", "--offline", "--locked", "--message-format=json", "--manifest-path",
                        os.path.join(root, "Cargo.toml"), "--target-dir", target], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    found, ours = [], False
    for line in p.stdout.decode(errors="replace").splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("target", {}).get("name") != "mu":
            continue
        ours = True
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            for s in m["message"]["spans"]:
                while s and s["file_name"] != "src/main.rs" and s.get("expansion"):
                    s = s["expansion"]["span"]
                if s["file_name"] == "src/main.rs":
                    found.append((s["line_start"], s["line_end"], m["message"]["message"]))
    if not ours:
        raise NoAnswer("the compiler did not get as far as the definitions: " + p.stderr.decode(errors="replace")[-2000:])
    return p.returncode, found


def verdicts(defs, base, env, again=True):
    """For each definition: the compiler's message, or None if it is accepted."""
    target = os.path.join(base, "target")
    root = os.path.join(base, "all" if again else "controls")
    lines = write(root, defs)
    _, found = errors(root, target, env)
    out = []
    for i, (a, b) in enumerate(lines):
        msgs = [m for x, y, m in found if a <= x and y <= b]
        if not msgs and again:
            alone = os.path.join(base, f"alone{i}")
            write(alone, [defs[i]])
            status, found1 = errors(alone, target, env)
            msgs = [m for _, _, m in found1] or (["refused"] if status else [])
        out.append(msgs[0] if msgs else None)
    return out


def check(prop, tier, seed, env, start):
    rounds = 2 if tier == "quick" else 20
    defs = []
    for r in range(rounds):
        rng = random.Random(f"{prop} {seed} {r}")
        for derive in ("Serialize", "Deserialize"):
            defs += build(rng, derive)
    rng = random.Random(f"{prop} {seed} controls")
    controls = build(rng, "Serialize", True) + build(rng, "Deserialize", True)
    base = tempfile.mkdtemp(dir=run.WORK, prefix="misuse-")
    try:
        got = verdicts(defs, base, env)
        # refused controls are no violation of this property; they would say that refusals mean little
        refused = [f"{d.what}: {g}" for d, g in zip(controls, verdicts(controls, base, env, False)) if g is not None]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    failures, seen = [], set()
    for d, g in zip(defs, got):
        if g is None and d.what not in seen:
            seen.add(d.what)
            failures.append({"property": prop, "seed": seed, "kind": "accepted: " + d.what, "msg": "the derive macro accepts " + d.what,
                             "desc": d.text, "what": d.what})
    coverage = {
        "evaluations": len(defs), "distinct_nontrivial": len({d.text for d in defs}),
        "rule": "every definition with one flaw; distinct by its text",
        "samples": [f"{d.text.strip()} => {g}" for d, g in list(zip(defs, got))[:: max(1, len(defs) // 12)]],
        "exhaustive": False, "labels": {"flaws": len({d.what for d in defs}), "controls": len(controls), "controls accepted": len(controls) - len(refused)},
        "controls_refused": refused[:5],
    }
    assumptions = ["x86_64 Linux", "the list of flaws in misuse.py follows the documentation of the attribute and the rules stated in attribute.rs"]
    return run.report(prop, tier, seed, "exploration", coverage, assumptions, start, failures[:10], {})


def replay(data, env):
    base = tempfile.mkdtemp(dir=run.WORK, prefix="misuse-")
    try:
        got = verdicts([Def(data["what"], data["desc"])], base, env)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(data["desc"], got[0])
    if got[0] is None:
        print(f"VIOLATION property={data['property']} replay={data['path']}")
        return 1
    return 0
