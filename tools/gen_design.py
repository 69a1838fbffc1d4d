"""Writes DESIGN.md; the table of planted bugs comes from seeded/."""
import json,glob,os
head = """# How the properties of rust-bsn1 are decided

Everything here is property-based testing and fuzzing: generated inputs, operation
histories, read/write schedules and (for the derive macros) generated programs, each
judged against an explicit oracle that does not use the code under test. No property
is listed under `not_applicable`: all of them are statements over inputs, histories,
schedules or programs which a generator can produce.

## Common machinery

* **Entropy-driven cases** (`harness/src/engine.rs`). A case is a function of a byte
  vector. `Src` hands out octets from a PRNG seeded with (VERIF_SEED, property, shard,
  case number) and records them, or replays a recorded vector (octets past the end
  read as zero). Smaller octets mean simpler choices, so one generic shrinker works for
  all cases and the shrunk vector is the replay file.
  `python3 /verif/run.py replay FILE` runs it again.
* **Fixed cases.** Small domains (all octet strings of up to two or three octets, all
  token strings inside an indefinite length, every value of the narrow integers) are
  enumerated through the same case function before the random ones.
* **Shrinking.** Drop the tail, delete chunks, zero chunks, lower single octets,
  keeping the same failure kind; bounded by executions and by 60 s. When the failure is
  a dead process, the shrinker runs each candidate in a child process.
* **Two builds.** Every check builds `/repo` twice from its working tree: `release`
  (no assertions: what users run) and `checked` (debug assertions and overflow
  checks on). Four shards run in each.
* **Outcomes.** A panic is caught and is a failure of the case; death by
  SIGSEGV/SIGABRT/SIGBUS/SIGILL is a failure of the case named in the shard's progress
  file. Watchdog, SIGKILL and failed builds are errors of the check (exit 2), never
  violations; only a derived type which does not compile although its control does is
  a violation of P19 to P21.
* **Fixed work.** Both tiers run a fixed number of cases; time never decides an outcome.
* **Reference model** (`harness/src/model.rs`, `values.rs`): a second implementation of
  the X.690 identifier, length, integer, boolean and TLV rules, written from the standard
  and from the documented restrictions of the crate (shortest forms only, lengths of at
  most a machine word), with an encoder and a decoder of typed value trees. Where the
  standard or the documentation leave a result open, the model says so (`Maybe`, `Open`)
  and the checks accept both.
* **Checking allocator** (`guard.rs`): global allocator with header, guard octets, poison,
  comparison of the layout on free, leak count and largest-request tracker.
* **Faulty I/O** (`io.rs`): readers and writers which follow a generated schedule of short
  transfers, interruptions and failures.
* **Generated programs** (`derive.py`, `misuse.py`): for the derive macros the input is Rust
  source. A generator draws type definitions with attributes, writes beside each, independently
  of the macros, how its values are encoded and decoded, compiles hundreds of them into a crate
  below a scratch directory and runs the same entropy-driven cases on each.

Sizes: contents lie around 0, the inline storage (18 to 26 octets), 127/128, 255/256 and
65535/65536; a few cases of each run are of 2^17 to 2^24 octets. Nesting goes to 300 levels,
in a few cases to 70,000 (P02, P03) and 200,000 (P04). Collections have up to 320 elements.

## Properties

"""
P = {
"P01": ("octet strings: all of up to two octets and chosen longer ones, noise, trees of values, mutated and truncated trees, headers with every kind of malformed identifier and length, trailing octets; parse and parse_mut",
  "reference delimiter: acceptance, the three parts, the position of the value inside the caller's slice, the rest of the slice; on error the kind must be one that applies and the slice must be where it was"),
"P02": ("the same with definite and indefinite nodes nested in each other; all strings of up to 5 tokens (end-of-contents, openings, look-alikes) inside an indefinite length; up to 70,000 levels",
  "reference delimiter counting open values; results as in P01. What a parser makes of an end-of-contents identifier with another length than zero (`00 01 xx`, `00 80`) is open: refusing and accepting are both taken"),
"P03": ("streams of one to five identifiers, lengths, DER and BER values and typed values; schedules of one octet, random chunks, interruptions; generic and dyn readers; truncation",
  "reference result, the slice parser (differential), and the number of octets taken from the reader on success"),
"P04": ("malformed and truncated octets, announced lengths up to 2^64-1, a source which fails at each position for good or a single time, nesting of 200,000 levels, typed decoding of mutated encodings",
  "no panic or abort; success only where the reference accepts; the injected I/O error comes back; the largest request and the peak of the checking allocator are bounded by a constant plus a multiple of the octets delivered"),
"P05": ("class, P/C flag, numbers around every power of 2 and 128 up to 128 bits and beyond; raw identifier octets; histories of set_class, set_pc, set_number", "reference identifier codec, after each step of a history"),
"P06": ("numbers around each octet boundary, raw length octets (all of up to three octets), pairs", "reference length codec; order and equality of lengths"),
"P07": ("integers of twelve types at the boundaries of each width, raw contents up to 24 octets, padded contents, booleans", "reference two's complement arithmetic on octets; each contents is decoded into every type"),
"P08": ("identifier x contents x construction route (whole, reserved, fragments, conversions), then every accessor and conversion; totals beyond isize::MAX", "reference TLV encoder; a panic for the impossible totals"),
"P09": ("histories of up to 14 edits on up to 4 values", "a vector model of identifier and contents, compared after each step, also for the values not edited; comparison with a rebuilt value"),
"P10": ("histories over identifiers, contents, DER and BER values, failing parses, misbehaving iterators; some of them, and of P03, P05, P08, P09, P13 and P17, also interpreted by Miri for this machine", "checking allocator (double free, wrong layout, write outside, leak) and vector model; the interpreter sees reads outside a block, reads of octets never written and misaligned access too. Leaks are confirmed by a second run of the same history, so a cache filled once is no leak"),
"P11": ("pairs of equal and nearly equal octets, each produced by several routes in owned and borrowed form", "octet comparison; all combinations of operands; hashes; look-ups in hash and ordered tables"),
"P12": ("stacks of contexts of several kinds around every error kind, put there by the error itself, by anyhow, by `?` or by an error of the user; failing elements deep inside collections", "list model of the chain and its order; root cause; comparison table of kinds"),
"P13": ("typed value trees of 72 instances of the built-in types and collections", "reference encoder of the value tree; announced sizes; all output routes agree"),
"P14": ("typed values through ten routes; streams of values read with the right or another type", "equality with the generated value; octets consumed"),
"P15": ("typed value trees x any subset of constructed nodes in indefinite form, also where it is not allowed", "equality with the generated value, or refusal"),
"P16": ("encodings with generated flaws (identifier, length, contents, elements missing, repeated, moved, wrapped), encodings of one type read as another, noise; all contents of up to one octet for every scalar", "reference typed decoder. Repeated elements or keys are open, unsorted sets in DER may be refused or taken"),
"P17": ("two collections with the same elements by different insertion and removal histories and hash seeds; members which differ only after thousands of common octets", "identical octets, equal to the reference sorted encoding; key order for ordered ones"),
"P18": ("values x write schedules x failure positions, for good or for a single call; types whose own serialization fails", "in-memory encoding; prefix relation; the injected error"),
"P19": ("generated definitions (shapes, identifiers, generics, names which collide with the derived code; some made by a macro_rules macro from fragments, some under cfg_attr), their values", "encoder written by the generator from the definition"),
"P20": ("generated definitions with skip, default, to, from, into, try_from, transparent in all allowed combinations", "encoder and decoder written by the generator, with the functions called as declared"),
"P21": ("generated definitions x encodings with flaws", "decoder written by the generator: value or refusal"),
"P22": ("generated definitions with misplaced, contradicting, repeated or malformed attribute arguments, beside controls without a flaw, which the evidence counts", "the compiler reports an error on the lines of each"),
"P23": ("the cases of P01 to P18, P24 and P25 with smaller sizes, interpreted by Miri for s390x (big endian, 64-bit words), i686 (little endian, 32-bit) and powerpc (big endian, 32-bit); no system of these kinds is needed", "the oracles of these, which know the word size; any undefined behaviour the interpreter meets; a failure to build for one of them only"),
"P24": ("typed value trees of 90 built-in and derived types, one defect at a generated place (identifier, length, contents, missing or surplus member, failing conversion), the values around and beside it in definite or indefinite form", "the way to the place, computed from the type: index in the order of the octets, key or value, field. Each step has to be told by one message of the chain, in order; only the number and the words key, value, pair and the field's name are looked for, not the wording"),
"P25": ("programs of one to four threads which look at, clone, edit clones of, hand over, parse, serialize and deserialize shared values, with failing operations in between; each runs three times on real threads started together, and 240 run in the interpreter, whose seed decides where threads are interrupted", "each operation has the result computed beforehand by the model, whatever happens around it; the interpreter reports data races and use of freed memory; a compiler error about sharing or sending is a violation. A race that only real threads meet may take several runs of a replay file, which therefore repeats the program 300 times"),
}
TITLES={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
body=''
for k in sorted(TITLES):
    g,o=P[k]
    body+=f"**{k} {TITLES[k]}.** Generated: {g}. Oracle: {o}.\n\n"
mid = """Why this reaches what the tests do not: the repository's tests use a few dozen short values,
one reader (a slice), one writer (a vector) and a handful of derived types. The cases above
cross every pair of those choices, and each quick run has between 10^5 and 2*10^7 of them.

### Cost

A quick check takes 2 to 60 s on 8 cores (P19 to P21 about 40 to 80 s, most of it compiling
generated crates; P10, P25 70 s and P23 150 s, which build a standard library for the interpreter), setup about 90 s. The thorough tier multiplies the random cases by 25 to
50 and widens the enumerations.

### Bounds and what is left out

* P01 to P22, P24 and P25 run on 64-bit little-endian x86. The interpreted cases (P10, P23, P25) are a few thousand
  per quick run, have at most 300 octets of contents and 70 levels, and do not check the aliasing
  rules: `disassemble_mut` breaks those (see below). No interpreter or target for 16-bit words is
  tried.
* Sizes above 2^24 octets and allocation failure are not generated (a failed allocation aborts
  the process by design of Rust).
* A call that never returns is seen by the watchdog only and gives no answer (exit 2), except
  where the caller is a reader or writer called a million times without a transfer.
* Recursive user types which overflow the stack on hostile input are the user's; the crate has
  no limit of its own to check.
* Two variants of one enum with the same identifier, enums without variants, and tag numbers
  written with underscores or suffixes are not generated. Derived types with a primitive
  identifier and an indefinite length, or holding constructed strings, are open in the model.
* `disassemble_mut` and similar cast shared to mutable references inside; that is undefined
  behaviour in the language's model but has no observable effect a test could judge.

## Defects met

`known_findings.txt` lists them. Twenty-three entries are repaired by `fix:` commits in /repo,
each minimal; the checks report them again if they return. One is recorded only:
`constructed-string-raw` (P16). String and OctetString take the constructed form of a definite
length from BER but return the raw contents, segment headers included. Joining segments is a
feature the crate does not have, and refusing the form would take away what the code accepts on
purpose, so there is no small and safe repair.

False alarms met while building, and what was corrected: the first model of P16 took repeated
elements as an error (now open); P22's statement spoke of attributes never being ignored, which
the crate does not promise for `#[bsn1_serde]` without arguments (now restricted to arguments);
P19 blamed warnings of unrelated code for a failed build (now only errors on the lines of the
definition, confirmed by compiling it alone and beside a control); the reader's limit on calls
was reached by 2^24 octets delivered one at a time (now counts calls without progress).

## Planted bugs

`seeded/` holds them; each was confirmed to compile, to pass the stable tests and to fail its
demonstration. The check of the property named catches each in the quick tier.

| bug | property | needs |
|-----|----------|-------|
"""
rows=''
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows+=f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} |\n"
hist = """
Missed at first, and what was done: b21 (contents of 2^24 octets) and b32 (more than 32767
levels) led to the rare huge and deep cases in all generators; b37 (a deque in two parts) led to
deques made with push_front; b58 (a sink which refuses a single write) led to sinks and sources
which work again after a failure.

Edits which keep the behaviour were tried on a copy as well, and every check stayed quiet: index
counted in a local variable, LinkedList decoded by way of Vec, contents read in chunks into a
vector, sorted elements written at once, sizes not announced, BER written from its in-memory form,
open values counted without sign, `split_at_mut` instead of raw pointers, length octets by
`to_be_bytes`, values rebuilt instead of edited, derived code with another order of branches.
"""
open('/verif/DESIGN.md','w').write(head+body+mid+rows+hist)
