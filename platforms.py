"""P23: the checks of the other properties, run for other platforms by an interpreter.

Miri executes the harness for a machine of another byte order or word size and tells of every
undefined behaviour on the way. Also used by P10 for this machine.
"""
import concurrent.futures, json, os, subprocess, tempfile, time

import run

HERE = os.path.dirname(os.path.abspath(__file__))
HOST = "x86_64-unknown-linux-gnu"
TARGETS = {
    "s390x-unknown-linux-gnu": "big endian, 64-bit words",
    "i686-unknown-linux-gnu": "little endian, 32-bit words",
    "powerpc-unknown-linux-gnu": "big endian, 32-bit words",
}
# cases per platform, quick tier
CASES = {
    "p01": 100, "p02": 80, "p03": 24, "p04": 16, "p05": 160, "p06": 160, "p07": 160, "p08": 40, "p09": 40,
    "p10": 40, "p11": 20, "p12": 16, "p13": 36, "p14": 20, "p15": 20, "p16": 30, "p17": 6, "p18": 8, "p24": 16, "p25": 8,
}
# and on this machine, as part of P10
THREAD_CASES = {"p25": 240}  # as part of P25, in eight shards with schedules of their own
HOST_CASES = {"p03": 24, "p05": 100, "p08": 60, "p09": 60, "p10": 140, "p13": 40, "p17": 8}
SHARD = 100  # first shard number; those below are used by the compiled checks
FACTOR = 40  # thorough
WORKERS = 8
TIMEOUT = {"quick": 700, "thorough": 3 * 3600}
UNDEFINED = ("error: Undefined Behavior", "error: abnormal termination", "error: memory leaked",
             "error: post-monomorphization error", "error: the evaluated program")


def environment(env, target):
    e = dict(env)
    e["MIRIFLAGS"] = ("-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks "
                      "-Zmiri-permissive-provenance" + env.get("VH_MIRIFLAGS", ""))
    e["XDG_CACHE_HOME"] = os.path.join(run.TARGET, "miri", "cache-" + target)
    e["CARGO_TARGET_DIR"] = os.path.join(run.TARGET, "miri", target)
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def command(target, name, args):
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--target", target, "--manifest-path",
            os.path.join(run.HARNESS, "Cargo.toml"), "--bin", name, "--"] + args


def output(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=lambda: run.resource.setrlimit(run.resource.RLIMIT_CORE, (0, 0)))
    except subprocess.TimeoutExpired:
        raise run.NoAnswer(f"{cmd[2:]} ran out of time")
    return p.returncode, p.stdout.decode(errors="replace")


def prepare(env, target, names):
    """Standard library and harness for the target; the compiler's output if the latter fails."""
    e = environment(env, target)
    code, text = output(["cargo", "+nightly", "miri", "setup", "--target", target], e, 700)
    if code:
        raise run.NoAnswer(f"no standard library for {target}: {text[-2000:]}")
    for name in names:
        code, text = output(command(target, name, ["info"]), e, 700)
        if code:
            return text
    return None


def undefined(text):
    """What the interpreter stopped at."""
    lines = text.splitlines()
    for i, line in enumerate(lines):
        if line.startswith(UNDEFINED):
            return "\n".join(lines[i:i + 14])
    return None


def entropy(word):
    """The octets drawn by a random case, see Rng in harness/src/engine.rs."""
    if word[0] == "F":
        return bytes.fromhex(word[1]) if len(word) > 1 else b""
    mask, z, out = (1 << 64) - 1, int(word[1]), b""
    while len(out) < 4096:
        z = (z + 0x9E3779B97F4A7C15) & mask
        x = z
        x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & mask
        x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & mask
        out += (x ^ (x >> 31)).to_bytes(8, "little")
    return out


def one(env, target, name, octets, timeout=300):
    """'held', 'failed' or 'undefined', and the output."""
    with tempfile.NamedTemporaryFile("w", suffix=".hex", dir=run.WORK) as f:
        f.write(octets.hex())
        f.flush()
        code, text = output(command(target, name, ["one", f.name]), environment(env, target), timeout)
    if code == 0:
        return "held", text
    if code == 3:
        return "failed", text
    if undefined(text):
        return "undefined", text
    raise run.NoAnswer(f"{name} on {target} ended with {code}: {text[-2000:]}")


def minimise(env, target, name, octets, limit=100):
    """Fewer octets which still lead to undefined behaviour, as far as there is time."""
    end = time.time() + limit

    def same(c):
        return time.time() < end and one(env, target, name, c)[0] == "undefined"

    best = octets
    if not same(best):
        return None
    size = len(best) // 2
    while size and time.time() < end:
        if len(best) > size and same(best[:-size]):
            best = best[:-size]
        else:
            size //= 2
    size = max(1, len(best) // 4)
    while time.time() < end:
        i = 0
        while i + size <= len(best) and time.time() < end:
            c = best[:i] + best[i + size:]
            if same(c):
                best = c
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return best


def job(env, target, name, seed, shard, cases, tier, out):
    """Runs one shard; its result and failures."""
    if name in THREAD_CASES:
        # the seed decides how the threads take turns
        env = dict(env, VH_MIRIFLAGS=f" -Zmiri-seed={seed * 1000 + shard} -Zmiri-preemption-rate=0.05")
    os.makedirs(out)
    args = ["worker", str(seed), str(shard), "1", str(cases + 1), tier, out, "1"]
    code, text = output(command(target, name, args), environment(env, target), TIMEOUT[tier])
    base = {"binary": name, "target": target, "seed": seed, "flags": env.get("VH_MIRIFLAGS", "")}
    if code == 0:
        r = json.load(open(os.path.join(out, f"{shard}.json")))
        with open(os.path.join(out, f"{shard}.hashes"), "rb") as f:
            b = f.read()
        # the same case on another platform counts once more
        r["seen"] = {(target, name, b[i:i + 8]) for i in range(0, len(b), 8)}
        r["samples"] = [f"{target} {name}: {s}" for s in r["samples"][:2]]
        return r, [dict(base, **r["failure"])] if r["failure"] else []
    what = undefined(text)
    if not what:
        raise run.NoAnswer(f"{name} on {target} ended with {code}: {text[-3000:]}")
    word = open(os.path.join(out, f"{shard}.progress")).readline().split()
    if not word or word[0] not in "FR":
        raise run.NoAnswer(f"{name} on {target} stopped outside a case: {what}")
    octets = entropy(word)
    small = minimise(env, target, name, octets)
    if small is None:
        small = octets
    return None, [dict(base, entropy=small.hex(), kind="undefined-behaviour", msg=what,
                       desc=f"case of {name} interpreted for {target}")]


def explore(targets, plan, tier, seed, env):
    """Runs the plan ({binary: cases}) on each target: results, failures."""
    os.makedirs(run.WORK, exist_ok=True)
    results, failures = [], []
    if "p25" in plan and len(plan) > 1 and run.unshareable(env):
        # not on this machine either: P25 tells that
        plan = {k: v for k, v in plan.items() if k != "p25"}
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        texts = list(pool.map(lambda t: prepare(env, t, sorted(plan)), targets))
    for t, text in zip(targets, texts):
        if text is None:
            continue
        # The harness or the crate: does it build for this machine?
        bins = [x for n in sorted(plan) for x in ("--bin", n)]
        code, host = output(["cargo", "+nightly", "check", "-q", "--offline", "--locked"] + bins + ["--manifest-path",
                             os.path.join(run.HARNESS, "Cargo.toml"), "--target-dir",
                             os.path.join(run.TARGET, "miri", "host-check")], env, 700)
        if code:
            raise run.NoAnswer("the harness does not build: " + host[-3000:])
        if undefined(text) is None and "error" not in text:
            raise run.NoAnswer(f"{t}: {text[-3000:]}")
        failures.append({"kind": "does-not-build", "msg": text[-1500:], "desc": f"build for {t}", "target": t,
                         "binary": sorted(plan)[-1], "entropy": "", "seed": seed})
    if failures:
        return results, failures
    with tempfile.TemporaryDirectory(dir=run.WORK) as out:
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
            jobs = []
            for name, cases in sorted(plan.items(), key=lambda x: x[1]):
                for k, t in enumerate(targets):
                    shards = 8 if name == "p25" and cases > 100 else 1 if tier == "quick" and cases <= 100 else 4
                    for i in range(shards):
                        n = cases * (1 if tier == "quick" else FACTOR) // shards
                        place = os.path.join(out, f"{name}-{t}-{i}")
                        jobs.append(pool.submit(job, env, t, name, seed, SHARD + 10 * k + i, n, tier, place))
            for j in jobs:
                r, f = j.result()
                if r:
                    results.append(r)
                failures += f
    unique = {}
    for f in failures:
        unique.setdefault((f["binary"], f["kind"]), f)
    return results, list(unique.values())[:6]


def memory(plan, tier, seed, env):
    """Interprets cases for this machine: number of cases, of distinct ones, failures."""
    results, failures = explore([HOST], plan, tier, seed, env)
    seen = set().union(*(r["seen"] for r in results)) if results else set()
    return sum(r["evaluations"] for r in results), len(seen), failures


def check(prop, tier, seed, env, start):
    results, failures = explore(sorted(TARGETS), CASES, tier, seed, env)
    labels, known, samples, seen = {}, {}, [], set()
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        samples += r["samples"]
        seen |= r["seen"]
    coverage = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": len(seen),
        "rule": "as for the property the case belongs to; distinct by platform, property and case",
        "samples": samples[::max(1, len(samples) // 20)][:20] or ["none"],
        "exhaustive": False,
        "labels": dict(sorted(labels.items())),
        "platforms": TARGETS,
        "cases_per_platform": {k: v if tier == "quick" else v * FACTOR for k, v in CASES.items()},
    }
    assumptions = [
        "the interpreter (Miri) behaves as the processors it stands for",
        "aliasing rules are not checked (-Zmiri-disable-stacked-borrows)",
        "sizes are smaller than in the compiled checks, because interpretation is slow",
    ] + run.ASSUMPTIONS[1:]
    # a known finding of another property is not one of this
    return run.report(prop, tier, seed, "exploration", coverage, assumptions, start,
                      [dict(f, property=prop) for f in failures], {})


def replay(data, env):
    env = dict(env, VH_MIRIFLAGS=data.get("flags", ""))
    text = prepare(env, data["target"], [data["binary"]])
    if text is not None:
        print(text)
        print(f"VIOLATION property={data['property']} replay={data['path']}")
        return 1
    state, text = one(env, data["target"], data["binary"], bytes.fromhex(data["entropy"]))
    print(text)
    if state == "held":
        return 0
    print(f"VIOLATION property={data['property']} replay={data['path']}")
    return 1
