#!/usr/bin/env python3
"""Driver of the checks.

  run.py check ID quick|thorough    decide one property; 0 held, 1 violation, 2 no answer
  run.py replay FILE                run one saved failure again
  run.py setup                      build everything once
"""
import hashlib, json, os, resource, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
PROFILES = ["release", "checked"]
SHARDS = 4  # per profile
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
WATCHDOG = {"quick": 780, "thorough": 6 * 3600}


class NoAnswer(Exception):
    pass


def environment():
    out = subprocess.run(
        ["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, check=True
    ).stdout
    env = dict(e.split("=", 1) for e in out.decode().split("\0") if "=" in e)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_BACKTRACE"] = env["RUST_LIB_BACKTRACE"] = "0"
    env["VH_KNOWN"] = ",".join(name for _, name, _ in listed_findings())
    return env


def listed_findings():
    """(property, name, text) of the recorded defects."""
    found = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property="):
                prop, name, text = line[len("known: property="):].strip().split(" ", 2)
                found.append((prop, name, text))
    return found


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def build(env, bins, manifest=os.path.join(HARNESS, "Cargo.toml"), target=TARGET, fatal=True):
    """Builds the binaries in both profiles; returns (ok, output)."""
    procs = []
    for prof in PROFILES:
        cmd = ["cargo", "build", "--offline", "--locked", "--profile", prof, "--manifest-path", manifest,
               "--target-dir", target]
        for b in bins:
            cmd += ["--bin", b]
        procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    outs = [p.communicate()[0].decode(errors="replace") for p in procs]
    ok = all(p.returncode == 0 for p in procs)
    if not ok and fatal:
        sys.stderr.write("\n".join(outs))
        raise NoAnswer("the harness does not build")
    return ok, "\n".join(outs)


def binary(prof, name, target=TARGET):
    return os.path.join(target, prof, name)


def run_one(exe, entropy, env, timeout=120):
    """Runs one case in its own process: ('held'|'failed'|'crash', text)."""
    with tempfile.NamedTemporaryFile("w", suffix=".hex", dir=WORK) as f:
        f.write(entropy.hex())
        f.flush()
        try:
            p = subprocess.run([exe, "one", f.name], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               preexec_fn=limits, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout", ""
    text = p.stdout.decode(errors="replace")
    if p.returncode == 0:
        return "held", text
    if p.returncode == 3:
        return "failed", text
    if p.returncode < 0 and -p.returncode in CRASH:
        return "crash", text + "\ndied of " + signal.Signals(-p.returncode).name
    return "other", text


def shrink_crash(exe, entropy, env, budget=400):
    """Minimises a crashing case, each candidate in its own process."""
    def same(c):
        return run_one(exe, c, env, 30)[0] == "crash"

    best = entropy
    if not same(best):
        return None
    changed = True
    while changed and budget > 0:
        changed = False
        cut = max(1, len(best) // 2)
        while cut >= 1 and budget > 0:
            if len(best) >= cut and cut:
                budget -= 1
                if same(best[:-cut]):
                    best, changed = best[:-cut], True
                    continue
            cut //= 2
        size = max(1, min(32, len(best) // 2))
        while budget > 0 and best:
            i = 0
            while i + size <= len(best) and budget > 0:
                c = best[:i] + best[i + size:]
                budget -= 1
                if same(c):
                    best, changed = c, True
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        for i in range(len(best)):
            for v in (0, best[i] // 2):
                if v < best[i] and budget > 0:
                    c = best[:i] + bytes([v]) + best[i + 1:]
                    budget -= 1
                    if same(c):
                        best, changed = c, True
                        break
    return best


def save_replay(prop, data):
    os.makedirs(REPLAYS, exist_ok=True)
    digest = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, f"{prop}-{digest}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def write_evidence(prop, data):
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1)


def cut(text, size):
    return text if len(text) <= size else f"{text[:size]}... ({len(text)} characters)"


def report(prop, tier, seed, level, coverage, assumptions, start, failures, known):
    """Evidence, output lines and exit status."""
    texts = {name: (p, text) for p, name, text in listed_findings()}
    for name in sorted(known):
        p, text = texts[name]
        print(f"KNOWN-FINDING: property={prop} {name}: {text}")
    violations = []
    for data in failures:
        path = save_replay(prop, data)
        violations.append({"replay": path, "kind": data["kind"], "message": data["msg"]})
        print(f"case: {cut(data['desc'], 8000)}\n[{data['kind']}] {data['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
    coverage["samples"] = [cut(s, 700) for s in coverage["samples"]]
    coverage["known_findings_met"] = {k: known[k] for k in sorted(known)}
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - start, 2), "violations": len(violations),
    })
    print(f"{prop} {tier}: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violations, {time.time() - start:.1f} s")
    return 1 if violations else 0


ASSUMPTIONS = [
    "x86_64 Linux, 64-bit usize, little endian",
    "the reference model in harness/src/model.rs states X.690 and the documented restrictions correctly",
    "cases are a sample; the rule and labels say which situations were reached",
]


def check_bin(prop, tier, seed, env, start, exe_name=None, target=TARGET):
    name = exe_name or prop.lower()
    if prop == "P25":
        found = unshareable(env)
        if found:
            return report(prop, tier, seed, "exploration", {
                "evaluations": 1, "distinct_nontrivial": 1, "rule": "the program which shares values between threads",
                "samples": [found[0]["desc"]], "exhaustive": False}, ASSUMPTIONS, start, found, {})
    build(env, [name])
    info = json.loads(subprocess.run([binary("release", name), "info"], env=env, stdout=subprocess.PIPE,
                                     check=True).stdout)
    cases = info[tier]
    regress = os.path.join(HERE, "regress", prop + ".txt")
    if os.path.exists(regress):
        env["VH_REGRESS"] = regress
    with tempfile.TemporaryDirectory(dir=WORK) as out:
        results, failures = run_shards(prop, name, tier, seed, env, cases, out)
        hashes = [os.path.join(out, f) for f in os.listdir(out) if f.endswith(".hashes")]
        distinct = int(subprocess.run([binary("release", name), "merge"] + hashes, env=env,
                                      stdout=subprocess.PIPE, check=True).stdout) if hashes else 0
    labels, known, samples = {}, {}, []
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
        for s in r["samples"]:
            if s not in samples and len(samples) < 20:
                samples.append(s)
    evaluations = sum(r["evaluations"] for r in results)
    interpreted = {}
    if prop in ("P10", "P25"):
        import platforms
        plan = platforms.HOST_CASES if prop == "P10" else platforms.THREAD_CASES
        more, kinds, found = platforms.memory(plan, tier, seed, env)
        interpreted = {"interpreted_cases": more}
        evaluations, distinct = evaluations + more, distinct + kinds
        failures += [dict(f, property=prop) for f in found]
    coverage = {
        "evaluations": evaluations,
        **interpreted,
        "distinct_nontrivial": distinct,
        "rule": info["rule"],
        "samples": samples or ["none"],
        "exhaustive": False,
        "fixed_cases": sum(r["fixed"] for r in results),
        "labels": dict(sorted(labels.items())),
        "builds": {"release": "optimised, no assertions", "checked": "debug assertions and overflow checks"},
        "shards": len(PROFILES) * SHARDS,
    }
    return report(prop, tier, seed, "exploration", coverage, ASSUMPTIONS, start, failures, known)


def unshareable(env):
    """A failure if the compiler refuses to let threads have the values, and only that."""
    ok, text = build(env, ["p25"], fatal=False)
    if ok:
        return []
    refused = [l for l in text.splitlines() if l.startswith("error") and "between threads safely" in l]
    others = [l for l in text.splitlines() if l.startswith("error[") and l not in refused]
    if not refused or others:
        sys.stderr.write(text)
        raise NoAnswer("the harness does not build")
    build(env, ["p24"])
    return [{"property": "P25", "kind": "not-shareable", "msg": "; ".join(sorted(set(refused)))[:1500], "binary": "p25",
             "desc": "values shared between threads and given to another thread", "entropy": "", "build": True}]


def run_shards(prop, name, tier, seed, env, cases, out):
    procs = []
    for pi, prof in enumerate(PROFILES):
        for i in range(SHARDS):
            shard = pi * SHARDS + i
            cmd = [binary(prof, name), "worker", str(seed), str(shard), str(SHARDS), str(cases), tier, out]
            log = open(os.path.join(out, f"{shard}.log"), "wb")
            procs.append((prof, shard, subprocess.Popen(cmd, env=env, stdout=log, stderr=log, preexec_fn=limits)))
    deadline = time.time() + WATCHDOG[tier]
    results, failures = [], []
    try:
        for prof, shard, p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                raise NoAnswer(f"shard {shard} ran out of time")
            if p.returncode == 0:
                r = json.load(open(os.path.join(out, f"{shard}.json")))
                results.append(r)
                if r["failure"]:
                    failures.append(dict(r["failure"], profile=prof))
                continue
            log = open(os.path.join(out, f"{shard}.log"), errors="replace").read()[-2000:]
            if p.returncode < 0 and -p.returncode in CRASH:
                failures.append(crash(name, prof, out, shard, env, signal.Signals(-p.returncode).name, log))
            else:
                raise NoAnswer(f"shard {shard} ended with {p.returncode}: {log}")
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
    unique = {}
    for f in failures:
        unique.setdefault(f["kind"], f)
    return results, [dict(f, property=prop, binary=name, seed=seed) for f in unique.values()]


def crash(name, prof, out, shard, env, sig, log, target=TARGET):
    """Recovers and minimises the case in which a shard died."""
    exe = binary(prof, name, target)
    word = open(os.path.join(out, f"{shard}.progress")).readline().split()
    if word[0] == "F":
        entropy = bytes.fromhex(word[1]) if len(word) > 1 else b""
    elif word[0] == "R":
        text = subprocess.run([exe, "entropy", word[1], "8192"], env=env, stdout=subprocess.PIPE, check=True).stdout
        entropy = bytes.fromhex(text.decode().strip())
    else:
        raise NoAnswer(f"shard {shard} died of {sig} outside a case: {log}")
    small = shrink_crash(exe, entropy, env)
    note = ""
    if small is None:
        small, note = entropy, " (only seen within the run, not when run alone)"
    text = run_one(exe, small, env)[1]
    return {"entropy": small.hex(), "kind": "crash", "msg": f"the process died of {sig}{note}: {log.strip()[-400:]}",
            "desc": text.strip()[:1000], "profile": prof}


def check(prop, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(WORK, exist_ok=True)
    env = environment()
    if prop in ("P19", "P20", "P21"):
        import derive
        return derive.check(prop, tier, seed, env, start)
    if prop == "P22":
        import misuse
        return misuse.check(prop, tier, seed, env, start)
    if prop == "P23":
        import platforms
        return platforms.check(prop, tier, seed, env, start)
    return check_bin(prop, tier, seed, env, start)


def setup():
    os.makedirs(WORK, exist_ok=True)
    env = environment()
    # p25 by itself: where values may not be shared it alone does not build
    build(env, sorted(f[:-3] for f in os.listdir(os.path.join(HARNESS, "src", "bin")) if f != "p25.rs"))
    build(env, ["p25"], fatal=False)
    return 0


def replay(path):
    data = json.load(open(path))
    os.makedirs(WORK, exist_ok=True)
    env = environment()
    if data["property"] in ("P19", "P20", "P21"):
        import derive
        return derive.replay(dict(data, path=path), env)
    if data["property"] == "P22":
        import misuse
        return misuse.replay(dict(data, path=path), env)
    if data.get("build"):
        found = unshareable(env)
        if found:
            print(found[0]["msg"])
            print(f"VIOLATION property={data['property']} replay={path}")
        return 1 if found else 0
    if "target" in data:
        import platforms
        return platforms.replay(dict(data, path=path), env)
    build(env, [data["binary"]])
    state, text = run_one(binary(data["profile"], data["binary"]), bytes.fromhex(data["entropy"]), env)
    print(text)
    if state in ("failed", "crash"):
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    return 0 if state == "held" else 2


def main():
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    try:
        if len(sys.argv) == 4 and sys.argv[1] == "check" and sys.argv[3] in WATCHDOG:
            return check(sys.argv[2], sys.argv[3])
        if len(sys.argv) == 3 and sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1:] == ["setup"]:
            return setup()
    except NoAnswer as e:
        print(f"NO ANSWER: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
