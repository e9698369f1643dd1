#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decide one property against /repo's working tree
check.py replay <FILE>                          run one recorded case again
check.py build                                  build everything the quick checks need

Exit 0: held on everything explored. Exit 1: a line "VIOLATION property=<id> replay=<path>". Exit 3: no verdict."""
import concurrent.futures as cf
import contextlib, fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
OUT = os.path.join(ROOT, "out")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
HANG = 4
UB = 77
GIB = 1 << 30


class NoVerdict(Exception):
    pass


class Unbuilt(NoVerdict):
    pass


class Unreproduced(NoVerdict):
    """A run died, and no single case dies again. The memory checker is asked before this ends without a verdict"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------------- builds

def content_hash():
    """What the binaries are made of. Time stamps are not trusted: a copied tree can carry any."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness"), os.path.join(ROOT, "fuzz")):
        for d, dirs, names in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "corpus", "artifacts"))
            files += [os.path.join(d, n) for n in sorted(names)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def env_for(toolchain, **more):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=toolchain, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", **more)
    return e


BUILDS = {
    # name: (toolchain, target dir, cargo arguments, environment)
    "checked": (STABLE, TARGET, ["build", "--profile", "checked"], {}),
    "plain": (STABLE, TARGET, ["build", "--profile", "plain"], {}),
    "asan": (NIGHTLY, TARGET + "/asan", ["build", "--profile", "checked", "--target", TRIPLE], {"RUSTFLAGS": "-Zsanitizer=address"}),
    # the standard library has to be instrumented too, or its locks are unknown to the sanitizer
    "tsan": (NIGHTLY, TARGET + "/tsan", ["build", "-Zbuild-std", "--profile", "checked", "--target", TRIPLE], {"RUSTFLAGS": "-Zsanitizer=thread"}),
    # under the interpreter: this platform, a big-endian one, one with 32-bit words
    "miri": (NIGHTLY, TARGET + "/miri", ["miri", "run"], {}),
    "miribe": (NIGHTLY, TARGET + "/miribe", ["miri", "run", "--target", "s390x-unknown-linux-gnu"], {}),
    "miri32": (NIGHTLY, TARGET + "/miri32", ["miri", "run", "--target", "i686-unknown-linux-gnu"], {}),
    "fuzz": (NIGHTLY, TARGET + "/fuzz", ["fuzz", "build", "--fuzz-dir", ROOT + "/fuzz"], {}),
}
BINARY = {
    "checked": TARGET + "/checked/mpt",
    "plain": TARGET + "/plain/mpt",
    "asan": TARGET + "/asan/" + TRIPLE + "/checked/mpt",
    "tsan": TARGET + "/tsan/" + TRIPLE + "/checked/mpt",
    "fuzz": TARGET + "/fuzz/" + TRIPLE + "/release/props",
}


def miri(profile):
    return profile.startswith("miri")


def miri_env(profile):
    """miri@7 is the interpreter with schedule number 7: threads are interrupted often, and at places that depend on the number"""
    name, _, schedule = profile.partition("@")
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    if schedule:
        flags += " -Zmiri-preemption-rate=0.1 -Zmiri-seed=" + schedule
    return {"MIRI_SYSROOT": "%s/%s-sysroot" % (TARGET, name), "MIRIFLAGS": flags}


def sh(cmd, env, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd or ROOT + "/harness", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


# Stand-ins for a user's own types. A tree whose traits ask for more than they provide is judged without them.
PARTS = {"ints": {"C26"}, "storages": {"C26"}, "dims": {"C27"}}


def fitting_parts():
    """The parts that compile; None if not even the rest does"""
    toolchain, target, _, _ = BUILDS["checked"]
    fits = []
    for part in [""] + list(PARTS):
        rc, out = sh(["cargo", "check", "--profile", "checked", "--offline", "--target-dir", target + "/parts"], env_for(toolchain, MPT_PARTS=part))
        if rc and not part:
            return None
        if rc == 0 and part:
            fits.append(part)
    return fits


def parts_file(digest):
    return os.path.join(TARGET, "parts." + digest[:16])


def parts_for(digest):
    try:
        return [x for x in open(parts_file(digest)).read().split(",") if x]
    except FileNotFoundError:
        return list(PARTS)


def build_one(name, digest, parts):
    toolchain, target, args, extra = BUILDS[name]
    digest = digest + " " + ",".join(parts)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "stamp." + name)
    old = open(stamp).read() if os.path.exists(stamp) else None
    env = env_for(toolchain, MPT_PARTS=",".join(parts), **extra)
    if miri(name):
        env.update(miri_env(name))
        if not os.path.isdir(env["MIRI_SYSROOT"] + "/lib"):
            rc, out = sh(["cargo", "miri", "setup", "--target-dir", "%s/%s-setup" % (TARGET, name)] + args[2:], env)
            if rc:
                raise NoVerdict("cargo miri setup failed:\n" + out[-3000:])
    if old != digest:
        if os.path.exists(stamp):
            os.remove(stamp)
        # drop what was made from other sources, whatever its age
        for pat in ("%s/**/.fingerprint/mpt*", "%s/**/.fingerprint/morton-index-*"):
            sub = target + ("" if name in ("asan", "tsan", "fuzz") or miri(name) else "/" + name)
            for f in glob.glob(pat % sub, recursive=True) + glob.glob((pat % sub).replace("/**/", "/")):
                shutil.rmtree(f, ignore_errors=True)
    if name == "fuzz":
        # cargo fuzz has no --offline; the environment says it
        cmd = ["cargo"] + args + ["--target-dir", target, "props"]
    else:
        cmd = ["cargo"] + args + ["--offline", "--target-dir", target]
    if miri(name):
        cmd += ["--", "list"]
    rc, out = sh(cmd, env, cwd=ROOT + ("/fuzz" if name == "fuzz" else "/harness"))
    if rc:
        raise Unbuilt("building the harness (%s) against /repo failed:\n%s" % (name, out[-4000:]))
    with open(stamp, "w") as f:
        f.write(digest)


parts_now = list(PARTS)


def build(names):
    global parts_now
    t = time.time()
    os.makedirs(TARGET, exist_ok=True)
    with open(TARGET + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = content_hash()
        parts_now = parts = parts_for(digest)
        try:
            build_all(names, digest, parts)
        except Unbuilt:
            fits = fitting_parts()
            if fits is None or fits == parts:
                raise
            log("left out, as this tree's traits do not admit them: " + ", ".join(p for p in PARTS if p not in fits))
            with open(parts_file(digest), "w") as f:
                f.write(",".join(fits))
            parts_now = fits
            build_all(names, digest, fits)
    return time.time() - t


def build_all(names, digest, parts):
    with cf.ThreadPoolExecutor(len(names)) as ex:
        for f in [ex.submit(build_one, n, digest, parts) for n in names]:
            f.result()


def require_parts(prop):
    """A property about a user's own types cannot be judged if none of ours fit"""
    mine = {p for p, props in PARTS.items() if prop in props}
    if mine and not mine & set(parts_now):
        raise NoVerdict("%s: the harness's own types do not implement this tree's traits" % prop)


# --------------------------------------------------------------------------------------------------------- runs

def command(profile):
    if miri(profile):
        toolchain, target, args, _ = BUILDS[profile.partition("@")[0]]
        return ["cargo"] + args + ["--offline", "-q", "--target-dir", target, "--"]
    return [BINARY[profile]]


def run_env(profile):
    if miri(profile):
        e = env_for(NIGHTLY, MPT_PARTS=",".join(parts_now))
        e.update(miri_env(profile))
        return e
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=%d:abort_on_error=0:allocator_may_return_null=0" % UB
    e["TSAN_OPTIONS"] = "exitcode=%d:halt_on_error=1" % UB
    e["RUST_BACKTRACE"] = "0"
    return e


def limits(profile):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if profile in ("checked", "plain"):
            resource.setrlimit(resource.RLIMIT_AS, (16 * GIB, 16 * GIB))
    return f


def mpt(profile, args, timeout):
    """Runs the harness: (kind, returncode, stdout, stderr), kind one of ok, fail, crash, hang, error"""
    p = subprocess.Popen(command(profile) + args, env=run_env(profile), cwd=ROOT + "/harness", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", preexec_fn=limits(profile), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return "hang", None, out, err
    rc = p.returncode
    if miri(profile) and rc != 0 and ("Undefined Behavior" in err or "error: abnormal termination" in err or "the program aborted" in err):
        return "crash", rc, out, err
    if rc == 0:
        return "ok", rc, out, err
    if rc == 1:
        return "fail", rc, out, err
    if rc == HANG:
        return "hang", rc, out, err
    if rc < 0 or rc == UB:
        return "crash", rc, out, err
    return "error", rc, out, err


def report_of(out):
    for line in out.splitlines():
        if line.startswith("{"):
            return json.loads(line)
    return None


class Violation(Exception):
    def __init__(self, prop, profile, small, choices, message, notes, after=None):
        self.__dict__.update(prop=prop, profile=profile, small=small, choices=choices, message=message, notes=notes, after=after)


def needed(prop, profile, args, f):
    """The run that a failing case needs to fail in: None if it fails on its own, otherwise as few cases before it as possible, or the whole run"""
    case = ["case", "--prop", prop, "--small", str(int(f["small"])), "--choices", ",".join(map(str, f["choices"]))]
    if args[0] != "run" or mpt(profile, case, 120)[0] != "ok":
        return None
    unit, last = f["unit"], f["case"]
    if unit is not None and not f["small"]:
        back = 1
        while True:
            first = max(0, last - back)
            window = [a for a in args] + ["--unit", str(unit), "--first", str(first), "--last", str(last), "--threads", "1", "--enum", "0"]
            kind, _, out, _ = mpt(profile, window, 300)
            rep = report_of(out)
            if kind == "fail" and rep and rep["failure"]:
                return window
            if first == 0:
                break
            back *= 4
    return args


def symptom(err):
    for pat in (r"SUMMARY: .*", r"error: Undefined Behavior: .*", r"unsafe precondition.*", r"memory allocation of .*", r"thread .* has overflowed its stack.*",
                r"panic in a .*", r"HANG: .*", r"error: .*"):
        m = re.search(pat, err)
        if m:
            return m.group(0).strip()
    return err.strip().splitlines()[-1] if err.strip() else "no message"


def diagnose(prop, profile, args, kind, timeout):
    """A run died or did not come back: find the case, shrink it, report it"""
    quickly = 15 if kind == "crash" and not miri(profile) else 90
    inputs = args[args.index("--dir") + 1] if args[0] == "bytes" else None
    for attempt in range(2):
        with tempfile.TemporaryDirectory(prefix="mpt-trace-") as tr:
            if inputs:
                k2, err = kind, ""
            else:
                k2, rc, out, err = mpt(profile, args + ["--trace", tr, "--hang", "90000"], timeout * 3)
            if k2 not in ("crash", "hang"):
                continue
            why = symptom(err)
            for name in sorted(os.listdir(inputs or tr)):
                line = ["bytes", os.path.join(inputs, name)] if inputs else open(os.path.join(tr, name)).readline().split()
                if not line:
                    continue
                if line[0] == "bytes":
                    small = 0
                    _, _, o3, _ = mpt(profile, ["choices", "--prop", prop, "--bytes", line[1]], quickly)
                    choices = [int(x) for x in o3.split()]
                elif line[0] == "enum":
                    small, choices = 1, [int(x) for x in line[1].split(",")]
                else:
                    small = 0
                    k = ["choices", "--prop", prop, "--shard", line[1], "--case", line[2]]
                    for o in ("--seed", "--shards"):
                        if o in args:
                            k += [o, args[args.index(o) + 1]]
                    _, _, o3, _ = mpt(profile, k, quickly)
                    choices = [int(x) for x in o3.split()]

                def bad(c):
                    kk, _, _, ee = mpt(profile, ["case", "--prop", prop, "--small", str(small), "--choices", ",".join(map(str, c))], quickly)
                    return ee if kk == k2 else None

                ee = bad(choices)
                if ee is None:
                    continue
                if k2 == "crash":
                    choices = shrink(choices, lambda c: bad(c) is not None, time.time() + (40 if not miri(profile) else 60))
                    ee = bad(choices) or ee
                    why = symptom(ee)
                else:
                    why = "the call does not come back"
                _, _, o4, _ = mpt(profile, ["case", "--prop", prop, "--small", str(small), "--choices", ",".join(map(str, choices)), "--loud", "1"], 20)
                notes = [l.strip() for l in o4.splitlines() if l.startswith("  ")]
                raise Violation(prop, profile, small, choices, why, notes)
    raise Unreproduced("%s (%s) ended abnormally (%s), but no single case reproduces it" % (prop, profile, kind))


def shrink(best, bad, until):
    def simpler(a, b):
        return (len(a), a) < (len(b), b)

    def attempt(c):
        nonlocal best
        if time.time() < until and simpler(c, best) and bad(c):
            best = c
            return True
        return False

    while time.time() < until:
        before = list(best)
        k = len(best) // 2
        while k > 0:
            while len(best) >= k and attempt(best[:-k]):
                pass
            k //= 2
        for size in (8, 4, 2, 1):
            i = len(best)
            while i >= size:
                i = min(i, len(best))
                if i >= size:
                    attempt(best[:i - size] + best[i:])
                i -= 1
        for i in range(len(best)):
            if i < len(best) and best[i]:
                if not attempt(best[:i] + [0] + best[i + 1:]):
                    lo, hi = 1, best[i]
                    while lo < hi and i < len(best) and time.time() < until:
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                        else:
                            lo = mid + 1
        if best == before:
            break
    return best


def judge(prop, profile, args, timeout):
    """One run of the harness; its report, or a Violation"""
    kind, rc, out, err = mpt(profile, args, timeout)
    if kind == "error":
        raise NoVerdict("%s (%s): exit %s\n%s%s" % (prop, profile, rc, out[-1500:], err[-1500:]))
    if kind == "hang" and miri(profile):
        # too slow under the interpreter; whether a call comes back is judged in the other builds
        return None
    if kind in ("crash", "hang"):
        log("%s (%s): %s: %s" % (prop, profile, kind, symptom(err)))
        if rc == -signal.SIGKILL:
            raise NoVerdict("%s (%s): killed from outside" % (prop, profile))
        diagnose(prop, profile, args, kind, timeout)
    rep = report_of(out)
    if rep is None:
        raise NoVerdict("%s (%s): no report\n%s" % (prop, profile, err[-1500:]))
    f = rep["failure"]
    if f:
        raise Violation(prop, profile, int(f["small"]), f["choices"], f["message"], f["notes"], needed(prop, profile, args, f))
    return rep


def save_replay(v):
    os.makedirs(OUT + "/replay", exist_ok=True)
    body = "property: %s\nbuild: %s\nsmall: %d\nchoices: %s\n\nwhat failed: %s\n" % (v.prop, v.profile, v.small, ",".join(map(str, v.choices)), v.message.replace("\n", " "))
    body += "".join("  %s\n" % n.replace("\n", " ") for n in v.notes)
    if v.after:
        body += "\nThe case holds on its own; it fails in this run:\nafter: %s\n" % " ".join(v.after)
    body += "\nrun again: python3 /verif/check.py replay <this file>\n"
    path = "%s/replay/%s-%s.txt" % (OUT, v.prop, hashlib.sha256(body.encode()).hexdigest()[:12])
    with open(path, "w") as f:
        f.write(body)
    return path, body


# --------------------------------------------------------------------------------------------------------- main

def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import stages
    violation = None
    parts = []
    try:
        violation = stages.run(sys.modules[__name__], prop, tier, seed, parts)
    except NoVerdict as e:
        log("NO VERDICT: %s" % e)
        return 3
    except subprocess.TimeoutExpired as e:
        log("NO VERDICT: %s" % e)
        return 3
    write_evidence(prop, tier, seed, parts, violation, time.time() - t0)
    if violation is None:
        total = sum(p["evaluations"] for p in parts)
        print("%s: held in %d cases (%s), %.1f s" % (prop, total, ", ".join("%s %d" % (p["stage"], p["evaluations"]) for p in parts), time.time() - t0))
        return 0
    path, body = save_replay(violation)
    print(body)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


ASSUMPTIONS = [
    "64-bit little-endian Linux (C23 also: s390x and i686 under the interpreter), rustc versions installed in the sandbox",
    "the reference model in harness/src/model.rs (lists of cells, bit by bit) is the intended meaning",
    "storage widths are the shipped ones (u8, u16, u32, u64, u128, usize), in C26 also 24, 40 and 72 bits",
]


def write_evidence(prop, tier, seed, parts, violation, wall):
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    labels, discards, samples = {}, {}, []
    for p in parts:
        for k, v in p.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in p.get("discards", {}).items():
            discards[k] = discards.get(k, 0) + v
        samples += p.get("samples", [])[:8]
    if violation is not None:
        samples.insert(0, "FAILED: %s | %s" % (violation.message, "; ".join(violation.notes)))
    first = parts[0] if parts else {"rule": "", "enum_complete": False}
    cov = {
        "evaluations": sum(p["evaluations"] for p in parts),
        # the builds run different random cases, but the same enumerated ones, which are counted once
        "distinct_nontrivial": sum(p.get("distinct_nontrivial", 0) for p in parts) - sum(p.get("enumerated_nontrivial", 0) for p in parts[1:]),
        "rule": first.get("rule", ""),
        "samples": samples[:12] or ["none: the run stopped at the first case"],
        "discarded": discards,
        "labels": dict(sorted(labels.items())),
        "exhaustive": False,
        "bounded_enumeration": {"cases": first.get("enumerated", 0), "complete_small_scope": bool(first.get("enum_complete", False))},
        "stages": [{k: p[k] for k in ("stage", "evaluations", "enumerated", "nontrivial", "distinct_nontrivial", "seed", "edges", "corpus", "slowest_ms", "wall_s") if k in p} for p in parts],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUMPTIONS + ["left out, as this tree's traits do not admit them: " + p for p in PARTS if p not in parts_now],
          "wall_s": round(wall, 2), "violations": 0 if violation is None else 1}
    tmp = ROOT + "/evidence/.%s.%d" % (prop, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, ROOT + "/evidence/%s.json" % prop)


def replay(path):
    text = open(path).read()
    m = re.search(r"^build: ([\w@]+)", text, re.M)
    profile = m.group(1) if m else "checked"
    if profile == "fuzz":
        profile = "checked"
    build([profile.partition("@")[0]])
    kind, rc, out, err = mpt(profile, ["replay", os.path.abspath(path)], 300)
    print(out)
    m = re.search(r"^after: (.*)", text, re.M)
    if kind == "ok" and m:
        # on its own the case holds: with what went before it
        kind, rc, out, err = mpt(profile, m.group(1).split(), 4000)
        rep = report_of(out)
        print("in this run: mpt %s\n%s" % (m.group(1), rep["failure"]["message"] if rep and rep["failure"] else "no failure"))
    if kind != "ok":
        print("%s: %s" % (kind, symptom(err) if kind in ("crash", "hang") else rc))
    return 0 if kind == "ok" else 1 if kind in ("fail", "crash", "hang") else 3


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    a = sys.argv[1:]
    try:
        if a[:1] == ["replay"]:
            sys.exit(replay(a[1]))
        if a[:1] == ["build"]:
            log("built in %.1f s" % build(["checked", "plain", "asan", "tsan", "miri", "miribe", "miri32"]))
            sys.exit(0)
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        sys.exit(main(a[0], tier))
    except NoVerdict as e:
        log("NO VERDICT: %s" % e)
        sys.exit(3)
