"""What is run for each property, per tier"""
import concurrent.futures as cf
import os, re, shutil, subprocess, tempfile, time

MEMORY = "C22"
PLATFORMS = "C23"
CALLS = "C24"


def second_seed(seed):
    # the second build runs other random cases
    return (seed * 1000003 + 77) % (1 << 62)


def run(c, prop, tier, seed, parts):
    builds = ["checked", "plain"] + (["asan", "miri"] if prop == MEMORY else ["miribe", "miri32"] if prop == PLATFORMS else ["tsan", "miri"] if prop == CALLS else []) + (["fuzz"] if tier == "thorough" else [])
    took = c.build(builds)
    c.require_parts(prop)
    c.log("build: %.1f s" % took)
    # far above what a stage takes: only a very slow machine or code meets it, and gets fewer cases
    budget = ["--budget", "100000" if tier == "quick" else "3000000"]
    try:
        for profile, s in (("checked", seed), ("plain", second_seed(seed))):
            args = ["run", "--prop", prop, "--seed", str(s), "--tier", tier] + budget
            try:
                rep = c.judge(prop, profile, args, 4000 if tier == "thorough" else 300)
            except c.Unreproduced as e:
                # what a stray access does depends on the layout of the heap; where there is a checker it does not
                c.log(str(e))
                c.build(["asan"])
                c.judge(prop, "asan", args, 4000 if tier == "thorough" else 300)
                if prop == MEMORY:
                    miri(c, prop, tier, [], [("miri", s + 1000 + i, 60) for i in range(8)])
                raise
            rep["stage"] = profile
            parts.append(rep)
        if prop == MEMORY:
            rep = c.judge(prop, "asan", ["run", "--prop", prop, "--seed", str(second_seed(seed) + 1), "--tier", tier] + budget, 4000 if tier == "thorough" else 300)
            rep["stage"] = "asan"
            parts.append(rep)
            n = 8
            miri(c, prop, tier, parts, [("miri", second_seed(seed) + 1000 + i, 150 if tier == "quick" else 4000) for i in range(n)])
        if prop == PLATFORMS:
            miri(c, prop, tier, parts, [(p, second_seed(seed) + 2000 + i, 250 if tier == "quick" else 6000) for i in range(4) for p in ("miribe", "miri32")])
        if prop == CALLS:
            fresh(c, prop, second_seed(seed) + 3000, 150 if tier == "quick" else 4000, parts)
            args = ["run", "--prop", prop, "--seed", str(second_seed(seed) + 1), "--cases", "5000" if tier == "quick" else "400000"]
            rep = c.judge(prop, "tsan", args + (["--budget", "60000"] if tier == "quick" else budget), 4000 if tier == "thorough" else 300)
            rep["stage"] = "tsan"
            parts.append(rep)
            miri(c, prop, tier, parts, [("miri@%d" % (i + 1), second_seed(seed) + 1000 + i, 40 if tier == "quick" else 1500) for i in range(8)], 70000)
        if tier == "thorough":
            fuzz(c, prop, seed, parts)
    except c.Violation as v:
        return v
    return None


def fresh(c, prop, seed, n, parts):
    """Many short processes: what happens only once in each, and who does it first"""
    t = time.time()
    total = None
    for i in range(n):
        rep = c.judge(prop, ("plain", "checked")[i % 2], ["run", "--prop", prop, "--seed", str(seed + i), "--cases", "16", "--shards", "8"], 120)
        total = add(total, rep)
    total.update(stage="fresh processes", wall_s=time.time() - t)
    parts.append(total)


def add(total, rep):
    if total is None:
        return rep
    for k in ("evaluations", "nontrivial", "distinct_nontrivial"):
        total[k] += rep[k]
    for k in ("labels", "discards"):
        for x, v in rep[k].items():
            total[k][x] = total[k].get(x, 0) + v
    return total


def miri(c, prop, tier, parts, runs, budget=240000):
    """The interpreter is slow: a few hundred cases, one process per core"""
    def one(run):
        profile, s, cases = run
        rep = c.judge(prop, profile, ["run", "--prop", prop, "--seed", str(s), "--cases", str(cases), "--shards", "1", "--threads", "1", "--budget", str(budget) if tier == "quick" else "2400000"],
                      400 if tier == "quick" else 4000)
        return profile.partition("@")[0], rep
    t = time.time()
    with cf.ThreadPoolExecutor(len(runs)) as ex:
        futures = [ex.submit(one, r) for r in runs]
        reps = [f.result() for f in futures]
    for profile in sorted(set(r[0].partition("@")[0] for r in runs)):
        mine = [r for p, r in reps if p == profile and r]
        if not mine:
            raise c.NoVerdict("no run under the interpreter (%s) came to an end" % profile)
        total = mine[0]
        total["stage"] = profile
        for r in mine[1:]:
            add(total, r)
        total["wall_s"] = time.time() - t
        parts.append(total)


def fuzz(c, prop, seed, parts, seconds=300):
    """Coverage-guided: libFuzzer (with AddressSanitizer) makes up the choices"""
    t = time.time()
    work = tempfile.mkdtemp(prefix="mpt-fuzz-")
    try:
        for d in ("corpus", "artifacts"):
            os.mkdir(work + "/" + d)
        env = c.run_env("fuzz")
        env["MPT_PROP"] = prop
        # abort, not exit: libFuzzer has its own exit codes
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0"
        cmd = [c.BINARY["fuzz"], "-fork=8", "-seed=%d" % (seed % (1 << 31) + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=20",
               "-timeout=30", "-rss_limit_mb=3000", "-artifact_prefix=%s/artifacts/" % work, work + "/corpus"]
        p = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=seconds * 2 + 300)
        runs = [int(x) for x in re.findall(r"^#(\d+): cov", p.stdout, re.M)]
        cov = re.findall(r"^#\d+: cov: (\d+) ft: (\d+)", p.stdout, re.M)
        if os.listdir(work + "/artifacts"):
            # the same input in the ordinary build gives the message and the shrunk case
            for profile in ("checked", "asan"):
                c.build([profile])
                c.judge(prop, profile, ["bytes", "--prop", prop, "--dir", work + "/artifacts"], 300)
            raise c.NoVerdict("libFuzzer stopped at an input that does not fail again:\n" + p.stdout[-2000:])
        rep = c.judge(prop, "checked", ["bytes", "--prop", prop, "--dir", work + "/corpus"], 600)
        rep.update(stage="fuzz", evaluations=max(runs or [0]), seed=seed, wall_s=time.time() - t)
        # evaluations are libFuzzer's executions; non-trivial cases and labels are counted in the corpus it kept
        rep.update(edges=int(cov[-1][0]) if cov else 0, corpus=len(os.listdir(work + "/corpus")))
        parts.append(rep)
    finally:
        shutil.rmtree(work, ignore_errors=True)
