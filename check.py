#!/usr/bin/env python3
"""Decides one property:  check.py C07     (VERIF_TIER=quick|thorough, VERIF_SEED=n)
Replays a saved failure:  check.py C07 --replay replays/C07-....txt

Builds the property's targets from /repo's working tree, runs their campaigns
on all cores, merges the evidence.  Exit 0: held; 1: VIOLATION line; 2: the
check itself could not be carried out.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import config  # noqa: E402

BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
JOBS = os.cpu_count() or 4


class Broken(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    """Hash of everything an object can depend on."""
    h = hashlib.sha256()
    files = []
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "otherExperiments"), os.path.join(REPO, "learning"),
                os.path.join(VERIF, "harness"), os.path.join(VERIF, "shim")):
        for d, dirs, fs in os.walk(top):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".cpp", ".hpp", ".h", ".hh", ".cc", ".inl", ".ipp", ".tpp", ".s", ".S", "")) ]
    for f in files:
        try:
            data = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode()); h.update(b"\0"); h.update(hashlib.sha256(data).digest())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_one(src, obj, flags, cxx="g++"):
    if os.path.exists(obj):
        return True, ""
    tmp = obj + ".tmp%d" % os.getpid()
    out = ""
    for std in (["-std=c++17"], ["-std=gnu++17"], ["-std=gnu++20"], ["-std=gnu++17", "-fpermissive"]):
        r = run([cxx] + std + flags + ["-c", src, "-o", tmp])
        if r.returncode == 0:
            os.replace(tmp, obj)
            return True, ""
        out = out or r.stdout
    return False, out


def expand(f):
    return f.replace("@REPO@", REPO).replace("@VERIF@", VERIF)


narrowed = {}  # binary -> (what does not compile, compiler output)


def build(binaries, pool):
    """name -> path of the executable"""
    th = tree_hash()
    os.makedirs(BUILD, exist_ok=True)
    # keep the cache small: another state of the tree is not needed
    for old in glob.glob(os.path.join(BUILD, "*")):
        if os.path.isdir(old) and os.path.basename(old) != th and time.time() - os.path.getmtime(old) > 3600:
            run(["rm", "-rf", old])
    top = os.path.join(BUILD, th)
    os.makedirs(top, exist_ok=True)
    plan, todo = {}, {}
    for name in binaries:
        b = config.BINARIES[name]
        items = []  # (source, flags, mandatory)
        for s in b["harness"]:
            items.append((os.path.join(VERIF, s), b["flags"], True))
        for s in b.get("support", []):
            items.append((os.path.join(VERIF, s), b.get("support_flags", config.PURE), True))
        for pat in b.get("repo", []):
            got = sorted(glob.glob(os.path.join(REPO, pat)))
            items += [(s, b.get("repo_flags", b["flags"]), False) for s in got]
        plan[name] = []
        for src, flags, must in items:
            flags = [expand(f) for f in flags]
            key = hashlib.sha256((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:12]
            obj = os.path.join(top, "%s-%s.o" % (os.path.basename(src).rsplit(".", 1)[0], key))
            plan[name].append((src, obj, must))
            todo[obj] = (src, flags)
    fut = {o: pool.submit(compile_one, s, o, f) for o, (s, f) in todo.items()}
    res = {o: f.result() for o, f in fut.items()}
    exe = {}
    # a template that no longer compiles for everything the harness asks of it:
    # narrower instantiations (see config), first a second try
    for name in binaries:
        alts = config.BINARIES[name].get("narrower", [])
        if not alts or os.environ.get("VERIF_STRICT"):
            continue
        for i, (src, obj, must) in enumerate(plan[name]):
            if not must or res[obj][0]:
                continue
            first = compile_one(src, obj, todo[obj][1])
            if first[0]:
                res[obj] = first
                continue
            for extra, verdict in alts:
                new = obj[:-2] + re.sub(r"[^A-Z0-9_]", "", "".join(extra)) + ".o"
                r = compile_one(src, new, todo[obj][1] + extra)
                if r[0]:
                    say("note: %s built only with %s" % (name, " ".join(extra)))
                    res[new] = r
                    plan[name][i] = (src, new, must)
                    if verdict:
                        narrowed[name] = (verdict, first[1])
                    break

    def link(name):
        b = config.BINARIES[name]
        main, lib, missing = [], [], []
        for src, obj, must in plan[name]:
            ok, out = res[obj]
            if ok:
                (main if must else lib).append(obj)
            elif must:
                raise Broken("cannot build %s for %s:\n%s" % (src, name, out[:4000]))
            else:
                missing.append(out[:2000])
        key = hashlib.sha256(("\0".join(main + lib) + "\0".join(b["link"])).encode()).hexdigest()[:12]
        path = os.path.join(top, "%s-%s" % (name, key))
        if not os.path.exists(path):
            cmd = ["g++"] + [expand(f) for f in b["link_flags"]] + ["-o", path + ".tmp"] + main
            if lib:
                ar = path + ".a"
                if os.path.exists(ar):
                    os.remove(ar)
                r = run(["ar", "rcs", ar] + lib)
                if r.returncode:
                    raise Broken("ar: " + r.stdout)
                cmd += ["-Wl,--start-group", ar, "-Wl,--end-group"]
            cmd += b["link"]
            r = run(cmd)
            if r.returncode:
                raise Broken("cannot link %s:\n%s\n%s" % (name, r.stdout[-3000:], "\n".join(missing)))
            os.replace(path + ".tmp", path)
        return path

    for name, f in [(n, pool.submit(link, n)) for n in binaries]:
        try:
            exe[name] = f.result()
        except Broken as e:
            # targets on internals: without them the rest still decides
            if not config.BINARIES[name].get("optional"):
                raise
            say("note: not built:", str(e)[:1500])
    return exe


# ----------------------------------------------------------------- campaigns
def environment(b):
    env = dict(os.environ)
    for k in ("RC_PARAMS", "OMP_NUM_THREADS"):
        env.pop(k, None)
    env.update(config.ENV)
    env.update(b.get("env", {}))
    return env


STOP = threading.Event()


def campaign(pid, exe, tgt, cases, seed, shard, shards, workdir):
    b = config.BINARIES[tgt["bin"]]
    if STOP.is_set():  # something hangs: more of it only costs time
        return None
    tag = re.sub(r"[^A-Za-z0-9]+", "_", "%s-%s-%d" % (tgt["bin"], tgt["target"], shard))
    out = os.path.join(workdir, tag + ".json")
    err = os.path.join(workdir, tag + ".err")
    log = os.path.join(workdir, tag + ".log")
    cmd = list(b.get("prefix", [])) + [exe, "--target", tgt["target"], "--cases", str(cases), "--seed", str(seed), "--shard", str(shard),
           "--shards", str(shards), "--out", out, "--err", err,
           "--deadline", str(tgt.get("deadline", config.DEADLINE[TIER])),
           "--cpu-limit", str(os.environ.get("VERIF_CPU_LIMIT") or b.get("cpu_limit", config.CPU_LIMIT))]
    for k, v in tgt.get("opt", {}).items():
        cmd += ["--" + k, str(v)]
    t0 = time.time()
    with open(log, "w") as lf:
        try:
            rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=environment(b), cwd=workdir,
                                timeout=config.SHARD_TIMEOUT[TIER]).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    try:
        d = json.load(open(out))
    except (OSError, ValueError):
        d = None
    if d and d["failed"] and "did not terminate" in d["message"]:
        STOP.set()
    return dict(tgt=tgt, rc=rc, data=d, log=log, err=err, t=time.time() - t0, exe=exe)


def probe(name, exe, workdir):
    """ThreadSanitizer cannot start under some address-space layouts."""
    b = config.BINARIES[name]
    for prefix in ([], ["setarch", "-R"]):
        try:
            if run(prefix + [exe, "--list", "x"], env=environment(b), cwd=workdir).returncode == 0:
                b["prefix"] = prefix
                return
        except OSError:
            pass
    raise Broken("%s does not start" % name)


def replay_cmd(exe, b, path, workdir, opt):
    cmd = list(b.get("prefix", [])) + [exe, "--replay", path, "--err", os.path.join(workdir, "replay.err"),
                                       "--cpu-limit", str(b.get("cpu_limit", config.CPU_LIMIT))]
    for k, v in opt.items():
        cmd += ["--" + k, str(v)]
    r = run(cmd, env=environment(b), cwd=workdir)
    return r.returncode, r.stdout


def known(pid, tgt, repro):
    """A listed finding: exact property, target and minimal case(s)."""
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return None
    for line in open(path):
        line = line.strip()
        if not line.startswith("{"):
            continue
        k = json.loads(line)
        if k.get("status") == "open" and k["property"] == pid and k["target"] == tgt and k["repro"] == repro:
            return k
    return None


def recorded(pid, workdir):
    """Listed findings of this property: run again, and reported if they still fail."""
    lines = []
    path = os.path.join(VERIF, "known-findings.txt")
    for n, line in enumerate(open(path) if os.path.exists(path) else []):
        if not line.startswith("{"):
            continue
        k = json.loads(line)
        if k.get("status") != "open" or k["property"] != pid or "/" not in k["target"]:
            continue
        name, target = k["target"].split("/", 1)
        if name not in EXE:
            continue
        p = os.path.join(workdir, "known-%d.txt" % n)
        open(p, "w").write("target %s\n" % target + "".join("case %s\n" % c for c in k["repro"]))
        rc, out = replay_cmd(EXE[name], config.BINARIES[name], p, workdir, {})
        if rc == 1:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            say("note: listed finding no longer fails: %s" % k["what"])
    return lines


EXE = {}


def main():
    global TIER
    pid = sys.argv[1]
    TIER = os.environ.get("VERIF_TIER", "quick")
    if TIER not in ("quick", "thorough"):
        TIER = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    P = config.PROPERTIES[pid]
    for d in (BUILD, EVID, REPLAYS):
        os.makedirs(d, exist_ok=True)
    workdir = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    pool = cf.ThreadPoolExecutor(JOBS)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            text = open(sys.argv[3]).read()
            name = re.search(r"^binary (\S+)", text, re.M).group(1)
            exe = build([name], pool)
            if re.search(r"^build$", text, re.M):
                say(narrowed.get(name, ("builds",))[0])
                return 1 if name in narrowed else 0
            if config.BINARIES[name].get("tsan"):
                probe(name, exe[name], workdir)
            rc, out = replay_cmd(exe[name], config.BINARIES[name], os.path.abspath(sys.argv[3]), workdir, {})
            say(out)
            return rc
        targets = [t for t in P["targets"] if config.usable(t) and t.get(TIER, 0)]
        skipped = [t["bin"] + "/" + t["target"] for t in P["targets"] if not config.usable(t)]
        exe = build(sorted({t["bin"] for t in targets}), pool)
        skipped += sorted({t["bin"] + "/" + t["target"] for t in targets if t["bin"] not in exe})
        targets = [t for t in targets if t["bin"] in exe]
        EXE.update(exe)
        for n in exe:
            if config.BINARIES[n].get("tsan"):
                probe(n, exe[n], workdir)
        tb = time.time() - t0
        jobs = []
        for t in targets:
            shards = min(t.get("shards", JOBS), t[TIER])
            per = -(-t[TIER] // shards)
            for s in range(shards):
                jobs.append((t, per, s, shards))
        # long-running targets first, so that the cores stay busy to the end
        jobs.sort(key=lambda j: -j[0].get("cost", 1) * j[1])
        res = [r for r in [f.result() for f in [pool.submit(campaign, pid, exe[t["bin"]], t, per, seed, s, n, workdir) for t, per, s, n in jobs]] if r]
        return conclude(pid, P, seed, res, skipped, workdir, t0, tb)
    finally:
        pool.shutdown()
        if not os.environ.get("VERIF_KEEP"):
            run(["rm", "-rf", workdir])


def conclude(pid, P, seed, res, skipped, workdir, t0, tb):
    bad = [r for r in res if r["data"] is None]
    if bad:
        r = bad[0]
        raise Broken("campaign %s/%s gave no report (status %s):\n%s" % (
            r["tgt"]["bin"], r["tgt"]["target"], r["rc"], open(r["log"], errors="replace").read()[-2000:]))
    per, nontriv, samples = {}, set(), []
    ev = 0
    for r in res:
        d = r["data"]
        name = r["tgt"]["bin"] + "/" + r["tgt"]["target"]
        p = per.setdefault(name, dict(evaluations=0, generated=0, boundary_cases=0, inconclusive=0, distinct_nontrivial=set(), labels={}, seconds=0.0))
        p["evaluations"] += d["evaluations"]; p["generated"] += d["generated"]; p["boundary_cases"] += d["corpus"]
        p["inconclusive"] += d["inconclusive"]; p["seconds"] += r["t"]
        p["distinct_nontrivial"] |= set(d["nontrivial"])
        for k, v in d["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        nontriv |= {name + h for h in d["nontrivial"]}
        ev += d["evaluations"]
        if len([s for s in samples if s.startswith(name + ":")]) < 3:
            samples += [name + ": " + s for s in d["samples"][:2]]
    for p in per.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
        p["seconds"] = round(p["seconds"], 1)
        p["labels"] = dict(sorted(p["labels"].items()))
    violations, unrepro = [], 0
    known_lines = recorded(pid, workdir)
    seen = set()
    for r in sorted(res, key=lambda r: r["tgt"]["bin"] == "vast"):
        d = r["data"]
        if not d["failed"]:
            continue
        t = r["tgt"]
        key = (t["bin"], t["target"])
        k = known(pid, t["bin"] + "/" + t["target"], d["repro"])
        if k:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
            continue
        if key in seen or violations and "did not terminate" in d["message"]:
            continue
        text = "property %s\nbinary %s\ntarget %s\n# %s\n" % (pid, t["bin"], t["target"], d["message"].replace("\n", "\n# "))
        text += "".join("case %s\n" % c for c in d["repro"])
        path = os.path.join(REPLAYS, "%s-%s.txt" % (pid, hashlib.sha256((t["bin"] + t["target"] + "".join(d["repro"])).encode()).hexdigest()[:10]))
        open(path, "w").write(text)
        hang = "did not terminate" in d["message"]
        tries, need = (1, 1) if hang else t.get("confirm", (3, 3))
        got = 0
        for _ in range(tries):
            rc, out = replay_cmd(r["exe"], config.BINARIES[t["bin"]], path, workdir, t.get("opt", {}))
            got += rc == 1
            if got >= need:
                break
        if got >= need:
            seen.add(key)
            violations.append((path, text))
        else:
            unrepro += 1
            say("note: a failure of %s/%s did not reproduce (%d of %d)" % (t["bin"], t["target"], got, tries))
    for name, (verdict, out) in sorted(narrowed.items()):
        text = "property %s\nbinary %s\n# %s\nbuild\n" % (pid, name, verdict)
        text += "".join("# %s\n" % l for l in out[:3000].splitlines())
        path = os.path.join(REPLAYS, "%s-%s-build.txt" % (pid, name))
        open(path, "w").write(text)
        violations.append((path, text))
    inconclusive = sum(p["inconclusive"] for p in per.values())
    cov = dict(evaluations=ev, distinct_nontrivial=len(nontriv), rule=P["rule"], samples=samples[:12],
               inconclusive=inconclusive, targets=per, not_reproduced=unrepro, skipped_targets=skipped,
               build_seconds=round(tb, 1))
    doc = dict(property=pid, tier=TIER, seed=seed, level=P["level"], coverage=cov,
               assumptions=P["assumptions"], wall_s=round(time.time() - t0, 1), violations=len(violations))
    tmp = os.path.join(EVID, pid + ".json.tmp")
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for l in sorted(set(known_lines)):
        say(l)
    for path, text in violations:
        say(text)
        say("VIOLATION property=%s replay=%s" % (pid, path))
    say("%s %s seed %d: %d cases, %d distinct non-trivial, %d inconclusive, %d violations, %.1f s (build %.1f s)" % (
        pid, TIER, seed, ev, len(nontriv), inconclusive, len(violations), time.time() - t0, tb))
    if violations:
        return 1
    if ev == 0 or inconclusive * 2 > ev or not nontriv:
        raise Broken("nothing was decided: %d of %d cases inconclusive, %d non-trivial" % (inconclusive, ev, len(nontriv)))
    for name, p in per.items():
        if p["evaluations"] and p["inconclusive"] == p["evaluations"]:
            raise Broken("no case of %s was decided" % name)
    return 0


TIER = "quick"
if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        say("CHECK-ERROR", e)
        sys.exit(2)
