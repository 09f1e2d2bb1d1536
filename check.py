#!/usr/bin/env python3
"""Runs one property's simulated search.

  check.py PROP              quick or thorough (VERIF_TIER), base seed VERIF_SEED
  check.py PROP --tier thorough
  check.py --replay FILE     runs a replay file verbosely in a fresh process

exit 0: held on everything explored; 1: violation (line VIOLATION property=.. replay=..);
2: the check itself could not give an answer.
"""
import glob, hashlib, json, os, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = 8
sys.path.insert(0, os.path.join(HERE, "tools"))
from worlds import WORLDS, PROPS  # noqa: E402

ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem", MALLOC_PERTURB_="165",
           ASAN_OPTIONS="detect_leaks=0", LC_ALL="C")
ENV.pop("SIM_TIMEOUT", None)
BASEFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def repo_files():
    fs = []
    for root in ("lib", "external/GSL/include"):
        for d, _, names in os.walk(os.path.join(REPO, root)):
            fs += [os.path.join(d, n) for n in names]
    return sorted(f for f in fs if f.endswith((".hpp", ".h", ".cpp")) or "/gsl/" in f)


def build(world):
    """compiles the sources of /repo's working tree together with the world's simulator"""
    w = WORLDS[world]
    flags = BASEFLAGS + w.get("flags", [])
    h = hashlib.sha256()
    for f in repo_files() + sorted(glob.glob(os.path.join(HERE, "sim", "*"))):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr((flags, w)).encode())
    key = world + "-" + h.hexdigest()[:16]
    bdir = os.path.join(HERE, "build", key)
    exe = os.path.join(bdir, "world")
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(HERE, "build", world + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    tmp = bdir + ".%d.tmp" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = ["-I" + os.path.join(REPO, p) for p in ("external/GSL/include", "lib/include", "lib/src")] + ["-I" + os.path.join(HERE, "sim")]
    skip = {"spectral_fact.cpp"} | set(w.get("include_src", []))  # the latter are #included by the world itself
    jobs = [(s, os.path.join(tmp, os.path.basename(s) + ".o"), flags + w.get("src_flags", []))
            for s in sorted(glob.glob(os.path.join(REPO, "lib/src/*.cpp"))) if os.path.basename(s) not in skip]
    for s in w["src"]:
        jobs.append((os.path.join(HERE, "sim", s), os.path.join(tmp, "w_" + s + ".o"), flags + w.get("world_flags", [])))
    for s in w.get("plain_src", []):
        jobs.append((os.path.join(HERE, "sim", s), os.path.join(tmp, "p_" + s + ".o"), BASEFLAGS))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def cc(j):
        r = subprocess.run(["g++"] + j[2] + inc + ["-c", j[0], "-o", j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, j[0], r.stdout

    with ThreadPoolExecutor(NPROC) as ex:
        for rc, src, out in ex.map(cc, jobs):
            if rc:
                die("cannot compile %s\n%s" % (src, out[-3000:]))
    r = subprocess.run(["g++"] + BASEFLAGS + w.get("link_flags", []) + [j[1] for j in jobs] + ["-lopenblas"] + w.get("libs", []) + ["-o", os.path.join(tmp, "world")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("cannot link\n" + r.stdout[-3000:])
    try:
        os.rename(tmp, bdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def replay(exe, path, timeout=20, verbose=False):
    env = dict(ENV, SIM_TIMEOUT=str(timeout))
    r = subprocess.run([exe, "replay", path] + (["-v"] if verbose else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                       errors="replace")
    out = {"kind": "none", "class": "", "hash": "", "msg": "", "text": r.stdout}
    for line in r.stdout.splitlines():
        if line.startswith("OUTCOME "):
            p = line.split(" ", 4)
            out["kind"], out["class"], out["hash"] = p[1], p[2][6:], p[3][5:]
            out["msg"] = p[4][4:] if len(p) > 4 else ""
    return out


def twice(exe, path, timeout):
    with ThreadPoolExecutor(2) as ex:
        return list(ex.map(lambda _: replay(exe, path, timeout), (0, 1)))


def is_hang(path):
    return any(l.split()[2:3] == ["hang"] for l in open(path) if l.startswith("# class"))


def minimise(exe, path, cls, workdir, budget):
    """ddmin over the event/fault lines, keeping the class of the violation"""
    t0 = time.time()
    lines = [l for l in open(path).read().splitlines() if l and l[0] in "hs"]
    head = [l for l in lines if l[0] == "h"]
    steps = [l for l in lines if l[0] == "s"]
    ctr = [0]

    def fails(hh, ss):
        ctr[0] += 1
        p = os.path.join(workdir, "min-%d-%d.scn" % (os.getpid(), ctr[0]))
        with open(p, "w") as f:
            f.write("\n".join(hh + ss) + "\n")
        o = replay(exe, p)
        os.unlink(p)
        return o["kind"] != "ok" and o["class"] == cls

    def left():
        return budget - (time.time() - t0)

    n = 2
    while len(steps) >= 1 and left() > 0:
        size = max(1, (len(steps) + n - 1) // n)
        cands = [steps[:i] + steps[i + size:] for i in range(0, len(steps), size)]
        hit = None
        with ThreadPoolExecutor(NPROC) as ex:
            for base in range(0, len(cands), NPROC):
                res = list(ex.map(lambda s: fails(head, s), cands[base:base + NPROC]))
                if True in res:
                    hit = cands[base + res.index(True)]
                    break
                if left() <= 0:
                    break
        if hit is not None:
            steps = hit
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(steps), n * 2)
    return head, steps, ctr[0]


def known_list():
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                w = line.split(None, 3)
                known[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3].strip()
    return known


def union(outs, name):
    s = set()
    for o in outs:
        for f in glob.glob(os.path.join(o, name + "-*.bin")):
            b = open(f, "rb").read()
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    return s


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        prop = [l.split()[2] for l in txt.splitlines() if l.startswith("h prop ")][0]
        o = replay(build(PROPS[prop]["world"]), sys.argv[2], 60, True)
        print(o["text"], end="")
        sys.exit(0 if o["kind"] == "ok" else 1)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    exe = build(cfg["world"])
    tbuild = time.time() - t0
    outroot = os.path.join(HERE, "out", prop)
    shutil.rmtree(outroot, ignore_errors=True)
    os.makedirs(outroot)
    count = cfg[tier]
    maxwall = 500 if tier == "quick" else 800
    print("simulating %s: seed %d, tier %s, %d workers x %d runs (build %.1f s)" % (prop, seed, tier, NPROC, count, tbuild), flush=True)

    def batch(first, cnt, out, wall):
        os.makedirs(out, exist_ok=True)
        return subprocess.Popen([exe, "batch", prop, str(seed), str(first), str(cnt), tier, out, str(wall)], env=ENV, stdout=subprocess.PIPE,
                                stderr=subprocess.DEVNULL, text=True)

    ts = time.time()
    outs = [os.path.join(outroot, "w%d" % k) for k in range(NPROC)]
    ps = [batch(k * count, count, outs[k], maxwall) for k in range(NPROC)]
    stats = []
    for p in ps:
        o = p.communicate()[0]
        try:
            stats.append(json.loads(o))
        except ValueError:
            die("a worker gave no result (exit %s): %s" % (p.returncode, o[-500:]))
    tsim = time.time() - ts

    fails = sorted(sum((glob.glob(os.path.join(o, "fail-*.scn")) for o in outs), []), key=lambda f: (is_hang(f), os.path.getsize(f)))
    known = known_list()
    knownseen = set(sum((s["known"] for s in stats), []))
    violations, notes, final = 0, [], None

    # a finding the list does not have for this property is a violation
    for k in sorted(knownseen):
        if (prop, k) not in known:
            f = sorted(sum((glob.glob(os.path.join(o, "known-%s-*.scn" % k)) for o in outs), []))[0]
            violations += 1
            final = os.path.join(outroot, "violation-%s.scn" % k)
            shutil.copy(f, final)
            print("unlisted finding " + k)

    # gate every failure: two fresh processes must reproduce it exactly
    ungated = []
    for f in fails[:12]:
        head = dict((l[2:].split(" ", 1) + [""])[:2] for l in open(f) if l.startswith("# "))
        cls = head.get("class", "").strip()
        slow = cls == "hang"
        if violations and (slow or time.time() - t0 > 650):
            break  # one reproduced failure is enough
        a, b = twice(exe, f, 45 if slow else 20)
        same = a["kind"] != "ok" and (a["kind"], a["class"], a["hash"]) == (b["kind"], b["class"], b["hash"]) and a["class"] == cls
        if same and head.get("kind", "").strip() == "violation":
            same = a["hash"] == head.get("hash", "").strip()
        if not same:
            ungated.append((f, cls, a["kind"] + "/" + a["class"], b["kind"] + "/" + b["class"]))
            continue
        violations += 1
        if final is None:
            hd, st, tries = minimise(exe, f, cls, outroot, 60 if tier == "quick" else 150)
            final = os.path.join(outroot, "violation.scn")
            with open(final, "w") as fh:
                fh.write("\n".join(hd + st) + "\n")
            c, d = twice(exe, final, 45 if slow else 20)
            if c["kind"] == "ok" or c["class"] != cls or (c["hash"], c["class"]) != (d["hash"], d["class"]):
                shutil.copy(f, final)
                c = a
            nsteps = len(st)
            with open(final) as fh:
                body = fh.read()
            with open(final, "w") as fh:
                fh.write("# property %s\n# class %s\n# %s\n# hash %s\n# replay: python3 check.py --replay %s\n" % (prop, c["class"], c["msg"], c["hash"], final)
                         + "\n".join(l for l in body.splitlines() if not l.startswith("#")) + "\n")
            seedline = [l for l in open(f) if l.startswith("h seed ")]
            print("violation: %s: %s" % (c["class"], c["msg"]))
            print("seed %s, minimised to %d steps in %d replays, hash %s" % (seedline[0].split()[2] if seedline else "?", nsteps, tries, c["hash"]))

    # determinism: the same scenarios, in other processes and with another split, give the same event hashes
    det = None
    if not fails:
        m = min(count, cfg.get("recheck", 24))
        p1, p2 = batch(0, m, os.path.join(outroot, "d0"), maxwall), batch(0, m, os.path.join(outroot, "d1"), maxwall)
        try:
            r1, r2 = json.loads(p1.communicate()[0]), json.loads(p2.communicate()[0])
        except ValueError:
            die("the determinism recheck gave no result")
        det = r1["hash"] == r2["hash"] and r1["fails"] == 0 == r2["fails"]
        if not det:
            die("two executions of the same seeds differ: %s %s" % (r1["hash"], r2["hash"]))

    def total(k):
        return sum(s[k] for s in stats)

    def merged(k):
        r = {}
        for s in stats:
            for a, b in s[k].items():
                r[a] = r.get(a, 0) + b
        return r

    runs = total("runs")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(union(outs, "nontriv")),
            "rule": cfg["rule"],
            "samples": sum((s["samples"][:1] for s in stats), [])[:3],
            "simulated_runs": runs, "runs_with_faults": total("faulty"), "events": total("events"), "oracle_checks": total("checks"),
            "runs_per_hour": int(runs / max(tsim, 1e-3) * 3600), "seeds_per_hour": int(runs / max(tsim, 1e-3) * 3600),
            "simulated_time": total("simtime"), "simulated_time_unit": cfg.get("unit", "one unit per simulated event"),
            "faults_injected": merged("faults"), "rare_conditions_hit": merged("probes"),
            "distinct_event_histories": len(union(outs, "sigs")),
            "distinct_measure": cfg.get("measure", "hash of the abstract event, verdict and fault sequence of a run"),
            "determinism_recheck": det,
            "real_components": cfg["real"], "simulated_components": cfg["stub"],
            "known_findings_met": sorted(knownseen),
            "ungated_failures": len(ungated),
        },
        "assumptions": cfg.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knownseen):
        if (prop, k) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, k)]))
    print("%d runs, %d distinct histories, %.0f runs/s, faults %s" % (runs, len(union(outs, "sigs")), runs / max(tsim, 1e-3), json.dumps(merged("faults"))))
    for o in outs + [os.path.join(outroot, "d0"), os.path.join(outroot, "d1")]:
        for f in glob.glob(os.path.join(o, "*.bin")):
            os.unlink(f)
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, final))
        sys.exit(1)
    if ungated:
        for u in ungated:
            print("not reproduced: %s %s then %s, %s" % u)
        die("a failure did not reproduce in fresh processes")
    cov = ev["coverage"]
    missing = [p for p in cfg.get("must", []) if not (cov["faults_injected"].get(p) or cov["rare_conditions_hit"].get(p))]
    if missing:
        print("note: never hit in this run: " + ", ".join(missing))
    print("held: property=%s" % prop)
    sys.exit(0)


main()
