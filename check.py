#!/usr/bin/env python3
"""Driver of the simulations: builds the simulator from /repo's working tree, searches
seeds in parallel, gates, minimises and reports what fails, and writes the evidence.

  check.py PROP [--tier quick|thorough] [--seeds N] [--wall S] [--base B]
  check.py --replay FILE            replays a file written by a failing check
  check.py --build-all              builds every simulator (warms the cache)
"""
import argparse, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
OUT = HERE if REPO == "/repo" else BUILD  # checks of scratch copies leave nothing here
REPLAYS = os.path.join(OUT, "replays")
JOBS = int(os.environ.get("SIM_JOBS", "8"))

sys.path.insert(0, HERE)
from simconfig import PROPS, FLAVORS, SETS, COMMON  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------- build
def headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".inl", ".inl.hpp", ".ipp")) or os.path.basename(root) == "demos":
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def build(setname, flavor):
    """Compiles the sources of a set in a flavour; returns the binary's path."""
    st, fl = SETS[setname], FLAVORS[flavor]
    srcs = [os.path.join(HERE, "sim", s) for s in st["sim"]]
    srcs += [os.path.join(REPO, s) for s in st["repo"]]
    incs = [i.replace("@REPO", REPO).replace("@SIM", os.path.join(HERE, "sim")) for i in st["include"]]
    flags = COMMON + fl["flags"] + st.get("flags", []) + ["-I" + i for i in incs]
    cxx = fl.get("cxx", "g++")
    hd = headers_digest(sorted(set(incs + [os.path.join(HERE, "sim")])))
    os.makedirs(BUILD, exist_ok=True)
    objs, jobs = [], []
    for s in srcs:
        with open(s, "rb") as fh:
            key = hashlib.sha256((cxx + "\0".join(flags) + hd + s).encode() + fh.read()).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(s)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    def compile_one(so):
        s, o = so
        t = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + flags + ["-c", s, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return s + ":\n" + r.stdout[-4000:]
        os.rename(t, o)
        return None

    order = {"World.cpp": 0, "wsim.cpp": 1}
    jobs.sort(key=lambda j: order.get(os.path.basename(j[0]), 5))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-%s-%s-%s" % (setname, flavor, key))
    if not os.path.exists(exe):
        t = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + flags + fl.get("ldflags", []) + objs + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        os.rename(t, exe)
    return exe


# --------------------------------------------------------------------------------- runs
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = (
    "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
    "handle_segv=1:symbolize=1:halt_on_error=1:print_legend=0:quarantine_size_mb=8"
)
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1:exitcode=77"
ENV["LC_ALL"] = "C"


def crash_class(rc, err):
    m = re.search(r"AddressSanitizer: ([\w-]+)", err)
    if m:
        # functions on the stack, outermost simulator frames dropped
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?)(?: \(|\+0x| /)", err)
        fn = next((re.sub(r"\(.*", "", f) for f in fr if "simu::" in f), "")
        return "memory:" + m.group(1), (m.group(0) + (" in " + fn if fn else ""))
    m = re.search(r"(\S+): (\d+): (\d+): runtime error: (.*)", err) or re.search(r"(\S+):(\d+):(\d+): runtime error: (.*)", err)
    if m:
        return "memory:undefined-behaviour", "undefined behaviour: " + m.group(4)
    if rc < 0:
        try:
            n = signal.Signals(-rc).name
        except ValueError:
            n = str(-rc)
        return "crash:" + n, "process ended by " + n
    return None, None


def interpret(rc, out, err):
    """-> None (fine), or dict(class, msg, hash, error?)"""
    last = None
    for line in out.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("result") in ("violation", "hang"):
                last = d
    if rc == 0:
        return None
    if rc == 3 and last:
        return {"class": last["class"], "msg": last["msg"], "hash": last["hash"], "op": last.get("op", -1), "seed": last.get("seed")}
    if rc == 4 and last:
        return {"class": "hang", "msg": "the run does not terminate", "hash": "", "op": -1}
    c, m = crash_class(rc, err)
    if c:
        return {"class": c, "msg": m, "hash": "", "op": -1, "stderr": err[:6000]}
    return {"class": "ERROR", "msg": "simulator failed (exit %s): %s" % (rc, err[-2000:]), "hash": "", "op": -1, "error": True}


def sh(cmd, timeout=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 4, '{"result":"hang"}\n', ""


class Search:
    """Runs seeds [base, base+n) of a property on one binary, JOBS processes at a time."""

    def __init__(self, exe, prop, tier, base, n, wall, cpu, tmp, known, stop_first=True):
        self.__dict__.update(locals())
        self.summaries, self.violations, self.knownHits, self.states = [], [], [], set()
        self.aborted = False
        self.killed  = 0

    def go(self):
        procs = {}
        t0 = time.time()
        chunk = 0

        def start(w, frm):
            nonlocal chunk
            chunk += 1
            pf = os.path.join(self.tmp, "p%d" % chunk)
            sf = os.path.join(self.tmp, "s%d" % chunk)
            left = max(1, self.wall - (time.time() - t0))
            of, ef = open(pf + ".out", "wb"), open(pf + ".err", "wb")
            p = subprocess.Popen(
                [self.exe, "run", "--prop", self.prop, "--from", str(frm), "--to", str(self.base + self.n), "--stride", str(JOBS),
                 "--tier", self.tier, "--wall", "%.1f" % left, "--progress", pf, "--states", sf, "--cpu", str(self.cpu)],
                stdout=of, stderr=ef, env=ENV)
            of.close(), ef.close()
            procs[p.pid] = (p, w, pf, sf, frm)

        for w in range(min(JOBS, self.n)):
            start(w, self.base + w)
        while procs:
            time.sleep(0.02)
            for pid in list(procs):
                p, w, pf, sf, frm = procs[pid]
                rc = p.poll()
                if rc is None:
                    if time.time() - t0 > self.wall + 120:
                        p.kill()
                    continue
                del procs[pid]
                if rc == -signal.SIGKILL:  # by us, or by the system for lack of resources: says nothing about the code
                    if not self.aborted and time.time() - t0 < self.wall:
                        self.killed += 1
                        if self.killed < 20:
                            start(w, frm)
                    continue
                out = open(pf + ".out", errors="replace").read()
                err = open(pf + ".err", errors="replace").read()
                v = interpret(rc, out, err)
                if v is None:
                    for line in out.splitlines():
                        if line.startswith("{"):
                            self.summaries.append(json.loads(line))
                    if os.path.exists(sf):
                        with open(sf, "rb") as fh:
                            b = fh.read()
                        self.states.update(b[i:i + 8] for i in range(0, len(b), 8))
                    continue
                try:
                    seed = int(open(pf).read().strip())
                except (OSError, ValueError):
                    seed = frm
                if v.get("seed") is None:
                    v["seed"] = seed
                v["from"] = frm
                k = None if v.get("error") else self.known(v)
                if k is not None:
                    self.knownHits.append((k, v))
                    if time.time() - t0 < self.wall and len(self.knownHits) < 200 and seed + JOBS < self.base + self.n:
                        start(w, seed + JOBS)
                    continue
                self.violations.append(v)
                if self.stop_first:
                    self.aborted = True
                    for q in procs.values():
                        q[0].kill()
                elif len(self.violations) < 400 and time.time() - t0 < self.wall and seed + JOBS < self.base + self.n:
                    start(w, seed + JOBS)
        self.elapsed = time.time() - t0
        return self


def plan_ops(text):
    L = [l for l in text.splitlines() if l.strip() and not l.startswith("#")]
    return [l for l in L if not l.startswith("op ")], [l for l in L if l.startswith("op ")]


def replay(exe, prop, text, tmp, cpu):
    fd, path = tempfile.mkstemp(dir=tmp, suffix=".plan")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    rc, out, err = sh([exe, "replay", "--prop", prop, "--plan", path, "--cpu", str(cpu)], timeout=cpu * 4 + 20)
    os.unlink(path)
    return interpret(rc, out, err)


def twice(*args):
    with ThreadPoolExecutor(2) as ex:
        return list(ex.map(lambda _: replay(*args), range(2)))


def minimise(exe, prop, text, cls, tmp, cpu, budget, msg=None):
    t0 = time.time()
    cfg, ops = plan_ops(text)
    cpu = min(cpu, 5) if cls == "hang" else cpu
    tried = 0

    def what(m):  # exceptions of the code are told apart by their text
        return re.sub(r"\d+", "#", m) if cls == "unexpected-exception" else ""

    def fails(o, c=None):
        v = replay(exe, prop, "\n".join((c or cfg) + o) + "\n", tmp, cpu)
        return v is not None and v["class"] == cls and (msg is None or what(v["msg"]) == what(msg))

    with ThreadPoolExecutor(JOBS) as ex:
        def first(cands):
            nonlocal tried
            for i in range(0, len(cands), JOBS):
                if time.time() - t0 > budget:
                    return None
                batch = cands[i:i + JOBS]
                tried += len(batch)
                for c, ok in zip(batch, list(ex.map(fails, batch))):
                    if ok:
                        return c
            return None

        n = 2
        while len(ops) >= 2 and time.time() - t0 < budget:
            size = max(1, (len(ops) + n - 1) // n)
            cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            c = first(cands)
            if c is not None:
                ops = c
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(ops), n * 2)
        # simpler arguments
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            cands = []
            for i, l in enumerate(ops):
                t = l.split()
                for j in range(2, len(t)):
                    v = float(t[j])
                    for r in (0.0, float(round(v)), float("%.2g" % v)):
                        if r != v and abs(r) <= abs(v) + 1 and len(repr(r)) < len(t[j]):
                            cands.append(ops[:i] + [" ".join(t[:j] + ["%.17g" % r] + t[j + 1:])] + ops[i + 1:])
                            break
            c = first(cands)
            if c is not None:
                ops = c
                changed = True
    return "\n".join(cfg + ops) + "\n", tried


# -------------------------------------------------------------------------------- known
def load_known():
    """lines: 'known: property=<id> class=<regex> msg=<regex> :: what fails' and 'fixed: ...'"""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) msg=(.*?) :: (.*)", line.strip())
            if m:
                r.append(dict(prop=m.group(1), cls=re.compile(m.group(2)), msg=re.compile(m.group(3)), what=m.group(4)))
    return r


# --------------------------------------------------------------------------------- check
def check(prop, tier, seeds=None, wall=None, base=None, survey=False, flavors=None):
    P = PROPS[prop]
    vs = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known = load_known()
    tmp = tempfile.mkdtemp(prefix="sim-")
    res = dict(parts=[], viol=None)
    knownSeen = {}
    status = 0
    try:
        parts = P["parts"]
        if flavors:  # the same search on other builds
            parts = [dict(p, flavor=f) for f in flavors for p in {p["set"]: p for p in P["parts"]}.values()]
        for part in parts:
            fl = part["flavor"]
            try:
                exe = build(part["set"], fl)
            except BuildError as e:
                log("BUILD FAILED\n" + str(e))
                return 2
            log("[%s/%s] built in %.1fs" % (prop, fl, time.time() - t0))
            tb = time.time()
            n = seeds or part[tier]["seeds"]
            wl = wall or part[tier]["wall"]
            b = base if base is not None else (vs % 1000003) * 100000000
            cpu = part.get("cpu", 20)

            def isKnown(v):
                for i, k in enumerate(known):
                    if k["prop"] == prop and k["cls"].fullmatch(v["class"]) and k["msg"].search(v["msg"]):
                        return i
                return None

            os.makedirs(os.path.join(tmp, fl), exist_ok=True)
            s = Search(exe, prop, tier, b, n, wl, cpu, os.path.join(tmp, fl), isKnown, not survey).go()
            # determinism: a sample of seeds again, in one process rather than in JOBS
            dd = dict(sampled=0, mismatches=0)
            if not s.violations:
                m = part.get("double", 24)
                r1 = sh([exe, "run", "--prop", prop, "--from", str(b), "--to", str(b + m), "--tier", tier, "--hashes", "1", "--wall", "10"])
                r2 = [sh([exe, "run", "--prop", prop, "--from", str(b + i), "--to", str(b + m), "--stride", "3", "--tier", tier, "--hashes", "1", "--wall", "10"]) for i in range(3)]
                h1 = dict(l.split()[1:3] for l in r1[1].splitlines() if l.startswith("H "))
                h2 = {}
                for r in r2:
                    h2.update(l.split()[1:3] for l in r[1].splitlines() if l.startswith("H "))
                common = set(h1) & set(h2)
                dd = dict(sampled=len(common), mismatches=sum(h1[k] != h2[k] for k in common))
            agg = dict(runs=0, nontrivial=0, distinct=0, events=0, simTime=0.0, counts={})
            for q in s.summaries:
                for k in ("runs", "nontrivial", "distinct", "events", "simTime"):
                    agg[k] += q[k]
                for k, c in q["counts"].items():
                    agg["counts"][k] = agg["counts"].get(k, 0) + c
            agg.update(flavor=fl, set=part["set"], states=len(s.states), search_s=s.elapsed, build_s=round(tb - t0, 2), determinism=dd, base=b, seeds=n)
            res["parts"].append(agg)
            for k in range(2):
                rc, text, err = sh([exe, "gen", "--prop", prop, "--seed", str(b + k), "--tier", tier])
                if rc == 0:
                    lines = text.splitlines()
                    res.setdefault("samples", []).append(dict(seed=b + k, flavor=fl, operations=len(lines), plan=lines[:40]))
            for k, v in s.knownHits:
                knownSeen.setdefault(k, []).append(v)
            log("[%s/%s] %d runs in %.1fs, %d violations, double runs %s" % (prop, fl, agg["runs"], s.elapsed, len(s.violations), dd))
            if survey:
                byc = {}
                for v in s.violations:
                    byc.setdefault((v["class"], re.sub(r"[-+]?\d[\d.e+-]*", "#", v["msg"])[:150]), []).append(v)
                for (c, m), vsl in sorted(byc.items(), key=lambda x: -len(x[1])):
                    log("  %5d %s: %s  e.g. seed %s (op %s) %s" % (len(vsl), c, m, vsl[0]["seed"], vsl[0]["op"], vsl[0]["msg"][:200]))
                log("  counts: " + " ".join("%s=%d" % x for x in sorted(agg["counts"].items()) if not x[0].startswith("script.")))
                continue
            if s.violations:
                v = pick_and_report(exe, prop, tier, fl, part, s.violations, tmp, cpu)
                if v is None:
                    status = 2
                else:
                    res["viol"] = v
                    status = 1
                break
        for k, hits in sorted(knownSeen.items()):
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, known[k]["what"], len(hits)), flush=True)
        if not survey:
            write_evidence(prop, tier, vs, res, time.time() - t0, knownSeen, known)
        return status
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_range(exe, prop, tier, frm, to, stride, cpu):
    rc, out, err = sh([exe, "run", "--prop", prop, "--from", str(frm), "--to", str(to + 1), "--stride", str(stride), "--tier", tier, "--wall", "600", "--cpu", str(cpu)])
    return interpret(rc, out, err)


def report_range(exe, prop, tier, flavor, part, v, cpu):
    """The failure needs the runs made before it in its process (state that outlives a world): replays them all."""
    a, b = [run_range(exe, prop, tier, v["from"], v["seed"], JOBS, cpu) for _ in range(2)]
    if not a or not b or a["class"] != b["class"] or a["hash"] != b["hash"] or a.get("error"):
        return None
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s-%s.plan" % (prop, flavor, v["seed"]))
    with open(path, "w") as f:
        f.write("# property %s\n# flavor %s\n# set %s\n# seed %s\n# class %s\n# hash %s\n# %s\n" % (prop, flavor, part["set"], v["seed"], a["class"], a["hash"], a["msg"].replace("\n", " ")))
        f.write("# the failure depends on the runs that precede it in the process\n# range %d %d %d %s\n" % (v["from"], v["seed"], JOBS, tier))
    log("%s: %s: %s" % (prop, a["class"], a["msg"]))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return dict(cls=a["class"], msg=a["msg"], replay=path, seed=v["seed"], flavor=flavor, ops=0)


def pick_and_report(exe, prop, tier, flavor, part, violations, tmp, cpu):
    errs = []
    for v in sorted(violations, key=lambda v: (bool(v.get("error")), v["class"] == "hang", v["seed"]))[:6]:
        if v.get("error"):
            errs.append(v["msg"])
            continue
        rc, text, err = sh([exe, "gen", "--prop", prop, "--seed", str(v["seed"]), "--tier", tier])
        if rc != 0:
            errs.append("gen failed: " + err)
            continue
        a, b = twice(exe, prop, text, tmp, cpu)
        if a and b and b["class"] == a["class"] and a["hash"] == b["hash"] and not a.get("error"):
            v["class"] = a["class"]  # what one run alone shows
        else:
            r = report_range(exe, prop, tier, flavor, part, v, cpu)
            if r is not None:
                return r
            errs.append("seed %s does not replay: %s / %s / %s" % (v["seed"], v["class"] + " " + v["msg"], a and a["class"], b and b["class"]))
            continue
        small, tried = minimise(exe, prop, text, v["class"], tmp, cpu, float(os.environ.get("SIM_MINIMISE", "25")), v["msg"])
        a, b = twice(exe, prop, small, tmp, cpu)
        if not a or not b or a["class"] != v["class"] or b["class"] != v["class"] or a["hash"] != b["hash"]:
            small, a = text, replay(exe, prop, text, tmp, cpu)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s.plan" % (prop, flavor, v["seed"]))
        with open(path, "w") as f:
            f.write("# property %s\n# flavor %s\n# set %s\n# seed %s\n# class %s\n# hash %s\n# %s\n" % (prop, flavor, part["set"], v["seed"], a["class"], a["hash"], a["msg"].replace("\n", " ")))
            f.write("# minimised from %d to %d operations in %d replays\n" % (len(plan_ops(text)[1]), len(plan_ops(small)[1]), tried))
            f.write(small)
        log("%s: %s: %s" % (prop, a["class"], a["msg"]))
        if a.get("stderr"):
            log(a["stderr"][:2500])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return dict(cls=a["class"], msg=a["msg"], replay=path, seed=v["seed"], flavor=flavor, ops=len(plan_ops(small)[1]))
    log("no failure could be reproduced:\n" + "\n".join(errs))
    return None


def write_evidence(prop, tier, vs, res, wall, knownSeen, known):
    P = PROPS[prop]
    runs = sum(p["runs"] for p in res["parts"])
    search = sum(p["search_s"] for p in res["parts"]) or 1e-9
    counts = {}
    for p in res["parts"]:
        for k, c in p["counts"].items():
            counts[k] = counts.get(k, 0) + c
    faults = {k[6:]: v for k, v in counts.items() if k.startswith("fault.")}
    probes = {k: v for k, v in counts.items() if not k.startswith("fault.")}
    scripts = {k: v for k, v in probes.items() if k.startswith("script.")}
    probes = {k: v for k, v in probes.items() if not k.startswith("script.")}
    ev = dict(
        property=prop, tier=tier, seed=vs, level=P.get("level", "exploration"),
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=sum(p["distinct"] for p in res["parts"]),
            rule=P.get("rule", "a run counts when its event log (a hash of every callback, operation and observed state) differs from all other runs of its worker and the run stepped a world of at least two bodies"),
            samples=res.get("samples", []),
            runs_per_hour=int(runs / search * 3600),
            seeds=[dict(flavor=p["flavor"], base=p["base"], count=p["runs"], planned=p["seeds"]) for p in res["parts"]],
            simulated_seconds=round(sum(p["simTime"] for p in res["parts"]), 3),
            events=sum(p["events"] for p in res["parts"]),
            distinct_states=sum(p["states"] for p in res["parts"]),
            state_measure=P.get("states", "structure of the world after each step: per body, its numbers of colliders, contacts and constraints, dominance and life state"),
            faults_injected=faults,
            probes=probes,
            scripted_callbacks=dict(kinds=len(scripts), fired=sum(scripts.values())),
            determinism=[p["determinism"] for p in res["parts"]],
            real_components=P.get("real", "all of simu's physics, math and utility code, compiled from the working tree"),
            stub_components=P.get("stub", "operator new/delete (arena), std::chrono::steady_clock, user callbacks (scripted by the plan)"),
            build_s=[p["build_s"] for p in res["parts"]],
        ),
        wall_s=round(wall, 2),
        violations=[] if not res["viol"] else [res["viol"]],
        assumptions=P.get("assumptions", []),
    )
    ev["coverage"]["known_findings"] = [dict(what=known[k]["what"], runs=len(h)) for k, h in sorted(knownSeen.items())]
    if isinstance(ev["violations"], list):
        ev["coverage"]["violation"] = ev["violations"]
        ev["violations"] = len(ev["violations"])
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--base", type=int)
    ap.add_argument("--survey", action="store_true")
    ap.add_argument("--flavor", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--setup", action="store_true", help="checks that the tools are there; everything else is built by each check")
    a = ap.parse_args()
    if a.setup:
        for t in ("g++", "ar"):
            if shutil.which(t) is None:
                log("missing " + t)
                return 1
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        return 0
    if a.build_all:
        for s, f in sorted({(p["set"], p["flavor"]) for q in PROPS.values() for p in q["parts"]}):
            try:
                t = time.time()
                log(build(s, f), "%.1fs" % (time.time() - t))
            except BuildError as e:
                log(e)
                return 2
        return 0
    if a.replay:
        text = open(a.replay).read()
        h = dict(re.findall(r"^# (property|flavor|set|class|hash) (.*)$", text, re.M))
        exe = build(h["set"], (a.flavor or [h["flavor"]])[0])
        tmp = tempfile.mkdtemp(prefix="sim-")
        if a.verbose:
            return subprocess.run([exe, "replay", "--prop", h["property"], "--plan", a.replay, "--verbose", "1"], env=ENV).returncode
        m = re.search(r"^# range (\d+) (\d+) (\d+) (\w+)", text, re.M)
        if m:
            v = run_range(exe, h["property"], m.group(4), int(m.group(1)), int(m.group(2)), int(m.group(3)), 30)
        else:
            v = replay(exe, h["property"], text, tmp, 30)
        shutil.rmtree(tmp)
        print(json.dumps(v, indent=1))
        ok = v is not None and v["class"] == h["class"] and v["hash"] == h["hash"]
        print("reproduced exactly" if ok else "NOT reproduced")
        return 1 if v is not None else 0
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    return check(a.prop, tier, a.seeds, a.wall, a.base, a.survey, a.flavor)


if __name__ == "__main__":
    sys.exit(main())
