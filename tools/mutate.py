#!/usr/bin/env python3
"""Random small mutations of a scratch copy of /repo, to find what the checks do not see.

  mutate.py OUT.jsonl [--n N] [--seed S] [--files REGEX] [--minutes M]

Every mutant that compiles and passes the stable tests is run through quick (shortened) checks until one
reports a violation; survivors are listed for review (many are equivalent). Nothing reads its output."""
import argparse, json, os, random, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = "/tmp/mutrepo"
OPT = MUT + ".opt"
BUILD = MUT + ".simbuild"

WORLD = "C01 C02 C03 C04 C12 C14 C15 C17 C18 C28 C05 C16 C06 C22 C07 C13".split()
SOLVER = "C08 C06 C11 C22 C09 C10 C15 C07 C14 C28".split()
FILES = {
    "src/Simu/physics/World.cpp": WORLD, "src/Simu/physics/Body.cpp": "C14 C04 C02 C16 C01 C06 C12".split(),
    "src/Simu/physics/BoundingBox.cpp": "C19 C04 C03 C05".split(),
    "src/Simu/math/Geometry.cpp": "C10 C09 C03 C22 C14 C24".split(),
    "include/Simu/physics/World.hpp": WORLD, "include/Simu/physics/Body.hpp": "C14 C28 C05 C06 C02 C07 C11 C13".split() + WORLD,
    "include/Simu/physics/Island.hpp": "C15 C06 C28 C17 C07 C12 C08 C22".split(),
    "include/Simu/physics/Bodies.hpp": "C07 C06 C15 C17 C14 C28".split(),
    "include/Simu/physics/Bodies.inl.hpp": "C07 C06 C15 C17 C14 C28".split(),
    "include/Simu/physics/Collider.hpp": "C14 C04 C01 C02 C03 C12 C18".split(),
    "include/Simu/physics/Constraint.hpp": "C10 C09 C06 C15 C08 C22 C12 C26".split(),
    "include/Simu/physics/ConstraintFunction.hpp": "C08 C06 C11 C22 C07".split(),
    "include/Simu/physics/ConstraintSolver.hpp": SOLVER, "include/Simu/physics/Constraint.inl.hpp": SOLVER,
    "include/Simu/physics/DistanceConstraint.hpp": "C08 C06 C22 C26".split(),
    "include/Simu/physics/Motors.hpp": "C11 C06 C22".split(),
    "include/Simu/physics/ContactManifold.hpp": "C10 C09 C03 C22 C26 C06".split(),
    "include/Simu/physics/ForceField.hpp": "C05 C28 C06".split(),
    "include/Simu/physics/Transform.hpp": "C14 C04 C22 C12 C06 C27".split(),
    "include/Simu/physics/CombinableProperty.hpp": "C10 C09".split(),
    "include/Simu/physics/Profiler.hpp": "C21".split(),
    "include/Simu/physics/RTree.hpp": "C19 C04 C03 C05".split(),
    "include/Simu/physics/RTree.inl.hpp": "C19 C04 C03 C05 C18".split(),
    "include/Simu/physics/BoundingBox.hpp": "C19 C04 C03 C05".split(),
    "include/Simu/physics/PhysicsObject.hpp": "C01 C02 C18".split(),
    "include/Simu/utility/Memory.hpp": "C20 C18 C19 C02".split(),
    "include/Simu/math/Gjk.hpp": "C10 C09 C22 C03".split(),
    "include/Simu/math/Gjk.inl.hpp": "C10 C09 C22 C03".split(),
    "include/Simu/math/Matrix.inl.hpp": "C08 C10 C22 C06 C14".split(),
    "src/Simu/app/Application.cpp": "C23 C25 C27 C24".split(), "src/Simu/app/Scene.cpp": "C23 C27 C25 C24".split(),
    "include/Simu/app/Scene.hpp": "C23 C25 C24 C27 C26".split(), "src/Simu/app/Tool.cpp": "C24 C29 C25 C26".split(),
    "include/Simu/app/Tool.hpp": "C24 C29".split(), "src/Simu/app/Camera.cpp": "C27 C26".split(),
    "include/Simu/app/Camera.hpp": "C27 C26".split(), "src/Simu/app/Renderer.cpp": "C26".split(),
    "include/Simu/app/Renderer.hpp": "C26".split(), "include/Simu/app/VisiblePhysics.hpp": "C26 C25 C24".split(),
    "include/Simu/app/MouseConstraint.hpp": "C24 C25".split(),
    **{"demos/%s.cpp" % n: ["C32"] for n in ("Demos", "BoxStacks", "NewtonPendulum", "Pyramid", "Tower", "Tumbler")},
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
         (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"),
         (r"\b0\.f", "1.f"), (r"\b1\.f", "0.5f"), (r"\b2\.f", "1.f"), (r"std::max\(", "std::min("), (r"std::min\(", "std::max("),
         (r"= -(?=[a-z(])", "= "), (r"\(-(?=[a-z(])", "("), (r"\(!(?=[a-z(])", "("), (r" & ", " | "), (r"\+\+(?=[a-z])", "--")]


def mutants(path, text):
    out = []
    lines = text.split("\n")
    block = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            block = True
        if block:
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "typedef", "using", "concept", "static_assert", "SIMU_ASSERT", "SIMU_PROFILE", "friend", "namespace", "class", "struct")):
            continue
        code = l.split("//")[0]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                if pat in (r" < ", r" > ") and "template" in l:
                    continue
                if rep in ("false", "true") and "constexpr" in l:
                    continue
                out.append((i, l[:m.start()] + rep + l[m.end():], rep.strip()))
        if re.match(r"[a-z_][\w.\->\[\]():*]*( [-+*/]?= .*|\(.*\));$", s) and not re.match(r"(return|throw|const|auto|typename|static|delete|virtual|float|bool|int|break|continue)\b", s):
            out.append((i, re.match(r"\s*", l).group(0) + ";", "deleted"))
        if re.match(r"if \(.*\)$", s):
            out.append((i, re.match(r"\s*", l).group(0) + "if (false)", "if false"))
            out.append((i, re.match(r"\s*", l).group(0) + "if (true)", "if true"))
    return [(i, new, k) for i, new, k in out if new != lines[i]]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--n", type=int, default=1000)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=".")
    ap.add_argument("--minutes", type=float, default=60)
    ap.add_argument("--wall", default="4")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    if not os.path.isdir(MUT):
        sh("cp -a /repo %s; rm -rf -- %s/_build" % (MUT, MUT))
    r = sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % MUT)
    if r.returncode:
        sys.exit(r.stderr)
    sh("rm -rf -- %s; cp -a /opt/vp %s; sed -i 's#/repo#%s#g; s#/opt/vp/build.sh#%s/build.sh#g; s#/opt/vp/test.sh#%s/test.sh#g' %s/*.sh" % (OPT, OPT, MUT, OPT, OPT, OPT))
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable.get("passed") or stable.get("stable") or stable
    pool = []
    for f in FILES:
        if re.search(a.files, f) and os.path.exists(os.path.join(MUT, f)):
            t = open(os.path.join(MUT, f), newline="").read()
            ms = mutants(f, t)
            rng.shuffle(ms)
            pool.append([(f,) + m for m in ms])
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    order = []
    while any(pool):
        w = [len(p) ** 0.5 for p in pool]
        p = rng.choices(pool, w)[0]
        order.append(p.pop())
    t0 = time.time()
    env = dict(os.environ, SIM_REPO=MUT, SIM_BUILD=BUILD, SIM_MINIMISE="0")
    k = 0
    for f, i, new, kind in order:
        if k >= a.n or time.time() - t0 > a.minutes * 60:
            break
        if (f, i + 1, new.strip()) in done:
            continue
        p = os.path.join(MUT, f)
        orig = open(p, newline="").read()
        lines = orig.split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w", newline="").write("\n".join(lines))
        rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), kind=kind)
        try:
            app = "/app/" in f or f.startswith("demos/")
            res = None
            if not app:
                try:
                    r = sh("timeout 300 bash %s/build.sh" % OPT)
                    if r.returncode:
                        res = "no-build"
                    else:
                        r = sh("timeout 120 bash %s/test.sh %s/out.json" % (OPT, OPT))
                        o = json.load(open(OPT + "/out.json"))
                        if any(t not in o["passed"] for t in stable):
                            res = "tests"
                except Exception as e:
                    res = "tests"
            if res is None:
                k += 1
                for c in FILES[f]:
                    r = sh("timeout 880 python3 %s/check.py %s --wall %s" % (HERE, c, a.wall), env=env)
                    if "BUILD FAILED" in r.stdout + r.stderr:
                        res = "no-build"
                        break
                    if r.returncode == 1:
                        res = "caught " + c
                        break
                    if r.returncode != 0:
                        rec["odd"] = (r.stdout + r.stderr)[-600:]
                        res = "odd " + c
                        break
                else:
                    res = "SURVIVED"
        finally:
            open(p, "w", newline="").write(orig)
        rec["result"] = res
        with open(a.out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")
        if res in ("SURVIVED",) or res.startswith("odd"):
            print("%s:%d %s   %s  =>  %s" % (f, i + 1, res, old.strip(), new.strip()), flush=True)
        # keep the build folder small
        if k % 10 == 0:
            sh("find %s -type f -mmin +30 -delete" % BUILD)


main()
