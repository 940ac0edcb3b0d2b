#!/usr/bin/env python3
"""Decides one property of /repo statically.   usage: check.py <property id> [--tier quick|thorough]

exit 0: every obligation of the property is discharged on /repo's current source (known findings are printed)
exit 1: VIOLATION property=<id> replay=<report>
exit 2: the analysis itself failed (source does not parse, an anchor vanished, resource limit)
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
LANG = ["-std=gnu++17", "-DNATIVE", "-I" + REPO + "/src", "-I" + os.path.join(HERE, "witness"), "-w"]
IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c", "-include", os.path.join(HERE, "witness", "prelude.h")]


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_tools():
    """Builds the analysers when they are missing or older than their sources (serialised by a lock)."""
    import fcntl
    d = os.path.join(HERE, "engine")
    os.makedirs(os.path.join(d, "build"), exist_ok=True)
    with open(os.path.join(d, "build", ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j8", "-C", d])
        if r.returncode:
            raise Broken("cannot build the analysers:\n" + r.stdout[-4000:])


def compile_ir(src, out, extra=()):
    r = sh([CLANG] + LANG + IRFLAGS + list(extra) + [src, "-o", out])
    return r.returncode, r.stdout


class Result:
    def __init__(self):
        self.violations = []   # dicts: key, what, where, detail
        self.entries = []
        self.obligations = 0
        self.discharged = 0
        self.cov = {}
        self.samples = []
        self.functions = set()
        self.sites = set()
        self.trusted = set()


def norm(s):
    return re.sub(r"#\d+|0x[0-9a-f]+|:\d+", "", s)


# left out on purpose: what is logged is no concern of the properties that do not link core/logging.cpp
LOGGING = ("_ZN3spn7logging11is_loggable", "_ZN3spn7logging6detail5print")


def symbols(bc):
    und, dfn = set(), set()
    for l in sh(["/usr/lib/llvm-18/bin/llvm-nm", bc]).stdout.splitlines():
        p = l.split()
        if len(p) >= 2 and len(p[-2]) == 1:
            (und if p[-2] in "Uw" else dfn).add(p[-1])
    return und, dfn


def link_rest(spec, srcs, work, units):
    """Functions of the library that the listed sources use but do not define, found wherever in src they are defined now."""
    extra, memo, compiled = [], {}, {}

    def syms(b):
        if b not in memo:
            memo[b] = symbols(b)
        return memo[b]

    for w in spec:
        fl = tuple(w.get("flags", []))
        have = [w["_bc"]] + [b for b in (srcs[(s, fl)] for s in w.get("repo", [])) if b]
        mine = []
        while True:
            dfn = set().union(*(syms(b)[1] for b in have + mine))
            und = set().union(*(syms(b)[0] for b in have + mine)) - dfn
            und = {u for u in und if "3spn" in u and not u.startswith(LOGGING)}
            if not und:
                break
            if fl not in compiled:
                todo = []
                for d, _, fs in os.walk(os.path.join(REPO, "src", "spine")):
                    for f in fs:
                        rel = os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src"))
                        if f.endswith(".cpp") and rel not in w.get("repo", []) and rel != "spine/core/logging.cpp" and (not rel.startswith("spine/platform/implementations/")):
                            todo.append(rel)
                todo.sort()
                outs = [os.path.join(work, "x%d_%d.bc" % (len(compiled), k)) for k in range(len(todo))]
                with cf.ThreadPoolExecutor(8) as ex:
                    rcs = list(ex.map(lambda t: compile_ir(os.path.join(REPO, "src", t[0]), t[1], fl)[0], zip(todo, outs)))
                compiled[fl] = [(t, o) for t, o, rc in zip(todo, outs, rcs) if rc == 0]
            hit = next(((t, o) for t, o in compiled[fl] if o not in mine and und & syms(o)[1]), None)
            if hit is None:
                break
            mine.append(hit[1])
            units.append(os.path.join(REPO, "src", hit[0]))
        extra.append(mine)
    return extra


def run_absint(spec, res, work, tier):
    jobs = []
    srcs = {}
    for i, w in enumerate(spec):
        for s in w.get("repo", []):
            srcs.setdefault((s, tuple(w.get("flags", []))), None)
    units = []
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {}
        for k, (s, fl) in enumerate(srcs):
            path = os.path.join(REPO, "src", s)
            out = os.path.join(work, "r%d.bc" % k)
            if not os.path.exists(path):
                srcs[(s, fl)] = None  # moved: whatever defines its functions now is found below
                continue
            srcs[(s, fl)] = out
            fs[ex.submit(compile_ir, path, out, fl)] = path
        for i, w in enumerate(spec):
            src = os.path.join(HERE, "witness", w["witness"])
            out = os.path.join(work, "w%d.bc" % i)
            w["_bc"] = out
            fs[ex.submit(compile_ir, src, out, w.get("flags", []))] = src
        unbuilt = {}
        for f in cf.as_completed(fs):
            rc, log = f.result()
            if rc:
                unbuilt[fs[f]] = log
            units.append(fs[f])
    # a client of the public functions that builds against no version of the sources that builds is ours to repair;
    # one that no longer builds against sources that do is a violation: what it does is legal
    for path, log in unbuilt.items():
        if path.startswith(REPO + "/") or re.search(r"fatal error: .*file not found", log) or not re.search(r"^\S+:\d+:\d+: error:", log, re.M):
            raise Broken("%s does not compile:\n%s" % (path, log[-3000:]))
    if unbuilt and any(path.startswith(REPO + "/") for path in unbuilt):
        raise Broken("\n".join(unbuilt.values())[-3000:])
    for path, log in unbuilt.items():
        first = re.search(r"^(\S+:\d+):\d+: error: (.*)", log, re.M)
        res.violations.append(dict(key="%s|build|%s" % (os.path.basename(path), norm(first.group(2))), what="build: a legal client no longer builds: " + first.group(2),
                                   where=first.group(1), detail=log[:6000]))
    spec = [w for w in spec if os.path.join(HERE, "witness", w["witness"]) not in unbuilt]
    extra = link_rest(spec, srcs, work, units)
    res.cov["translation_units"] = sorted(units)
    absint = os.path.join(HERE, "engine", "build", "absint")
    for i, w in enumerate(spec):
        bcs = [w["_bc"]] + [b for b in (srcs[(s, tuple(w.get("flags", [])))] for s in w.get("repo", [])) if b] + extra[i]
        ents = sh([absint, w["_bc"], "-l"]).stdout.split()
        ents = [e for e in ents if e not in w.get("skip", [])]
        if w.get("entries"):
            missing = set(w["entries"]) - set(ents)
            if missing:
                raise Broken("entries vanished: %s" % missing)
            ents = w["entries"]
        if not ents:
            raise Broken("no entry in %s" % w["witness"])
        for e in ents:
            if tier == "quick" and e in w.get("thorough_only", []):
                continue
            jobs.append((w, e, bcs))

    def one(j):
        w, e, bcs = j
        out = os.path.join(work, "%s.%d.json" % (e, id(w)))
        limit = w.get("limit", 600)
        try:
            r = sh([absint] + bcs + ["-e", e, "-r", REPO + "/", "-t", str(limit), "-o", out], timeout=limit + 120)
        except subprocess.TimeoutExpired:
            return w, "analysis of %s ran out of time" % e
        if r.returncode or not os.path.exists(out):
            return w, "analysis of %s failed: %s" % (e, r.stdout[-2000:])
        return w, json.load(open(out))["entries"][0]

    with cf.ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, jobs))
    # what one entry shows to be broken stays broken when another one gives no answer
    gave_up = [d for _, d in done if isinstance(d, str)]
    lost = {w["witness"] for w, d in done if isinstance(d, str)}
    done = [(w, d) for w, d in done if not isinstance(d, str)]
    reached = {}
    for w, d in done:
        reached.setdefault(w["witness"], set()).update(d["checks"])
    for w, d in done:
        e = d["entry"]
        if d["abort"]:
            # an abort with alarms already raised still names a broken construct
            if not d["alarms"]:
                gave_up.append("analysis of %s gave up: %s" % (e, d["abort"]))
        if w.get("only"):
            d["alarms"] = [a for a in d["alarms"] if a["msg"] in w["only"]]
            d["expected"] = list(w["only"])
        if e in w.get("endless", []):
            d["alarms"] = [a for a in d["alarms"] if a["kind"] != "endless"]
        for a in d["alarms"]:
            if w.get("only"):
                at = [x for x in re.findall(r"at (\S+:\d+ in .*)", a["stack"]) if x.startswith(REPO + "/") and "/core/exception." not in x]
                if at:
                    a["where"] = at[0]
            fn = a["where"].split(" in ")[-1] if " in " in a["where"] else a["where"]
            key = "%s|%s|%s" % (e, a["kind"], a["msg"] if a["kind"] == "check" and not w.get("only") else norm(a["msg"]) + " @ " + fn)
            res.violations.append(dict(key=key, what="%s: %s" % (a["kind"], a["msg"]), where=a["where"],
                                       detail="entry %s\n%s: %s\nat %s\ncall stack:\n%s\nabstract trace:\n%s" %
                                       (e, a["kind"], a["msg"], a["where"], a["stack"], a["trace"])))
        if not w.get("only") and w.get("ends", True) and not d["abort"] and not d["returns"] and e not in w.get("endless", []):
            res.violations.append(dict(key="%s|endless|" % e, what="unreached: no execution gets to the end of %s" % e, where=w["witness"] + " " + e,
                                       detail="entry %s: every abstract path stays in a loop, or stops, before the end" % e))
        failed = {a["msg"] for a in d["alarms"] if a["kind"] == "check"}
        n_ids = len(d["expected"])
        for c in d["expected"]:
            if w.get("vacuity", True) and c not in reached[w["witness"]] and w["witness"] not in lost and not any(x["abort"] for y, x in done if y["witness"] == w["witness"]):
                reached[w["witness"]].add(c)
                res.violations.append(dict(key="%s|unreached|%s" % (e, c), what="unreached: no execution reaches obligation '%s'" % c,
                                           where=w["witness"] + " " + e,
                                           detail="entry %s: the operation or outcome guarded by '%s' is no longer reachable on any abstract path" % (e, c)))
        mem_bad = len([a for a in d["alarms"] if a["kind"] != "check"])
        nsite = 0 if w.get("only") else len(d["sites"])
        res.obligations += n_ids + nsite
        res.discharged += max(0, n_ids - len(failed & set(d["expected"])) + nsite - mem_bad)
        res.functions.update(d["functions"])
        res.sites.update(d["sites"])
        res.entries.append(dict(entry=e, obligations={c: d["checks"].get(c, [0, 0]) for c in d["expected"]}, memory_sites=nsite,
                                memory_accesses=d["accesses"], functions=len(d["functions"]), abstract_steps=d["steps"],
                                unmodelled=d["unmodelled"], wall_s=round(d["wall"], 2)))
        minf = w.get("min_functions", {}).get(e, 1)
        if len(d["functions"]) < minf:
            raise Broken("entry %s analysed only %d functions of the repository (expected >= %d)" % (e, len(d["functions"]), minf))
        res.trusted.update(d["unmodelled"])
    if gave_up and not any(not v["key"].split("|")[1] == "unreached" for v in res.violations):
        raise Broken("; ".join(gave_up))


def run_types(spec, res, work, tier):
    """Each snippet must compile or must not compile against /repo's headers."""
    jobs = []
    for f in spec:
        text = open(os.path.join(HERE, "witness", f)).read()
        head, *parts = re.split(r"^//@ *", text, flags=re.M)
        for p in parts:
            first, body = p.split("\n", 1)
            kind, name = first.split(None, 1)
            jobs.append((f, kind.strip(), name.strip(), head, body))
    if not jobs:
        raise Broken("no type witness")

    def one(k):
        f, kind, name, head, body = jobs[k]
        p = os.path.join(work, "t%d.cpp" % k)
        open(p, "w").write(head + body)
        r = sh([CLANG] + LANG + ["-fsyntax-only", "-ferror-limit=3", p])
        return r.returncode == 0, r.stdout

    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(jobs))))
    tally = {}
    for (f, kind, name, head, body), (ok, log) in zip(jobs, outs):
        res.obligations += 1
        tally[kind] = tally.get(kind, 0) + 1
        if kind == "control":
            if not ok:
                raise Broken("type witness prelude of %s does not compile: %s" % (f, log[-1500:]))
            res.discharged += 1
            continue
        good = ok == (kind == "accept")
        if good:
            res.discharged += 1
            continue
        what = ("a program that must be rejected now compiles" if kind == "reject" else "a required type-level fact no longer holds") + ": " + name
        # name the construct: the first repository location in the diagnostics
        m = re.search(re.escape(REPO) + r"/src/\S+:\d+", log)
        res.violations.append(dict(key="%s|%s|%s" % (f, kind, name), what=what, where=m.group(0) if m else f,
                                   detail="snippet (%s):\n%s\n%s" % (f, body.strip(), log[-3000:])))
    res.cov["type_witnesses"] = dict(files=spec, **tally)
    res.samples += ["%s: %s" % (j[1], j[2]) for j in jobs[:6]]


def run_lint(spec, res, work, tier):
    import lint
    lint.run(spec, res, work, REPO, HERE, Broken)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import specs
    spec = specs.SPECS[pid]
    evid = os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)
    report = os.path.join(evid, pid + ".violation.txt")
    if os.path.exists(report):
        os.remove(report)
    res = Result()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        ensure_tools()
        if spec.get("absint"):
            run_absint([dict(w) for w in spec["absint"]], res, work, tier)
        if spec.get("types"):
            run_types(spec["types"], res, work, tier)
        if spec.get("lint"):
            run_lint(spec["lint"], res, work, tier)
    except Broken as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["known"] if k["property"] == pid]
    fresh, seen = [], set()
    for v in res.violations:
        hit = [k for k in known if v["key"] in k["keys"]]
        if hit:
            seen.add(hit[0]["what"])
        else:
            fresh.append(v)
    for s in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (pid, s))
    cov = dict(res.cov)
    cov.update(obligations=res.obligations, discharged=res.discharged,
               functions_analysed=len(res.functions), functions=sorted(res.functions)[:60],
               sites=len(res.sites), entries=res.entries, rule=spec["rule"],
               samples=(res.samples + [n for e in res.entries for n in list(e["obligations"])[:3]])[:12],
               explanation=spec["rule"],
               checker_cmd="python3 check.py %s" % pid,
               trusted_base=["clang 18 front end (AST and unoptimised LLVM IR)", "engine/*.cpp: the abstract interpreter / AST rules in this repository",
                             "witness/*: the stated obligations"] + ["result unconstrained, effects assumed absent: " + t for t in sorted(res.trusted)],
               known_findings=sorted(seen))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "proof"), coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=spec.get("assumptions", []), violations=len(fresh))
    json.dump(ev, open(os.path.join(evid, pid + ".json"), "w"), indent=1)
    print("property %s: %d obligations, %d discharged, %d repository functions, %d memory sites, %d entries, %.1fs" %
          (pid, res.obligations, res.discharged, len(res.functions), len(res.sites), len(res.entries), time.time() - t0))
    if fresh:
        with open(report, "w") as f:
            for v in fresh:
                f.write("== %s\n   at %s\n   key %s\n%s\n\n" % (v["what"], v["where"], v["key"], v["detail"]))
        for v in fresh[:8]:
            print("  %s   [%s]" % (v["what"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, report))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never let an internal error look like a verdict
        import traceback
        traceback.print_exc()
        print("ANALYSIS-ERROR internal")
        sys.exit(2)
