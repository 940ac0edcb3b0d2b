"""Rules over the headers of the library, decided by the compiler's front end on /repo's current source.

headers: every public header can be included on its own, first, twice, in any order and in any number of translation
units: it names what it includes, guards against repeated inclusion, defines nothing with external linkage, and the
templates it offers can be instantiated by a program that includes nothing else.
"""
import concurrent.futures as cf
import os, re

import check

# what a program that includes only this header may instantiate
USES = {
    "spine/structure/array.hpp": "template class spn::structure::Array<int>; template class spn::structure::Array<double>;",
    "spine/structure/vector.hpp": "template class spn::structure::Vector<int>;",
    "spine/structure/stack.hpp": "template class spn::structure::Stack<int>;",
    "spine/structure/tuple.hpp": "template struct spn::structure::Tuple<int, long>;",
    "spine/structure/ringbuffer.hpp": "template class spn::structure::RingBuffer<int>; template class spn::structure::RingBuffer<uint8_t>;",
    "spine/structure/point.hpp": "void use() { spn::structure::XYZPoint<float> p; p.normalize(); p.mag(); spn::structure::XYPoint<double> q; q.normalize(); q.mag(); spn::structure::XYPoint<int> r; r = r % r; r.mag(); }",
    "spine/structure/pool.hpp": "void use() { spn::structure::Pool<int> p(2); p.populate(1); auto x = p.acquire(); }",
    "spine/structure/units/temperature.hpp": "void use() { celsius c = to_celsius(kelvin(1)); kelvin k = to_kelvin(c); }",
    "spine/structure/units/time.hpp": "void use() { k_time_ms a = to_kernel_time(time_ms(1.5f)); time_ms b = to_real_time(a); }",
    "spine/structure/units/primitives/compound_unit.hpp": "",
    "spine/filter/filterstack.hpp": "template class spn::filter::Stack<float>;",
    "spine/filter/implementations/bandpass.hpp": "template class spn::filter::BandPass<float>;",
    "spine/filter/implementations/ewma.hpp": "template class spn::filter::EWMA<float>;",
    "spine/filter/implementations/invert.hpp": "template class spn::filter::Invert<float>;",
    "spine/filter/implementations/mapped_range.hpp": "template class spn::filter::MappedRange<float>;",
    "spine/filter/implementations/passthrough.hpp": "template class spn::filter::Passthrough<float>;",
}
ARDUINO = ["-UNATIVE", "-DARDUINO=10800", "-D__arm__", "-I" + os.path.join(check.HERE, "stubs", "arduino")]
ZEPHYR = ["-UNATIVE", "-DZEPHYR", "-DCONFIG_LOG_RUNTIME_FILTERING", "-I" + os.path.join(check.HERE, "stubs", "zephyr")]


def headers(REPO):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src", "spine")):
        for f in fs:
            if f.endswith((".hpp", ".h")):
                out.append(os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src")))
    return sorted(out)


def flags_of(h):
    if "/arduino" in h:
        return ARDUINO
    if "/zephyr" in h:
        return ZEPHYR
    return []


def run(spec, res, work, REPO, HERE, Broken):
    if "headers" in spec:
        run_headers(res, work, REPO, HERE, Broken)
    if "formats" in spec:
        run_formats(res, work, REPO, HERE, Broken)


# the log declared as what it is: a function that takes a printf-style text and the values it asks for
LOG = """#include "spine/core/logging.hpp"
namespace spn::logging::detail {
void print(LogLevel, const char*, int, const char*, const char*, ...) __attribute__((format(printf, 5, 6)));
}
"""


def run_formats(res, work, REPO, HERE, Broken):
    pre = os.path.join(work, "log.h")
    open(pre, "w").write(LOG)
    units = []
    for d, _, fs in os.walk(os.path.join(REPO, "src", "spine")):
        units += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    units.sort()
    if len(units) < 10:
        raise Broken("only %d source files found" % len(units))
    wit = [os.path.join(HERE, "witness", f) for f in sorted(os.listdir(os.path.join(HERE, "witness"))) if f.endswith(".cpp") and not f.startswith("units")]
    uses = os.path.join(work, "uses.cpp")
    open(uses, "w").write("".join('#include "%s"\n' % h for h in headers(REPO) if not flags_of(h) and h != "spine/platform/platform.hpp")
                          + "".join("namespace u%d { %s }\n" % (k, u) if u.startswith("void") else u + "\n" for k, u in enumerate(USES.values())))
    native = [u for u in units if not flags_of(u)]
    jobs = []
    for dbg in ([], ["-DDEBUG_SPINE"]):
        for u in native + [uses]:
            jobs.append((u, dbg))
        for u in units:
            if "/implementations/mock" not in u and not u.endswith("/mock.cpp"):
                if "/zephyr" not in u:
                    jobs.append((u, dbg + ARDUINO))
                if "/arduino" not in u:
                    jobs.append((u, dbg + ZEPHYR))
        for w in wit:
            b = os.path.basename(w)
            jobs.append((w, dbg + (ARDUINO if b == "arduino.cpp" else ZEPHYR if b == "zephyr.cpp" else []) + ["-include", os.path.join(HERE, "witness", "prelude.h")]))
    lang = [f for f in check.LANG if f != "-w"]

    def one(j):
        u, fl = j
        base = [check.CLANG] + lang + fl + ["-fsyntax-only", "-fno-caret-diagnostics", "-ferror-limit=3", "-Wno-everything"]
        r = check.sh(base + ["-Wformat", "-Wformat-security", "-Wformat-extra-args", "-include", pre, u])
        if r.returncode == 0:
            return True, r.stdout
        # what does not go together with the declaration above, or with the platform at all, says nothing about its texts
        r = check.sh(base + ["-Wformat", "-Wformat-security", u])
        return None, r.stdout if r.returncode == 0 else ""

    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, jobs))
    if os.environ.get("VERIF_DEBUG"):
        print([j for j, o in zip(jobs, outs) if not o[0]])
    decided = sum(1 for ok, _ in outs if ok)
    seen = set()
    for (u, fl), (ok, log) in zip(jobs, outs):
        if ok or log:
            res.obligations += 1
        hit = False
        for m in re.finditer(r"(\S+?):(\d+):\d+: warning: (.*)", log):
            if not m.group(1).startswith(REPO + "/"):
                continue
            hit = True
            text = re.sub(r" \[-W.*", "", m.group(3))
            key = (m.group(1), m.group(2), text)
            if key in seen:
                continue
            seen.add(key)
            rel = os.path.relpath(m.group(1), REPO)
            res.violations.append(dict(key="format|%s|%s" % (rel, text), what="a printf-style text does not match its values: " + text, where="%s:%s" % (m.group(1), m.group(2)),
                                       detail="unit %s, flags %s\n%s:%s: %s" % (u, " ".join(fl), rel, m.group(2), text)))
        if (ok or log) and not hit:
            res.discharged += 1
    if decided < len(native):
        res.cov["undecided"] = "the log is declared differently than expected: only calls of the C library were looked at"
    calls = 0
    for u in units + [os.path.join(REPO, "src", h) for h in headers(REPO)]:
        calls += len(re.findall(r"\b(?:SPN_LOG_IMPL|SPN_LOG|SPN_ERR|SPN_WARN|SPN_INFO|SPN_DBG|LOG|WARN|ERR|DBG|snprintf|vsnprintf|sscanf|printf)\s*\(", open(u, errors="replace").read()))
    res.cov["formats"] = dict(units=len(jobs), decided_with_log=decided, textual_call_sites=calls)
    res.samples += ["%s %s" % (os.path.relpath(j[0], REPO) if j[0].startswith(REPO) else os.path.basename(j[0]), " ".join(f for f in j[1] if f.startswith("-D"))) for j, o in zip(jobs, outs) if o[0]][:8]
    if not res.cov.get("translation_units"):
        res.cov["translation_units"] = sorted({j[0] for j in jobs})


def run_headers(res, work, REPO, HERE, Broken):
    hs = headers(REPO)
    if len(hs) < 20:
        raise Broken("only %d headers found" % len(hs))
    native = [h for h in hs if not flags_of(h) and h != "spine/platform/platform.hpp"]
    inc = lambda l: "".join('#include "%s"\n' % h for h in l)
    jobs = []  # (rule, subject, flags, text, ir)
    for h in hs:
        jobs.append(("stands on its own", h, flags_of(h), inc([h]), True))
        jobs.append(("can be included repeatedly", h, flags_of(h), inc([h, h]), False))
        if USES.get(h):
            jobs.append(("offers templates that can be used on their own", h, flags_of(h), inc([h]) + USES[h] + "\n", False))
        if not flags_of(h) and h not in ("spine/platform/hal.hpp", "spine/platform/platform.hpp"):  # the latter needs to be told what the platform can do
            jobs.append(("can come before the platform", h, [], inc([h, "spine/platform/hal.hpp"]), False))
            jobs.append(("can come after the platform", h, [], inc(["spine/platform/hal.hpp", h]), False))
    missing = [h for h in USES if h not in hs]
    if missing:
        raise Broken("headers vanished: %s" % missing)
    jobs.append(("can be included together", "all headers in order", [], inc(native), False))
    jobs.append(("can be included together", "all headers in reverse order", [], inc(native[::-1]), False))

    def one(k):
        rule, h, fl, text, ir = jobs[k]
        p = os.path.join(work, "h%d.cpp" % k)
        open(p, "w").write(text)
        o = os.path.join(work, "h%d.ll" % k)
        r = check.sh([check.CLANG] + check.LANG + fl + (["-O0", "-S", "-emit-llvm", "-o", o] if ir else ["-fsyntax-only"]) + ["-ferror-limit=3", p])
        strong = []
        if ir and r.returncode == 0:
            for l in open(o, errors="replace"):
                m = re.match(r'define (.*?)@("[^"]*"|[\w.$]+)\(', l) or re.match(r'()?@("[^"]*"|[\w.$]+) = (?!.*\bexternal\b)(.*)$', l)
                if not m:
                    continue
                head = m.group(1) if l.startswith("define") else m.group(3)
                name = m.group(2).strip('"')
                if re.search(r"\b(internal|private|linkonce|linkonce_odr|weak|weak_odr|available_externally|appending|common)\b", head or ""):
                    continue
                if name.startswith("llvm."):
                    continue
                strong.append(name)
        return r.returncode == 0, r.stdout, strong

    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(one, range(len(jobs))))
    tally = {}
    for (rule, h, fl, text, ir), (ok, log, strong) in zip(jobs, outs):
        res.obligations += 1
        tally[rule] = tally.get(rule, 0) + 1
        if ok:
            res.discharged += 1
        else:
            m = re.search(r"(" + re.escape(REPO) + r"/src/\S+?:\d+)\S* (?:fatal )?error: (.*)", log)
            res.violations.append(dict(key="header|%s|%s" % (rule, h), what="a header no longer %s: %s%s" % (rule, h, ": " + m.group(2) if m else ""),
                                       where=m.group(1) if m else h, detail="program:\n%s\ndiagnostics:\n%s" % (text, log[-3000:])))
            continue
        if ir:
            res.obligations += 1
            tally["defines nothing twice"] = tally.get("defines nothing twice", 0) + 1
            if not strong:
                res.discharged += 1
            else:
                dem = check.sh(["c++filt"] + strong[:5]).stdout.split("\n")
                res.violations.append(dict(key="header|defines|%s|%s" % (h, strong[0]), what="a header defines something that is not inline: %s" % ", ".join(d for d in dem if d),
                                           where=REPO + "/src/" + h, detail="two translation units that include %s cannot be linked: both define\n%s" % (h, "\n".join(dem))))
    res.cov["headers"] = dict(headers=len(hs), **tally)
    res.samples += ["%s: %s" % (j[1], j[0]) for j in jobs[:6]]
    if not res.cov.get("translation_units"):
        res.cov["translation_units"] = ["src/" + h for h in hs]
