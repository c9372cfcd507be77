"""Compiles the obligation drivers of a property against /repo and decides them."""
import glob, json, os, re, signal, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import irabs
from common import *

SAN = "return,signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,null"
OPT = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-mllvm", "-inline-threshold=100000",
       "-fsanitize=" + SAN, "-fsanitize-trap=all", "-fsanitize-ignorelist=" + os.path.join(VERIF, "obl", "texts.list"), "-gline-tables-only", "-fno-discard-value-names"]


def own_flags(path):
    """stand-in headers a driver asks for, ahead of the real ones"""
    m = re.search(r"^// @stand-ins (.*)$", open(path).read(), re.M)
    return ["-I" + os.path.join(VERIF, "obl", m[1])] if m else []


def compile_driver(path, flags):
    flags = [*own_flags(path), *flags]
    out = os.path.join(BUILD, "ir", os.path.basename(path) + ".%d.ll" % os.getpid())
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [CXX, *flags, *OPT, "-I" + os.path.join(VERIF, "obl"), "-S", "-emit-llvm", path, "-o", out]
    r = sh(cmd)
    if r.returncode:
        return None, r.stderr
    text = open(out).read()
    os.remove(out)
    return text, None


def functions_used(path, flags):
    """functions of /repo the driver instantiates or calls, before optimisation"""
    flags = [*own_flags(path), *flags]
    out = os.path.join(BUILD, "ir", os.path.basename(path) + ".%d.raw.ll" % os.getpid())
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = sh([CXX, *flags, "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-I" + os.path.join(VERIF, "obl"), "-S", "-emit-llvm",
            path, "-o", out])
    if r.returncode:
        return []
    text = open(out).read()
    os.remove(out)
    meta = dict(re.findall(r"^(!\d+) = (?:distinct )?(!DI(?:Subprogram|File)\(.*)$", text, re.M))
    files = {}
    for k, v in meta.items():
        m = re.match(r'!DIFile\(filename: "([^"]*)", directory: "([^"]*)"', v)
        if m:
            files[k] = os.path.join(m[2], m[1])
    res = set()
    for d in re.findall(r"^define .*!dbg (!\d+)", text, re.M):
        m = re.match(r'!DISubprogram\(name: "([^"]*)".*?file: (!\d+), line: (\d+)', meta.get(d, ""))
        if m and files.get(m[2], "").startswith(os.path.join(REPO, "")):
            res.add(f"{files[m[2]]}:{m[3]}:{m[1]}")
    return sorted(res)


_mod = {}


class Timeout(Exception):
    pass


def expired(*_):
    raise Timeout("time limit of the obligation")


def run_one(job):
    key, text, name, thorough, throws = job
    if key not in _mod:
        _mod.clear()
        _mod[key] = irabs.Module(text)
    m = _mod[key]
    a = irabs.Analyzer(m, name, allow_throw=(throws,) if name.startswith("oblt_") else None if name.startswith("oblc_") else ())
    if thorough:
        a.MAX_PATHS *= 8
        a.MAX_STEPS *= 8
    t = time.time()
    signal.signal(signal.SIGALRM, expired)
    signal.alarm(600 if thorough else 150)
    try:
        try:
            ev = a.run()
        except irabs.TooComplex:
            # what was reached before giving up was reached
            ev = a.events
            if not ev:
                raise
        for e in ev[:40]:
            e.opaque = e.opaque or not irabs.confirmed(e)
        vague = [e for e in ev if e.opaque]
        ev = [e for e in ev if not e.opaque]
        if vague and not ev:
            raise irabs.TooComplex("depends on a value the analysis does not know: " + vague[0].what)
        out = []
        for e in ev[:6]:
            out.append(dict(kind=e.kind, what=e.what, where=m.where(e.dbg), opaque=bool(e.opaque), point=irabs.describe(e)))
        signal.alarm(0)
        return dict(name=name, events=out, nevents=len(ev), paths=a.paths, branches=a.branches, s=round(time.time() - t, 2),
                    fns=m.inlined_functions(name), undecided=None)
    except (irabs.TooComplex, Timeout, RecursionError, KeyError, ValueError, TypeError, AttributeError, IndexError) as x:
        signal.alarm(0)
        return dict(name=name, events=[], nevents=0, paths=a.paths, branches=a.branches, s=round(time.time() - t, 2),
                    fns=m.inlined_functions(name), undecided=f"{type(x).__name__}: {x}")


def check(prop, tier, drivers=None, flags=None, rule=None, min_obligations=1):
    res = Result(prop)
    t0 = time.time()
    drivers = drivers or sorted(glob.glob(os.path.join(VERIF, "obl", prop + "_*.cpp")))
    jobs = []
    fl = flags() if flags is not None else ["-std=gnu++23", "-I" + os.path.join(REPO, "src"), "-Wno-everything"]
    with ThreadPoolExecutor(8) as tp:
        fs = {d: (tp.submit(compile_driver, d, fl), tp.submit(functions_used, d, fl)) for d in drivers}
        compiled = {d: (a.result(), b.result()) for d, (a, b) in fs.items()}
    used, missing = set(), []
    for d in drivers:
        (text, err), fns = compiled[d]
        used.update(fns)
        if text is None and own_flags(d):
            res.notes.append(f"{os.path.relpath(d, VERIF)}: not decided, uses more of the library than the stand-ins have: {err[:300]}")
            missing += re.findall(r"^(?:OBL(?:_THROWS|_CONTAINS)?|NUM)\(", open(d).read(), re.M)
            continue
        if text is None:
            m = re.search(r"^(\S*?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)
            where = f"{m[1]}:{m[2]}" if m else d
            repo = re.search(r"^(%s/\S*?:\d+):\d+:" % re.escape(REPO), err, re.M)
            res.violation("compile:" + os.path.basename(d), repo[1] if repo else where, "interface-present",
                          "the interface the property is stated over does not compile with its documented use: " + (m[3] if m else err[:300]))
            continue
        names = re.findall(r"^define .*?@(obl[tc]?_%s_\w+)\(" % prop, text, re.M)
        th = re.search(r"^// @throws (.*)$", open(d).read(), re.M)
        key = digest(text)
        for n in names:
            jobs.append((key, text, n, tier == "thorough", th[1] if th else "."))
    with ProcessPoolExecutor(8) as ex:
        results = list(ex.map(run_one, jobs))
    discharged, undecided, paths = [], [], 0
    for r in results:
        paths += r["paths"]
        if r["undecided"]:
            undecided.append(dict(obligation=r["name"], reason=r["undecided"]))
        elif not r["events"]:
            discharged.append(r["name"])
        else:
            e = r["events"][0]
            what = {"violation": "required condition does not hold: ", "ub": "", "throw": "exception where none may be thrown: ",
                    "abort": "program is aborted by ", "terminate": ""}[e["kind"]] + e["what"]
            at = [w for w in e["where"] if w.startswith(REPO)] or e["where"]
            rep = [f for f in r["fns"]]
            res.violation("obl:" + r["name"] + ":" + e["kind"] + ":" + e["what"], at[0] if at else r["name"], r["name"],
                          what + (f"; for example at {e['point']}" if e["point"] else "")
                          + (f"; code analysed: {', '.join(rep[:6])}" if rep else ""), events=r["events"], functions=rep)
    if len(jobs) < min_obligations and not missing and not res.violations:
        res.violation("anchor", REPO, "anchor-present", f"only {len(jobs)} obligations found, {min_obligations} expected")
    res.coverage = dict(
        obligations=len(jobs),
        discharged=len(discharged),
        checker_cmd=f"python3 {VERIF}/check.py {prop}",
        trusted_base=["clang 18 front end and -O2 pipeline (with overflow, shift, null and return instrumentation)", "lib/irabs.py", "lib/linarith.py",
                      *["statements in " + os.path.relpath(d, VERIF) for d in drivers]],
        rule=rule or "no forbidden event (violated REQUIRE, undefined behaviour, unexpected throw) is reachable in the disjunctive polyhedra abstraction of the compiled obligation",
        obligation_names=[j[2] for j in jobs],
        abstract_states=paths,
        functions_analysed=sorted(used),
        undecided=undecided,
    )
    res.extra["summary"] = f"{len(discharged)}/{len(jobs) + len(missing)} obligations discharged, {len(undecided) + len(missing)} undecided, {len(used)} functions, {paths} abstract states"
    return res
