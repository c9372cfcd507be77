"""Facts about the type-checked program: runs tool/astfacts over translation
units of /repo and offers helpers for walking the result."""
import concurrent.futures, json, os, re, subprocess
import common
from common import BUILD, REPO, VERIF, digest, file_hash, sh

RES = "/usr/lib/llvm-18/lib/clang/18"


def tool():
    src = os.path.join(VERIF, "tool", "astfacts.cpp")
    out = os.path.join(BUILD, "astfacts-" + file_hash(src)[:16])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cxxflags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(["clang++-18", *[f for f in cxxflags if not f.startswith("-std")], "-std=c++17", "-O1", "-fno-rtti", src, "-o", tmp, "-Wno-everything",
            "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        raise RuntimeError("astfacts: " + r.stderr[:2000])
    os.rename(tmp, out)
    return out


_tree = None


def tree_hash():
    """hash of everything a translation unit may include from /repo"""
    global _tree
    if _tree is None:
        hs = []
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, "src"))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".tcc", ".h", ".c", ".proto", ".inc")):
                    p = os.path.join(r, f)
                    hs.append(os.path.relpath(p, REPO) + file_hash(p))
        hs.append(file_hash(os.path.join(VERIF, "lib", "common.py")))
        hs.append(file_hash(os.path.join(VERIF, "tool", "astfacts.cpp")))
        for r, ds, fs in sorted(os.walk(os.path.join(VERIF, "shim"))):
            hs += [f + file_hash(os.path.join(r, f)) for f in sorted(fs)]
        _tree = digest(*hs)
    return _tree


def facts1(file, extra=(), proto=True, inst=False, nobody=False, flags=()):
    key = digest(tree_hash(), file, str(extra), str(proto), str(inst), str(nobody), str(flags), REPO)
    d = os.path.join(BUILD, "facts")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(file) + "-" + key[:20] + ".json")
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        path = file if os.path.isabs(file) else os.path.join(REPO, file)
        cmd = [tool(), "--root", os.path.join(REPO, "src"), "--out", tmp]
        if inst:
            cmd.append("--inst")
        if nobody:
            cmd.append("--nobody")
        r = sh([*cmd, *extra, path, "--", *common.base_flags(proto), *flags, "-resource-dir", RES])
        if not os.path.exists(tmp):
            raise RuntimeError(f"{file}: " + (r.stderr or r.stdout)[-1500:])
        os.rename(tmp, out)
    with open(out) as f:
        return json.load(f)


def facts(files, jobs=8, **kw):
    """{file: facts}; several units in parallel"""
    tool()
    common.base_flags(kw.get("proto", True))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return dict(zip(files, ex.map(lambda f: facts1(f, **kw), files)))


# ------------------------------------------------------------------ walking
def kids(n):
    """child nodes; records without a kind (parameters, captures) are looked through"""
    for v in n.values():
        for x in (v,) if isinstance(v, dict) else v if isinstance(v, list) else ():
            if isinstance(x, dict):
                if "k" in x:
                    yield x
                else:
                    yield from kids(x)


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(kids(x))))


def settle(res, units):
    """Nothing is decided about a unit that does not type-check here: it may need
    a library that is not installed."""
    broken = [u for u, f in units.items() if f["errors"]]
    if broken:
        res.notes.append("not decided, does not type-check: " + ", ".join(sorted(broken)))
        res.extra["summary"] = res.extra.get("summary", "") + f", {len(broken)} units undecided"
        for v in res.violations:
            res.notes.append("ignored because of that: " + v["where"] + " " + v["what"])
        res.violations = []
    return res
