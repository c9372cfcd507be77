"""Shared plumbing: locations, shims, source hashing, evidence, outcomes."""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CXX = "clang++-18"
RESOURCE = "/usr/lib/llvm-18/lib/clang/18"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


_tree = {}


def tree_hash(sub="src"):
    """hash of every file below /repo/<sub>"""
    if sub not in _tree:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.join(REPO, sub)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read())
        _tree[sub] = h.hexdigest()[:20]
    return _tree[sub]


def file_hash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:20]


class Result:
    """Outcome of a check."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []  # dict(key, where, rule, what)
        self.notes = []
        self.coverage = {}
        self.level = "proof"
        self.extra = {}

    def violation(self, key, where, rule, what, **more):
        self.violations.append(dict(key=key, where=where, rule=rule, what=what, **more))


def known_findings():
    """property -> {key: text} of the findings that are recorded, not repaired"""
    out = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["findings"]:
            if e["status"] == "known":
                out.setdefault(e["property"], {})[e["key"]] = e["what"]
    return out


def finish(res, t0, tier):
    known = known_findings().get(res.prop, {})
    new = []
    for v in res.violations:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={res.prop} {v['where']}: {known[v['key']]}")
        else:
            new.append(v)
    os.makedirs(EVID, exist_ok=True)
    ev = dict(
        property=res.prop,
        tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1")),
        level=res.level,
        coverage=res.coverage,
        wall_s=round(time.time() - t0, 2),
    )
    ev.update(res.extra)
    if res.notes:
        ev["notes"] = res.notes
    path = os.path.join(EVID, res.prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
    if new:
        rp = os.path.join(EVID, res.prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:40]:
            print(f"{v['where']}: [{v['rule']}] {v['what']}")
        if len(new) > 40:
            print(f"... and {len(new) - 40} more, see {rp}")
        print(f"VIOLATION property={res.prop} replay={rp}")
        return 1
    rp = os.path.join(EVID, res.prop + ".violations.json")
    if os.path.exists(rp):
        os.remove(rp)
    print(f"OK property={res.prop} {res.extra.get('summary', '')}")
    return 0


# ------------------------------------------------------------------- shims
# A few headers are newer than the installed ones or are missing. The shims
# only make the sources of /repo parse; nothing that is analysed comes from
# them.
def ensure_shims():
    d = os.path.join(BUILD, "shim")
    stamp = os.path.join(d, ".stamp")
    key = digest(file_hash(os.path.join(VERIF, "lib", "common.py")), *[
        file_hash(os.path.join(r, f)) for r, _, fs in sorted(os.walk(os.path.join(VERIF, "shim"))) for f in sorted(fs)])
    if os.path.exists(stamp) and open(stamp).read() == key:
        return d
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    sh(["cp", "-r", "/usr/include/fmt", os.path.join(tmp, "fmt")])
    core = os.path.join(tmp, "fmt", "core.h")
    s = open(core).read()
    if "get() const" not in s.split("class basic_format_string")[-1][:3000]:
        s = re.sub(
            r"(FMT_INLINE operator basic_string_view<Char>\(\) const \{ return str_; \})",
            r"\1\n  FMT_INLINE basic_string_view<Char> get() const { return str_; }",
            s,
        )
    open(core, "w").write(s)
    open(os.path.join(tmp, "fmt", "base.h"), "w").write("#pragma once\n#include <fmt/core.h>\n")
    sh(["cp", "-r", os.path.join(VERIF, "shim") + "/.", tmp])
    # pair comparison of the C++23 library compares pairs of different types
    os.makedirs(os.path.join(tmp, "bits"))
    s = open("/usr/include/c++/13/bits/stl_pair.h").read()
    s = re.sub(
        r"template<typename _T1, typename _T2>(\s+(?:inline )?_?_?\w*\s*(?:constexpr )?bool\s+)operator==\(const pair<_T1, _T2>& __x, const pair<_T1, _T2>& __y\)",
        r"template<typename _T1, typename _T2, typename _U1, typename _U2>\1operator==(const pair<_T1, _T2>& __x, const pair<_U1, _U2>& __y)",
        s,
    )
    open(os.path.join(tmp, "bits", "stl_pair.h"), "w").write(s)
    open(os.path.join(tmp, ".stamp"), "w").write(key)
    if os.path.exists(d):
        sh(["rm", "-rf", d])
    try:
        os.rename(tmp, d)
    except OSError:
        sh(["rm", "-rf", tmp])
    return d


def ensure_proto():
    """C++ headers of the protobuf schemas, generated from /repo"""
    files = sorted(
        os.path.relpath(os.path.join(r, f), REPO)
        for r, _, fs in os.walk(os.path.join(REPO, "src"))
        for f in fs
        if f.endswith(".proto")
    )
    key = digest(*[file_hash(os.path.join(REPO, f)) for f in files])
    d = os.path.join(BUILD, "pb-" + key)
    if os.path.exists(os.path.join(d, ".stamp")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    r = sh(["protoc", "-I" + REPO, "--cpp_out=" + tmp, *files], cwd=REPO)
    if r.returncode:
        raise RuntimeError("protoc: " + r.stderr[:2000])
    open(os.path.join(tmp, ".stamp"), "w").write("ok")
    try:
        os.rename(tmp, d)
    except OSError:
        sh(["rm", "-rf", tmp])
    return d


def base_flags(proto=True):
    shim = ensure_shims()
    fl = [
        "-std=gnu++23",
        "-I" + shim,
        "-I" + os.path.join(REPO, "src"),
        "-I" + REPO,
        "-DORG_BUILD_EMCC=0",
        "-DORG_USE_CONAN_INSTALL=0",
        "-DORG_BUILD_WITH_PROTOBUF=%d" % (1 if proto else 0),
        "-DORG_BUILD_WITH_KIWI=0",
        "-DORG_BUILD_WITH_ELK=0",
        "-DORG_BUILD_WITH_ADAPTAGRAMS=0",
        "-DORG_BUILD_WITH_CGRAPH=1",
        "-Wno-everything",
        "-include",
        os.path.join(shim, "prelude.hpp"),
        "-I/usr/share/nanobind/include",
        "-I/usr/include/python3.12",
        "-I" + os.path.join(REPO, "src/py_libs"),
        "-I/usr/lib/jvm/java-17-openjdk-amd64/include",
        "-I/usr/lib/jvm/java-17-openjdk-amd64/include/linux",
    ]
    if proto:
        fl.append("-I" + ensure_proto())
    return fl
