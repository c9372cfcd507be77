"""Type-level witnesses: static_assert statements over the templates and macros
of /repo, decided by the compiler's type checker. Nothing is compiled to code."""
import glob, os, re
from common import *


def check(prop, tier, flags=None, min_witnesses=1, gen=None, note=""):
    res = Result(prop)
    res.level = "other"
    files = sorted(glob.glob(os.path.join(VERIF, "wit", prop + "_*.cpp")))
    fl = flags() if flags is not None else ["-std=gnu++23", "-I" + os.path.join(REPO, "src"), "-Wno-everything"]
    n = bad = 0
    samples = []
    for f in files:
        # -ast-dump would be huge: static_assert declarations are counted after preprocessing instead
        pre = sh([CXX, *fl, "-E", "-P", "-I" + os.path.join(VERIF, "wit"), f])
        own = re.findall(r"\bstatic_assert\s*\(", pre.stdout.split("witness_begin_marker")[-1]) if pre.returncode == 0 else []
        n += len(own)
        r = sh([CXX, *fl, "-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fbracket-depth=2048", "-I" + os.path.join(VERIF, "wit"), f])
        text = open(f).read().split("\n")
        for m in re.finditer(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M):
            bad += 1
            tail = r.stderr[m.end():]
            tail = tail[:(re.search(r"^\S+?:\d+:\d+: (?:fatal )?error: ", tail, re.M) or re.search(r"\Z", tail)).start()]
            src = text[int(m[2]) - 1].strip() if m[1] == f else ""
            at = re.search(r"^(%s/\S*?:\d+):\d+:" % re.escape(os.path.join(REPO, "src")), m[0] + tail, re.M)
            title = re.search(r"static assertion failed due to requirement [^\n]*?: (.*)$", m[3]) or re.search(r"static assertion failed: (.*)$", m[3])
            rule = "type-query" if "static assertion" in m[3] else "interface-present"
            res.violation(f"{os.path.basename(f)}:{src or m[3]}", at[1] if at else f"{m[1]}:{m[2]}", rule, m[3][:300] + (f" [{src[:160]}]" if src else ""))
        samples += [l.strip() for l in text if l.strip().startswith("static_assert(")][:6]
    if n < min_witnesses and not res.violations:
        res.violation("anchor", REPO, "anchor-present", f"only {n} witnesses found, {min_witnesses} expected")
    res.coverage = dict(
        explanation="Each witness is a static_assert over a template, concept or macro of /repo; the compiler's type checker evaluates it. " + note,
        witnesses=n, failed=bad, files=[os.path.relpath(f, VERIF) for f in files], samples=samples,
        rule="every witness type-checks and is true")
    res.extra["summary"] = f"{n} witnesses type-checked"
    return res
