"""C28: the formatter writes each part of a document in its org notation.

A string analysis of SemOrgFormat.cpp over the typed program.  The text a function
builds is a term: literals, parts of the node (paths of fields), lines and stacks of
lines, alternatives under a condition, repetitions over a list.  Branches, early
returns, switches, loops, lambdas and helpers are folded into the term.  Two terms
are compared by what they write under the same conditions."""
import itertools
import os
import re

import astq
from astq import walk
from common import Result

UNIT = "src/haxorg/sem/SemOrgFormat.cpp"
CLS = "org::algo::Formatter"
THROUGH = ("Copy", "Cast", "Paren", "Full", "Temp", "DefArg", "Bind")
SAME = {"value", "toBase", "asOrg", "as", "get", "operator->", "operator*", "operator SemId", "data", "c_str", "begin", "value_or", "front", "toString", "str", "asOpt", "to_string", "fmt1", "Str", "String", "items_view", "wrap", "move", "forward", "as_const", "own_view", "gen_view"}
HAS = {"has_value": True, "operator bool": True, "empty": False, "isEmpty": False, "isNil": False}
ANY = ("any",)
DEEP = 6
HELP = {CLS + "::" + x for x in ("add", "add_subnodes", "stackAttached", "toSubnodes")}
HEADS = {CLS + "::toString"} | HELP
BOX = ("line", "stk", "vec", "mix")
LIST = re.compile(r"(const )?(hstd::)?(Vec|SmallVec)<|(const )?std::vector<")
HANDLE = re.compile(r"\b(BlockId|Res)\b")
PURE = {"size", "empty", "begin", "end", "at", "back", "front", "isEmpty", "length", "has", "contains", "starts_with", "ends_with", "find", "clear", "reserve", "cbegin", "cend", "operator[]", "data", "c_str", "get", "toBase"}


def last(q):
    return re.sub(r"<.*", "", (q or "").rsplit("::", 1)[-1]) if "operator" not in (q or "") else q[q.rindex("operator"):]


def given(n):
    return [a for a in n.get("a") or [] if a is not None and a["k"] != "DefArg"]


def strip(n):
    while n is not None and (n["k"] in THROUGH or n["k"] == "Ctor" and len(given(n)) == 1 and not n.get("list")):
        n = n.get("e") if n["k"] in THROUGH else given(n)[0]
    return n


def lit(s):
    return ("lit", s)


def neg(f):
    if f[0] == "not":
        return f[1]
    if f[0] == "const":
        return ("const", not f[1])
    return ("not", f)


def both(op, a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == "const":
            return y if x[1] == (op == "and") else x
    return a if a == b else (op, a, b)


def squeeze(items):
    """items with decided alternatives resolved"""
    out = ()
    for t in items:
        if t[0] == "alt" and t[1][0] == "const":
            out += squeeze(t[2] if t[1][1] else t[3])
        else:
            out += (t,)
    return out


class Text:
    def __init__(self, unit):
        self.fns, self.heads = {}, []
        for d in unit["decls"]:
            if d["d"] == "fn" and "body" in d and d["file"].endswith(("SemOrgFormat.cpp", "SemOrgFormat.hpp")):
                self.fns.setdefault(d["qual"], []).append(d)
                if d["qual"] in HEADS:
                    self.heads.append(d)
        self.lams = {}
        self.alias, self.frozen, self.turn = {}, set(), 1
        self.enum = {}
        self.values = {d["qual"]: [c[0] for c in d.get("c") or []] for d in unit["decls"] if d["d"] == "enum"}
        self.depth = 0
        self.busy = []

    # --------------------------------------------------------------- values
    def path(self, v):
        if v[0] == "fld":
            return v[1]
        if v[0] == "line" and len(v[1]) == 1:
            return self.path(v[1][0])
        return None

    def sub(self, v, name):
        p = self.path(v)
        name = {"first": "#0", "second": "#1"}.get(name, name)
        return ("fld", (p + "." if p else "") + name) if p is not None else ANY

    def cat(self, *vs):
        return ("line", tuple(vs))

    def choose(self, c, a, b):
        if a == b:
            return a
        if c[0] == "const":
            return a if c[1] else b
        if a[0] == "b" and b[0] == "b":
            return ("b", both("or", both("and", c, a[1]), both("and", neg(c), b[1])))
        if {a[0], b[0]} == {"line", "stk"}:
            n = 0
            while n < len(a[1]) and n < len(b[1]) and a[1][n] == b[1][n]:
                n += 1
            rest = (("alt", c, a[1][n:], b[1][n:]),) if a[1][n:] or b[1][n:] else ()
            return ("mix", a[1][:n] + rest, c if a[0] == "line" else neg(c))
        if a[0] == b[0] and a[0] in BOX and a[2:] == b[2:]:
            n = 0
            while n < len(a[1]) and n < len(b[1]) and a[1][n] == b[1][n]:
                n += 1
            return (a[0], a[1][:n] + (("alt", c, a[1][n:], b[1][n:]),)) + a[2:]
        return self.pick(c, a, b)

    def pick(self, c, a, b):
        if {a[0], b[0]} & {"stk", "mix", "pick"}:
            return ("pick", c, a, b)
        return ("line", (("alt", c, (a,), (b,)),))

    def cond(self, n, env):
        n = strip(n)
        k = n["k"]
        if k == "Lit" and n.get("t") == "bool":
            return ("const", n.get("v") in (True, "true"))
        if k == "Un" and n.get("op") == "!":
            return neg(self.cond(n["e"], env))
        if k == "OpCall" and n.get("op") == "!":
            return neg(self.cond(n["a"][0], env))
        if k == "Bin" and n["op"] in ("&&", "||"):
            return both("and" if n["op"] == "&&" else "or", self.cond(n["a"], env), self.cond(n["b"], env))
        if k == "Bin" and n["op"] in ("==", "!=", ">", "<") or k == "OpCall" and n.get("op") in ("==", "!="):
            op = n["op"]
            a, b = (n["a"], n["b"]) if k == "Bin" else n["a"]
            for x, y in ((a, b), (b, a)):
                y = strip(y)
                xs = strip(x)
                if y["k"] == "Ref" and y.get("dk") == "enum":
                    p = self.path(self.ev(x, env))
                    if p is not None:
                        self.enum[p] = y["qual"].rsplit("::", 1)[0]
                        return ("eq", p, last(y["qual"])) if op == "==" else neg(("eq", p, last(y["qual"])))
                if y["k"] == "Lit" and y.get("t") == "bool" and op in ("==", "!="):
                    f = self.cond(x, env)
                    return f if (y.get("v") in (True, "true")) == (op == "==") else neg(f)
                if xs["k"] == "MCall" and last(xs.get("fn")) == "size" and y["k"] == "Lit" and "cv" in y:
                    p = self.path(self.ev(xs["obj"], env))
                    z = int(y["cv"])
                    if p is not None and z == 0:
                        return neg(("has", p)) if op == "==" else ("has", p)
                    if p is not None and op in ("==", "!="):
                        return ("eq", p + ".size()", str(z)) if op == "==" else neg(("eq", p + ".size()", str(z)))
            return ("unk", f"{self.word(a, env)} {op} {self.word(b, env)}")
        if k == "MCall":
            nm = last(n.get("fn"))
            v = self.ev(n["obj"], env)
            p = self.path(v)
            if nm in HAS:
                if v[0] == "vec":
                    f = self.some(v[1])
                    if f is not None:
                        return f if HAS[nm] else neg(f)
                if p is not None:
                    return ("has", p) if HAS[nm] else neg(("has", p))
            if nm in ("is_first", "is_last") and not given(n):
                return ("const", (nm == "is_first") == (self.turn == 1))
            if nm == "has" and len(given(n)) == 1 and p is not None:
                return ("has", p)
            if p is not None and re.match(r"is[A-Z]", nm) and not given(n):
                self.enum.setdefault(p, (n.get("cls") or "") + "::Kind")
                return ("eq", p, nm[2:])
            if p is None and nm == "operator bool":
                return ("unk", "value")
            return ("unk", f"{nm} {p} " + " ".join(self.word(a, env) for a in given(n)))
        v = self.ev(n, env)
        if v[0] == "b":
            return v[1]
        if self.path(v) is not None:
            return ("has", self.path(v))
        return ("unk", k)

    def word(self, n, env):
        v = self.ev(n, env)
        return v[1] if v[0] in ("fld", "num", "lit") else v[0]

    def some(self, items):
        """when a list of items is not empty"""
        f = ("const", False)
        for i in items:
            if i[0] == "alt":
                a, b = self.some(i[2]), self.some(i[3])
                if a is None or b is None:
                    return None
                g = both("or", both("and", i[1], a), both("and", neg(i[1]), b))
            elif i[0] == "rep":
                g = ("has", i[1])
            elif i[0] == "sw":
                g = ("const", False)
                for ks, its in i[2]:
                    h = self.some(its)
                    if h is None:
                        return None
                    for k in ks:
                        g = both("or", g, both("and", ("eq", i[1], k), h))
            else:
                g = ("const", True)
            f = both("or", f, g)
        return f

    # ---------------------------------------------------------- expressions
    def ev(self, n, env):
        if n is None:
            return ANY
        k = n["k"]
        if k in THROUGH:
            return self.ev(n.get("e"), env)
        if k == "Str":
            return lit(n["v"])
        if k == "Lit":
            if n.get("t") == "bool":
                return ("b", ("const", n.get("v") in (True, "true")))
            if n.get("chr"):
                return lit(chr(int(n["cv"])))
            return ("num", str(n.get("cv", n.get("v"))))
        if k == "Ref":
            i = self.var(n)
            if i in env:
                return env[i]
            if n.get("dk") == "enum":
                return ("num", last(n["qual"]))
            if n["name"] in ("__PRETTY_FUNCTION__", "__func__"):
                return lit("?")
            fs = self.fns.get(n.get("qual"))
            return ("fn", n["qual"]) if fs else ANY
        if k == "This":
            return ("this",)
        if k == "Lambda":
            self.lams[id(n)] = n
            return ("lam", id(n))
        if k == "Member":
            b = self.ev(n["b"], env) if n.get("b") else ANY
            if b[0] == "this":
                return ("this",)
            return self.sub(b, n["name"])
        if k == "Cond":
            c = self.cond(n["c"], env)
            return self.choose(c, self.ev(n["a"], env), self.ev(n["b"], env))
        if k == "InitList":
            items = tuple(self.ev(a, env) for a in n.get("a") or [])
            return ("vec", items)
        if k == "Ctor":
            a = given(n)
            t = n.get("cls") or n.get("t") or ""
            if not a:
                return ("vec", ()) if LIST.match(t) else ("line", ())
            if n.get("list") or LIST.match(t):
                v = self.ev(a[0], env)
                return v if v[0] in ("vec", "fld", "line") else ("vec", (v,))
            if len(a) == 2 and "basic_string" in t and self.ev(a[1], env)[0] == "lit":
                return ("line", (("rep", self.path(self.ev(a[0], env)) or "?", (self.ev(a[1], env),)),))
            return self.ev(a[0], env)
        if k == "Bin" and n.get("op") in ("=", "+="):
            return self.assign(n["a"], n["op"], self.ev(n["b"], env), env)
        if k in ("Bin", "Un") and n.get("op") in ("&&", "||", "!", "==", "!=", "<", ">"):
            return ("b", self.cond(n, env))
        if k == "Un":
            return self.ev(n["e"], env)
        if k == "OpCall":
            op, a = n["op"], n["a"]
            if op in ("=", "+="):
                return self.assign(a[0], op, self.ev(a[1], env), env)
            if op == "+":
                return self.cat(self.ev(a[0], env), self.ev(a[1], env))
            if op in ("*", "->"):
                return self.ev(a[0], env)
            if op == "()":
                f = self.ev(a[0], env)
                if f[0] == "lam":
                    xs = [x for x in a[1:] if x["k"] != "DefArg"]
                    return self.apply(f, [self.ev(x, env) for x in xs], env, xs)
                return self.ranged(n, a[0], [x for x in a[1:] if x["k"] != "DefArg"], env)
            if op == "|":
                return self.pipe(a[0], a[1], env)
            if op == "[]":
                i = strip(a[1])
                return self.sub(self.ev(a[0], env), "[" + str(i.get("cv", "")) + "]") if self.path(self.ev(a[0], env)) else ANY
            return ("b", self.cond(n, env)) if op in ("==", "!=", "!") else ANY
        if k in ("Call", "MCall"):
            return self.call(n, env)
        return ANY

    def elem(self, v):
        p = self.path(v)
        return ("fld", p + "[]") if p is not None else ANY

    def ranged(self, n, f, args, env):
        nm = (strip(f) or {}).get("name", "")
        if nm == "transform" and len(args) == 2:
            return self.mapped(self.ev(args[0], env), self.ev(args[1], env), env)
        return ANY

    def mapped(self, v, f, env):
        p = self.path(v)
        if p is None and v[0] == "join":
            m = self.mapped(v[2], f, env)
            return ("join", v[1], m) if m != ANY else ANY
        if p is None or f[0] not in ("lam", "fn"):
            return ANY
        return ("vec", (("rep", p, (self.apply(f, [self.elem(v)], env),)),))

    def pipe(self, l, r, env):
        v = self.ev(l, env)
        r = strip(r)
        if r["k"] == "OpCall" and r.get("op") == "()":
            nm = strip(r["a"][0]).get("name", "")
            args = [x for x in r["a"][1:] if x["k"] != "DefArg"]
            if nm == "transform" and args:
                return self.mapped(v, self.ev(args[0], env), env)
            if nm == "intersperse" and args:
                return ("join", self.ev(args[0], env), v)
            if nm in ("drop", "split_when", "take", "filter", "reverse") and self.path(v) is not None:
                i = strip(args[0]) if args else {}
                return ("fld", self.path(v) + "|" + nm + str(i.get("cv", "")))
            return v
        nm = r.get("name") or last(r.get("fn")) or ""
        return v if nm in ("join", "to", "to_vector") or r["k"] in ("Call", "Ref", "MCall") else ANY

    def apply(self, f, vals, env, exprs=()):
        outer = env
        if self.depth > DEEP:
            return ANY
        if f[0] == "lam":
            params, body = self.lams[f[1]].get("params") or [], self.lams[f[1]]["body"]
            key = f[1]
        else:
            ds = [d for d in self.fns.get(f[1], []) if len(d["params"]) >= len(vals)]
            if len(ds) != 1:
                return ANY
            params, body, env, key = ds[0]["params"], ds[0]["body"], {}, f[1]
        if key in self.busy:
            p = [self.path(v) for v in vals if self.path(v) is not None]
            return ("fld", p[0]) if p else ANY
        for p, v in zip(params, vals):
            env[p["id"]] = v
        self.depth += 1
        self.busy.append(key)
        try:
            r = self.run([body], env)
        finally:
            self.depth -= 1
            self.busy.pop()
        for p, v, x in zip(params, vals, exprs):
            t = p.get("ct") or p.get("t") or ""
            i = self.var(x)
            if i is not None and env.get(p["id"], v) != v and (HANDLE.search(t) or t.endswith("&")):
                outer[i] = env[p["id"]]
        return ("line", ()) if r is None else r

    def call(self, n, env):
        fn, args = n.get("fn") or "", given(n)
        nm = last(fn) if fn else (n.get("ce") or {}).get("name", "")
        if n["k"] == "MCall":
            obj = n.get("obj")
            if fn.startswith(CLS + "::"):
                if nm in ("str",):
                    v = self.ev(args[0], env)
                    return ("txt", (v,)) if v[0] != "txt" else v
                if nm == "toString":
                    return ("txt", (self.ev(args[0], env),))
                if nm == "add":
                    self.freeze(args[1])
                    return self.append(args[0], self.ev(args[1], env), env)
                if nm == "add_subnodes":
                    return self.append(args[0], ("spl", ("vec", (("rep", "subnodes", (("txt", (("fld", "subnodes[]"),)),)),))), env)
                if nm == "toSubnodes":
                    p = self.path(self.ev(args[0], env)) or ""
                    q = (p + "." if p else "") + "subnodes"
                    return ("vec", (("rep", q, (("txt", (("fld", q + "[]"),)),)),))
                if nm == "stackAttached":
                    p = self.path(self.ev(args[1], env)) or ""
                    q = (p + "." if p else "") + "attached"
                    return ("stk", (("rep", q, (("txt", (("fld", q + "[]"),)),)), self.ev(args[0], env)))
            if fn.startswith(CLS + "::") and fn in self.fns:
                return self.apply(("fn", fn), [self.ev(a, env) for a in args], env, args)
            ob = self.ev(obj, env)
            if "BlockStore" in fn:
                if nm in ("line", "stack"):
                    v = self.ev(args[0], env) if args else ("vec", ())
                    return ("line" if nm == "line" else "stk", v[1] if v[0] == "vec" else (("spl", v),))
                if nm == "add_at":
                    self.freeze(args[1])
                    return self.append(args[0], self.ev(args[1], env), env)
                if nm == "join":
                    return ("join", self.ev(args[1], env), self.ev(args[0], env))
                if nm == "indent":
                    return ("line", (lit(" " * int(strip(args[0]).get("cv", 0))), self.ev(args[1], env)))
                if nm == "text":
                    return ("txt", (self.ev(args[0], env),))
                return ANY
            if nm in ("push_back", "emplace_back"):
                return self.append(obj, self.ev(args[0], env), env)
            if nm in HAS or nm in ("has", "is_first", "is_last", "contains") or re.match(r"is[A-Z]", nm) and self.path(ob) is not None:
                return ("b", self.cond(n, env))
            if nm in SAME:
                if nm == "value_or" and args:
                    p = self.path(ob)
                    return self.choose(("has", p), ob, self.ev(args[0], env)) if p is not None else ob
                return ob
            i = self.var(obj)
            if i is not None and ob[0] in BOX + ("txt",) and nm not in PURE:
                if nm == "append" and len(args) == 1 and ob[0] == "vec":
                    return self.append(obj, ("spl", self.ev(args[0], env)), env)
                if nm == "append" and len(args) == 1:
                    return self.append(obj, self.ev(args[0], env), env)
                env[i] = ANY
            p = self.path(ob)
            if p is None:
                return ANY
            if nm in ("getKind", "getLogKind"):
                return ob
            if nm in ("at", "get") and args:
                i = strip(args[0])
                return ("fld", (p or "subnodes") + "[" + (str(i["cv"]) if "cv" in i else "") + "]") if "SemId" in fn or "Org::at" in fn and not p else ("fld", p + "[" + (str(i["cv"]) if "cv" in i else "") + "]")
            if re.match(r"get[A-Z]", nm) and nm != "getAll":
                return self.sub(ob, nm[3:])
            return self.sub(ob, nm + "()")
        if nm == "Splice" or fn.endswith("::Splice"):
            return ("vec", tuple(("spl", self.ev(a, env)) for a in args))
        if nm in ("fmt", "format") and args:
            f = self.ev(args[0], env)
            if f[0] == "lit":
                out, vals = [], [self.ev(a, env) for a in args[1:]]
                parts = re.split(r"(\{\{|\}\}|\{[^{}]*\})", f[1])
                i = 0
                for p in parts:
                    if p in ("{{", "}}"):
                        out.append(lit(p[0]))
                    elif p.startswith("{"):
                        out.append(vals[i] if i < len(vals) else ANY)
                        i += 1
                    elif p:
                        out.append(lit(p))
                return ("line", tuple(out))
            return ANY
        if nm.startswith('operator""'):
            return self.ev(args[0], env)
        if nm == "join" and len(args) == 2:
            return ("join", self.ev(args[0], env), self.ev(args[1], env))
        if nm == "escape_for_write" and args:
            p = self.path(self.ev(args[0], env))
            return ("fld", p + ".quoted") if p is not None else ANY
        if nm in ("enumerator", "sorted", "reverse"):
            return self.ev(args[0], env)
        if nm == "visit" and len(args) == 2:
            lams = [x for x in walk(args[0]) if x["k"] == "Lambda"]
            v = self.ev(args[1], env)
            p = self.path(v)
            if p is None or not lams:
                return ANY
            cases = []
            for l in lams:
                t = re.sub(r"\bconst\b|[&\s]", "", l["params"][0].get("ct") or l["params"][0].get("t"))
                self.lams[id(l)] = l
                c = last(t)
                cases.append(((c,), (self.apply(("lam", id(l)), [("fld", p + "." + c)], dict(env)),)))
            return ("line", (("sw", p, tuple(sorted(cases)), ()),))
        if fn in self.fns:
            return self.apply(("fn", fn), [self.ev(a, env) for a in args], env, args)
        if nm in SAME and args:
            return self.ev(args[0], env)
        for a in args:
            i = self.var(a)
            if i is not None and env.get(i, ANY)[0] in BOX and a["k"] == "Ref" and nm not in PURE:
                env[i] = ANY
        ps = [self.path(self.ev(a, env)) for a in args]
        if len(ps) == 1 and ps[0] is not None:
            return ("fld", ps[0] + "." + nm + "()")
        return ANY

    # ------------------------------------------------------------ variables
    def var(self, n):
        n = strip(n)
        i = n.get("id") if n is not None and n["k"] == "Ref" else None
        while i in self.alias:
            i = self.alias[i]
        return i

    def put(self, old, v):
        if old[0] == "txt":
            old = ("line", (old,))
        if old[0] == "pick":
            return ("pick", old[1], self.put(old[2], v), self.put(old[3], v))
        return (old[0], old[1] + (v,)) + old[2:] if old[0] in BOX else ("line", (old, v)) if old != ANY else ANY

    def freeze(self, n):
        """a block added to another one no longer changes"""
        i = self.var(n)
        if i is not None:
            self.frozen.add(i)

    def append(self, target, v, env):
        i = self.var(target)
        if i is not None:
            old = env.get(i, ANY)
            if i in self.frozen and old[0] != "vec":
                old = ANY
            if old[0] == "txt":
                old = ("line", (old,))
            env[i] = self.put(old, v)
        return ("void",)

    def assign(self, target, op, v, env):
        i = self.var(target)
        if i is not None:
            if op == "=":
                self.frozen.discard(i)
            env[i] = v if op == "=" else self.cat(*(env[i][1] if env.get(i, ANY)[0] == "line" else (env.get(i, ANY),)), v)
            return env[i]
        t = strip(target)
        if t["k"] == "Member":
            return ("void",)
        return ANY

    # ----------------------------------------------------------- statements
    def leaves(self, n):
        """may end the function"""
        if not isinstance(n, dict):
            return False
        if n["k"] in ("Return", "Throw", "Continue"):
            return True
        if n["k"] == "Lambda":
            return False
        return any(self.leaves(x) for x in astq.kids(n) if isinstance(x, dict))

    def merge(self, env, c, e1, e2):
        for k in set(e1) | set(e2):
            a, b = e1.get(k), e2.get(k)
            env[k] = a if b is None else b if a is None else self.choose(c, a, b)

    def cases(self, n):
        """[(labels, statements)] of a switch; None labels for default"""
        out, cur, labels, open_ = [], [], [], False
        body = n["body"]
        for s in (body.get("s") or []) if body["k"] == "Block" else [body]:
            while s is not None and s["k"] in ("Case", "Default"):
                if cur:
                    out.append((labels, cur))
                    labels, cur = [], []
                v = strip(s.get("v")) if s["k"] == "Case" else None
                labels.append(None if s["k"] == "Default" else last(v.get("qual", "")) if v["k"] == "Ref" else str(v.get("cv")))
                s = s.get("s")
            if s is None:
                continue
            if s["k"] == "Break":
                out.append((labels, cur))
                labels, cur = [], []
                continue
            if labels or cur:
                if s["k"] == "Block" and s.get("s") and s["s"][-1]["k"] == "Break":
                    cur = cur + s["s"][:-1]
                    out.append((labels, cur))
                    labels, cur = [], []
                else:
                    cur = cur + [s]
                    if s["k"] in ("Return",) or s["k"] == "Block" and s.get("s") and s["s"][-1]["k"] in ("Return", "Throw"):
                        out.append((labels, cur))
                        labels, cur = [], []
        if labels or cur:
            out.append((labels, cur))
        return out

    def run(self, stmts, env):
        """the value returned, or None when control falls off the end"""
        stmts = list(stmts)
        while stmts:
            s = stmts.pop(0)
            if s is None:
                continue
            k = s["k"]
            if k == "Block":
                stmts = (s.get("s") or []) + stmts
            elif k == "Return":
                return self.ev(s["e"], env) if s.get("e") else None
            elif k in ("Throw",) or k == "Full" and s.get("e", {}).get("k") == "Throw":
                return ("gone",)
            elif k == "Continue":
                return None
            elif k == "Decl":
                for v in s.get("vars") or []:
                    if "id" in v:
                        self.frozen.discard(v["id"])
                        self.alias.pop(v["id"], None)
                        t = v.get("ct") or v.get("t") or ""
                        if v.get("init") is None:
                            env[v["id"]] = ("vec", ()) if LIST.match(t) else ("line", ()) if re.search(r"Str\b|string", t) else ANY
                        else:
                            env[v["id"]] = self.ev(v["init"], env)
                            i, x = self.var(v["init"]), strip(v["init"])
                            if i in env and i != v["id"] and env[i][0] in BOX + ("txt",) and (HANDLE.search(t) and not LIST.match(t) or t.endswith("&")):
                                self.alias[v["id"]] = i
                        for i, b in enumerate(v.get("bind") or []):
                            env[b["id"]] = self.sub(env[v["id"]], f"#{i}")
            elif k == "If":
                if s.get("init"):
                    self.run([s["init"]], env)
                if s.get("cvar"):
                    cv = s["cvar"]
                    self.run([cv if cv.get("k") else dict(k="Decl", vars=[cv])], env)
                c = self.cond(s["c"], env)
                e1, e2 = dict(env), dict(env)
                if self.leaves(s):
                    r1 = self.run([s["then"]] + stmts, e1)
                    r2 = self.run(([s["else"]] if s.get("else") else []) + stmts, e2)
                    self.merge(env, c, e1, e2)
                    return self.result(c, r1, r2)
                self.run([s["then"]], e1)
                if s.get("else"):
                    self.run([s["else"]], e2)
                self.merge(env, c, e1, e2)
            elif k == "Switch":
                p = self.path(self.ev(s["c"], env))
                cs = self.cases(s)
                for x in astq.walk(s["body"]):
                    if x["k"] == "Case" and p is not None:
                        v = strip(x.get("v"))
                        if v is not None and v["k"] == "Ref":
                            self.enum.setdefault(p, v["qual"].rsplit("::", 1)[0])
                        break
                leave = self.leaves(s)
                outs, rets = [], []
                for labels, body in cs:
                    e = dict(env)
                    r = self.run(list(body) + (stmts if leave else []), e)
                    outs.append((labels, e))
                    rets.append((labels, r))
                if not any(None in l for l, _ in cs):
                    e = dict(env)
                    r = self.run(list(stmts), e) if leave else None
                    outs.append(([None], e))
                    rets.append(([None], r))
                key = p if p is not None else "?switch"
                # fold from the default on
                outs.sort(key=lambda x: None not in x[0])
                rets.sort(key=lambda x: None not in x[0])
                acc, racc = dict(outs[0][1]), rets[0][1]
                for (labels, e), (_, r) in zip(outs[1:], rets[1:]):
                    c = ("const", False)
                    for l in labels:
                        c = both("or", c, ("eq", key, l))
                    nxt = {}
                    self.merge(nxt, c, e, acc)
                    acc = nxt
                    racc = self.result(c, r, racc) if leave else None
                env.update(acc)
                if leave:
                    return racc
            elif k == "RangeFor":
                v = self.ev(s["range"], env)
                p = self.path(v)
                e = dict(env)
                bound = ("fld", (p if p is not None else "?") + "[]") if p != "" else ("fld", "subnodes[]")
                if p is None and v[0] == "vec":
                    bound, its = ANY, squeeze(v[1])
                    if len(its) == 1 and its[0][0] == "rep" and len(its[0][2]) == 1:
                        p, bound = its[0][1], its[0][2][0]
                var = s["var"]
                e[var.get("id")] = bound
                for i, b in enumerate(var.get("bind") or []):
                    e[b["id"]] = self.sub(bound, f"#{i}")
                p = "subnodes" if p == "" else p
                self.repeat(env, s["body"], e, p if p is not None else "?")
            elif k in ("While", "Do", "For"):
                e = dict(env)
                if s.get("init"):
                    self.run([s["init"]], e)
                c = "?"
                if s.get("c"):
                    for x in walk(s["c"]):
                        if x["k"] == "MCall" and last(x.get("fn")) == "size":
                            c = self.path(self.ev(x["obj"], env)) or "?"
                self.repeat(env, s["body"], e, c)
            else:
                self.ev(s, env)
        return None

    def repeat(self, env, body, e, p):
        """a loop: what its first turn adds, and what later turns put between"""
        turn = self.turn
        self.turn = 1
        self.run([body], e)
        one = dict(e)
        self.turn = 2
        self.run([body], e)
        self.turn = turn
        for k, old in list(env.items()):
            a, b = one.get(k, old), e.get(k, old)
            if a == old and b == old:
                continue
            if a[0] == b[0] == old[0] and old[0] in BOX and old[2:] == a[2:] == b[2:] and a[1][:len(old[1])] == old[1] and b[1][:len(a[1])] == a[1]:
                x, y = squeeze(a[1][len(old[1]):]), squeeze(b[1][len(a[1]):])
                if x == y:
                    env[k] = (old[0], old[1] + (("rep", p, x),)) + old[2:]
                    continue
                env[k] = (old[0], old[1] + (("rep", p, x, y),)) + old[2:]
            else:
                env[k] = ("b", ("unk", "loop")) if a[0] == "b" else ANY

    def result(self, c, a, b):
        if a == ("gone",):
            return b
        if b == ("gone",):
            return a
        if a is None or b is None:
            return a if b is None else b
        return a if a == b else self.pick(c, a, b)

    def helper(self, d):
        """what a helper returns, or leaves in the block it is given"""
        self.busy, self.depth = [], 0
        self.alias, self.frozen, self.turn, self.enum = {}, set(), 1, {}
        env, box = {}, None
        for i, p in enumerate(d["params"]):
            t = p.get("ct") or p.get("t") or ""
            if HANDLE.search(t) and box is None and "stackAttached" not in d["qual"]:
                box, env[p["id"]] = p["id"], ("line", ())
            elif HANDLE.search(t):
                env[p["id"]] = ("fld", f"arg{i}")
            else:
                env[p["id"]] = ("fld", "ctx" if "Context" in t else "")
        r = self.run([d["body"]], env)
        return env[box] if r is None and box is not None else r

    def term(self, d):
        if d["qual"] in HELP:
            return self.helper(d)
        env = {d["params"][0]["id"]: ("fld", "")}
        if len(d["params"]) > 1:
            env[d["params"][1]["id"]] = ("fld", "ctx")
        self.busy, self.depth = [], 0
        self.alias, self.frozen, self.turn, self.enum = {}, set(), 1, {}
        return self.run([d["body"]], env)


def subject(d):
    if d["qual"] in HELP:
        return "the helper " + last(d["qual"])
    t = re.sub(r"\bconst\b|[&\s]", "", d["params"][0].get("ct") or d["params"][0]["t"])
    m = re.match(r"(?:org::sem::)?SemId<(.*)>$", t)
    return re.sub(r"^(org::)?(sem::)?", "", m.group(1) if m else t)


# ------------------------------------------------------------------ comparison
def atoms(t, out, uns):
    """conditions a term depends on: path -> set of values"""
    if isinstance(t, tuple):
        if t and t[0] == "has":
            out.setdefault(("has", t[1]), set())
        elif t and t[0] == "eq":
            out.setdefault(("eq", t[1]), set()).add(t[2])
        elif t and t[0] == "unk":
            out.setdefault(("has", "?" + t[1]), set())
        elif t and t[0] == "any" and len(t) == 1:
            uns.append("value")
        elif t and t[0] == "sw":
            out.setdefault(("eq", t[1]), set()).update(k for ks, _ in t[2] for k in ks)
        elif t and t[0] == "rep":
            out.setdefault(("has", t[1]), set())
        for x in t:
            atoms(x, out, uns)


def holds(f, w):
    o = f[0]
    if o == "const":
        return f[1]
    if o == "not":
        return not holds(f[1], w)
    if o == "and":
        return holds(f[1], w) and holds(f[2], w)
    if o == "or":
        return holds(f[1], w) or holds(f[2], w)
    if o == "has":
        return w.get(("has", f[1]), False)
    if o == "eq":
        return w.get(("eq", f[1])) == f[2]
    if o == "unk":
        return w.get(("has", "?" + f[1]), False)
    return False


def blocks(items, w):
    out = []
    for t in items:
        o = t[0]
        if o == "alt":
            out += blocks(t[2] if holds(t[1], w) else t[3], w)
        elif o == "sw":
            out += blocks(next((its for ks, its in t[2] if w.get(("eq", t[1])) in ks), t[3]), w)
        elif o == "rep":
            if w.get(("has", t[1]), False):
                out += blocks(t[2], w) + blocks(t[-1], w)
        elif o == "spl" and t[1][0] == "vec":
            out += blocks(t[1][1], w)
        elif o == "spl":
            out += blocks((t[1],), w)
        else:
            x = text(t, w)
            if x is not None:
                out.append(x)
    return out


def text(t, w):
    """tokens written, None for nothing at all"""
    o = t[0]
    if o == "lit":
        return [("lit", t[1])] if t[1] else []
    if o in ("fld", "num", "any"):
        return [t]
    if o == "txt":
        return text(t[1][0], w) or []
    if o == "b":
        return [("b",)]
    if o == "pick":
        return text(t[2] if holds(t[1], w) else t[3], w)
    if o == "mix":
        return text(("line" if holds(t[2], w) else "stk", t[1]), w)
    if o == "line" or o == "vec":
        bs = blocks(t[1], w)
        return [x for b in bs for x in b] if bs else None
    if o == "stk":
        bs = blocks(t[1], w)
        out = []
        for i, b in enumerate(bs):
            out += ([("lit", "\n")] if i else []) + b
        return out if bs else None
    if o == "join":
        v = t[2]
        bs = blocks(v[1], w) if v[0] == "vec" else [text(v, w) or []]
        sep = text(t[1], w) or []
        if v[0] != "vec":
            return [("sep", tuple(sep))] + [x for b in bs for x in b] if bs else []
        out = []
        for i, b in enumerate(bs):
            out += (sep if i else []) + b
        return out
    return []


def written(t, w, gone=()):
    out = []
    for x in text(t, w) or []:
        if x[0] == "fld" and x[1] in gone:
            continue
        if x[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def below(a, b):
    return b != a and b.startswith(a) and (not a or b[len(a)] in ".[|")


def settled(w, k, v, dom):
    """a change of one condition together with the ones it implies"""
    w = dict(w)
    w[k] = v
    if k[0] == "has" and not v:
        for l in dom:
            if l[0] == "has" and below(k[1], l[1]):
                w[l] = False
            if l[0] == "eq" and l[1] == k[1] + ".size()":
                w[l] = None
    p = k[1] if k[0] == "has" else k[1][:-7] if k[1].endswith(".size()") else None
    if p is not None and v:
        for l in dom:
            if l[0] == "has" and (below(l[1], p) or k[0] == "eq" and l[1] == p):
                w[l] = True
    return w


def worlds(dom):
    """assignments: nothing there, everything there, and up to two deviations"""
    keys = sorted(dom)
    for base in (False, True):
        w = {("has", ""): True}
        for k in keys:
            if k[0] == "has":
                w[k] = base or k[1] == ""
            elif k[1].endswith(".size()"):
                w[k] = sorted(dom[k])[0] if base and dom[k] else None
            else:
                w[k] = sorted(dom[k])[-1 if base else 0] if dom[k] else None
        moves = []
        for k in keys:
            if k == ("has", ""):
                continue
            moves += [(k, not base)] if k[0] == "has" else [(k, v) for v in sorted(dom[k])]
        yield dict(w)
        for k, v in moves:
            yield settled(w, k, v, dom)
        if len(moves) <= 120:
            for (k, v), (l, u) in itertools.combinations(moves, 2):
                if k != l:
                    yield settled(settled(w, k, v, dom), l, u, dom)


def show(ts):
    return "".join({"lit": lambda t: t[1].replace("\n", "\\n"), "fld": lambda t: "{" + t[1] + "}", "sep": lambda t: "", "any": lambda t: "{?}", "num": lambda t: t[1], "b": lambda t: "{?}"}[t[0]](t) for t in ts)


ORACLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "format_oracle.txt")
SKIP = {"Org", "CmdColumns"}


def spell(t, ind=0):
    """readable form of a term, one item a line where it is long"""
    s = repr(t)
    if len(s) + ind <= 110 or not isinstance(t, tuple):
        return s
    pad = " " * (ind + 1)
    return "(" + (",\n" + pad).join(spell(x, ind + 1) for x in t) + ("," if len(t) == 1 else "") + ")"


def unfinished(t):
    if t is None:
        return True
    if t[0] == "txt" and t[1][0][0] == "lit":
        return "algo::Formatter" in t[1][0][1] or t[1][0][1] in ("TODO", "?")
    if t[0] == "line" and len(t[1]) == 1 and t[1][0][0] == "alt":
        return any(unfinished(x) for side in t[1][0][2:4] for x in side)
    return False


def leaves_of(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "fld":
            out.add(t[1])
        for x in t:
            leaves_of(x, out)


def oracle():
    import ast
    out, name, buf = {}, None, []
    for l in open(ORACLE).read().split("\n") + ["= "]:
        if l.startswith("= "):
            if name:
                out[name] = ast.literal_eval("\n".join(buf))
            name, buf = l[2:].strip(), []
        elif not l.startswith("#") or name:
            buf.append(l)
    return out


def may_equal(a, b):
    """two texts with parts that are not known"""
    if ANY not in a and ANY not in b:
        return False
    ends = []
    for x in (a, b):
        x = list(x)
        i = x.index(ANY) if ANY in x else len(x)
        j = i if i == len(x) else len(x) - x[::-1].index(ANY)
        ends.append((show(x[:i]), show(x[j:]) if i < len(x) else show(x)))
    (p, q), (r, s) = ends
    return (p.startswith(r) or r.startswith(p)) and (q.endswith(s) or s.endswith(q))


def differ(want, got, values=lambda p: ()):
    """(reason not decided, None) or (None, first difference or None, how many texts)"""
    dw, uw, dg, ug = {}, [], {}, []
    atoms(want, dw, uw)
    atoms(got, dg, ug)
    if len(ug) > len(uw):
        return "a value the analysis does not follow", None, 0
    odd = sorted(k[1] for k in dg if k not in dw and (k[1].startswith("?") or k[1].endswith("()")))
    if odd:
        return f"a condition the analysis does not know: {odd[0].lstrip('?')}", None, 0
    lw, lg = set(), set()
    leaves_of(want, lw)
    leaves_of(got, lg)
    odd = sorted(p for p in lg - lw if "(" in p or "|" in p or "?" in p)
    if odd:
        return f"a text the analysis does not know: {odd[0]}", None, 0
    if {p for p in lg if "#" in p} != {p for p in lw if "#" in p} and lg != lw:
        if any("#" in p for p in lg ^ lw):
            return "parts taken by position on one side only", None, 0
    dom = {}
    for k in set(dw) | set(dg):
        dom[k] = set(dw.get(k, ())) | set(dg.get(k, ()))
        if k[0] == "eq" and not k[1].endswith(".size()"):
            dom[k] |= set(values(k[1])) or ({"(other)"} if len(dom[k]) == 1 else set())
    only = {k[1] for k in set(dw) ^ set(dg) if k[0] == "has"}
    n = set()
    for w in worlds(dom):
        gone = {p for p in only if not w.get(("has", p), False)}
        a, b = written(want, w, gone), written(got, w, gone)
        n.add(tuple(a))
        if a != b and not may_equal(a, b):
            return None, (a, b, w), len(n)
    return None, None, len(n)


def when(w):
    ps = [k[1].lstrip("?") for k, v in sorted(w.items()) if k[0] == "has" and v and k[1]] + [f"{k[1] or 'kind'} = {v}" for k, v in sorted(w.items()) if k[0] == "eq" and v]
    return ", ".join(ps[:6]) + (" ..." if len(ps) > 6 else "") or "nothing optional present"


def around(a, b):
    """the two texts near the first difference"""
    x, y = show(a), show(b)
    if x == y:
        x, y = repr(a), repr(b)
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    s = max(0, i - 25)
    return x[s:i + 45], y[s:i + 45]


def check(tier):
    res = Result("C28")
    res.level = "other"
    units = astq.facts([UNIT])
    T = Text(units[UNIT])
    exp = oracle()
    seen, dec, texts = set(), 0, 0
    und = []
    for d in T.heads:
        name = subject(d)
        if name not in exp or name in seen:
            continue
        seen.add(name)
        t = T.term(d)
        if t is None or t == ("gone",):
            und.append(f"{name}: no text returned")
            continue
        why, bad, n = differ(exp[name], t, lambda p: T.values.get(T.enum.get(p), ()))
        texts += n
        if why:
            und.append(f"{name}: {why}")
            continue
        dec += 1
        if bad:
            want, got = around(bad[0], bad[1])
            res.violation(f"text {name}", f"{d['file']}:{d['l']}", "text-of-node",
                          f"{name if 'helper' in name else 'toString of ' + name} writes ...{got}... where the notation is ...{want}... (with {when(bad[2])})")
    for name in exp:
        if name not in seen:
            und.append(f"{name}: no overload found")
    res.coverage = dict(overloads=len(seen), decided=dec, texts=texts, undecided=und, explanation=(
        "Every toString overload of the formatter is folded into a term for the text it builds (literals, fields, lines, stacks, "
        "alternatives, repetitions) and the term is compared with the written notation of the node under every combination of up to two "
        "deviations from nothing present and from everything present."))
    res.extra["summary"] = f"{dec} of {len(exp)} overloads decided, {texts} different texts compared" + (f", {len(und)} undecided" if und else "")
    res.extra["undecided"] = und
    return astq.settle(res, units)


def main(argv):
    T = Text(astq.facts([UNIT])[UNIT])
    done = set()
    for d in T.heads:
        name = subject(d)
        if argv[0] == "dump":
            t = T.term(d)
            if name in SKIP or name in done or name.startswith("std::") or unfinished(t):
                continue
            done.add(name)
            print("= " + name)
            print(spell(t))
        elif name in argv:
            t = T.term(d)
            dom, uns = {}, []
            atoms(t, dom, uns)
            print("==", name, d["l"], uns[:3])
            seen = set()
            for w in worlds(dom):
                s = show(written(t, w))
                if s not in seen:
                    seen.add(s)
                    print("   ", s[:300])


if __name__ == "__main__":
    import sys
    main(sys.argv[1:])
