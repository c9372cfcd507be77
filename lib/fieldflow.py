"""Which field of one object is transferred to which field of another.

A function is walked with its parameters as roots.  Every expression is mapped
to an access path (root, fields...); a *transfer* is an expression statement in
which a path of the one root and a path of the other root meet.  Locals are
replaced by the expressions they were made from and helper functions defined in
the same unit are entered, so the way the code is cut into statements and
functions does not matter.  Expressions that are not understood are kept in
`loose`: they keep a field from being reported as missing."""
import re
from astq import kids, walk

THROUGH = {"value", "get", "operator*", "operator->", "at", "front", "back", "begin", "end", "size", "empty", "has_value",
           "operator bool", "data", "c_str", "value_or", "operator[]", "toBase", "getRef", "unwrap", "ToString", "add", "as", "raw", "asOrg"}


class Flow:
    def __init__(self, fns, step, enter=lambda f: True):
        self.fns = fns  # id -> function with a body
        self.step = step  # (node, path of object/argument) -> path extension or None
        self.enter = enter

    def run(self, fn, roots):
        """roots: parameter index -> name; returns transfers and mentions"""
        self.transfers = []  # (line, paths, guards, cases)
        self.mentions = set()
        self.guardmentions = []
        self.loose = []
        self.wholes = []  # calls that receive a root as a whole
        self.depth = 0
        env = {}
        for i, r in roots.items():
            if i < len(fn["params"]):
                env[fn["params"][i]["id"]] = [(r,)]
        self.stmt(fn["body"], env, (), ())
        return self

    # ---- expressions
    def paths(self, n, env):
        """maximal access paths in an expression"""
        p = self.path(n, env)
        if p is not None:
            return list(p) + [q for x in self.args_inside(n) for q in self.paths(x, env) if q not in p]
        out = []
        for c in kids(n):
            out += self.paths(c, env)
        return out

    def args_inside(self, n):
        """argument expressions of calls along an access path"""
        out = []
        while True:
            k = n["k"]
            if k == "MCall":
                out += [a for a in n.get("a", []) if a["k"] != "DefArg"]
                n = n.get("obj")
            elif k == "Call" and isinstance(n.get("ce"), dict) and n["ce"]["k"] == "DepMember":
                out += n.get("a", [])
                n = n["ce"].get("b")
            elif k in ("Member", "DepMember"):
                n = n.get("b")
            elif k in ("Un", "Cast", "Copy"):
                n = n.get("e")
            elif k == "OpCall":
                out += n["a"][1:]
                n = n["a"][0]
            else:
                return out
            if not isinstance(n, dict):
                return out

    def path(self, n, env):
        """access paths denoted by an expression, None when it denotes none"""
        k = n["k"]
        if k == "Ref":
            return env.get(n.get("id"))
        if k in ("Copy", "Cast"):
            return self.path(n["e"], env) if isinstance(n.get("e"), dict) else None
        if k == "Ctor" and len([a for a in n.get("a", []) if a["k"] != "DefArg"]) == 1 and not self.step(n, None):
            return self.path(n["a"][0], env)
        if k == "Un" and n["op"] in ("*", "&"):
            return self.path(n["e"], env)
        if k == "Member":
            b = self.path(n["b"], env) if isinstance(n.get("b"), dict) else None
            if b is None:
                return None
            e = self.step(n, b)
            return [p + tuple(e if e is not None else (n["name"],)) for p in b]
        if k == "MCall":
            b = self.path(n["obj"], env) if isinstance(n.get("obj"), dict) else None
            if b is None:
                return None
            e = self.step(n, b)
            if e is not None:
                return [p + tuple(e) for p in b]
            nm = n.get("fn", "").rsplit("::", 1)[-1]
            if nm in THROUGH:
                return b
            # another method: what it touches is only known from its body
            f = self.fns.get(n.get("fid"))
            inner = {x["name"] for x in walk(f["body"]) if x["k"] == "Member" and x.get("fld")} if f else set()
            for p in b:
                self.mentions.update(p + (x,) for x in inner)
            return [p + ("()" + nm,) for p in b]
        if k == "OpCall" and n.get("op") in ("*", "->", "[]", "()") and n.get("a"):
            return self.path(n["a"][0], env)
        if k == "Call" and isinstance(n.get("ce"), dict) and n["ce"]["k"] == "DepMember" and isinstance(n["ce"].get("b"), dict):
            b = self.path(n["ce"]["b"], env)
            if b is None:
                return None
            e = self.step(dict(n, k="MCall", fn="::" + n["ce"]["name"], cls="", obj=n["ce"]["b"], dep=True), b)
            if e is not None:
                return [p + tuple(e) for p in b]
            return b if n["ce"]["name"] in THROUGH else None
        if k == "DepMember" and isinstance(n.get("b"), dict):
            b = self.path(n["b"], env)
            return None if b is None else [p + (n["name"],) for p in b]
        if k == "Call":
            base = n.get("fn", "")
            if base in ("std::get", "std::get_if") and n["a"]:
                b = self.path(n["a"][-1], env)
                if b is None:
                    return None
                t = (n.get("targs") or ["?"])[0]
                t = re.sub(r"[uUlL]+$", "", t) if t[:1].isdigit() else t
                return [p + ("#" + t,) for p in b]
            if base in ("std::move", "std::forward", "std::as_const", "std::addressof"):
                return self.path(n["a"][0], env)
        return None

    # ---- statements
    def stmt(self, n, env, guards, cases):
        k = n["k"]
        if k == "Block":
            for s in n["s"]:
                self.stmt(s, env, guards, cases)
                # `if (!x) return;` guards what follows
                if s["k"] == "If" and not s.get("else") and leaves(s["then"]):
                    guards = guards + ((s["c"], False),)
            return
        if k == "Decl":
            for d in decls(n):
                if isinstance(d.get("init"), dict):
                    ps = self.path(d["init"], env)
                    if ps is None:
                        ps = self.paths(d["init"], env) or None
                    self.expr(d["init"], env, guards, cases, False)
                    if ps:
                        env[d["id"]] = ps
                        for b in d.get("bind", []):
                            env[b["id"]] = ps
            return
        if k == "If":
            if isinstance(n.get("init"), dict):
                self.stmt(n["init"], env, guards, cases)
            if isinstance(n.get("cvar"), dict):
                self.stmt(n["cvar"], env, guards, cases)
            self.cond(n["c"], env)
            self.stmt(n["then"], env, guards + ((n["c"], True),), cases)
            if isinstance(n.get("else"), dict):
                self.stmt(n["else"], env, guards + ((n["c"], False),), cases)
            return
        if k == "Switch":
            self.cond(n["c"], env)
            self.switch(n, env, guards, cases)
            return
        if k == "RangeFor":
            ps = self.path(n["range"], env) if isinstance(n.get("range"), dict) else None
            if ps is None and isinstance(n.get("range"), dict):
                ps = self.paths(n["range"], env)
            v = n.get("var")
            for d in decls(v) if isinstance(v, dict) else ():
                if ps and "id" in d:
                    env[d["id"]] = ps
                for b in d.get("bind", []):
                    if ps:
                        env[b["id"]] = ps
            self.stmt(n["body"], env, guards, cases)
            return
        if k in ("For", "While", "Do"):
            for x in ("init", "c", "inc"):
                if isinstance(n.get(x), dict):
                    self.stmt(n[x], env, guards, cases) if x == "init" else self.cond(n[x], env)
            self.stmt(n["body"], env, guards, cases)
            return
        if k == "Try":
            self.stmt(n["body"], env, guards, cases)
            for h in n["h"]:
                self.stmt(h["body"], env, guards, cases)
            return
        if k == "Null":
            return
        if k in ("Case", "Default"):
            self.stmt(n["s"], env, guards, cases)
            return
        if k in ("Break", "Continue"):
            return
        if k == "Return":
            if isinstance(n.get("e"), dict):
                self.expr(n["e"], env, guards, cases)
            return
        self.expr(n, env, guards, cases)

    def switch(self, n, env, guards, cases):
        body = n["body"]["s"] if n["body"]["k"] == "Block" else [n["body"]]
        sel = self.paths(n["c"], env)
        labels = []
        fresh = True
        for s in body:
            while s["k"] in ("Case", "Default"):
                if fresh:
                    labels, fresh = [], False
                labels = labels + [s["v"] if s["k"] == "Case" else None]
                s = s["s"]
            if s["k"] in ("Break", "Return", "Throw", "Continue") or s["k"] == "Block" and leaves(s, brk=True):
                if s["k"] == "Block":
                    self.stmt(s, dict(env), guards, cases + ((n, tuple(sel), tuple(labels)),))
                fresh = True
                continue
            self.stmt(s, env, guards, cases + ((n, tuple(sel), tuple(labels)),))

    def fill(self, n, env):
        """locals that receive a value inside an expression"""
        for x in walk(n):
            if x["k"] == "Lambda":
                break
            tgt = src = None
            if x["k"] == "Bin" and x["op"] == "=":
                tgt, src = [x["a"]], [x["b"]]
            elif x["k"] == "OpCall" and x.get("op") == "=":
                tgt, src = [x["a"][0]], x["a"][1:]
            elif x["k"] in ("Call", "MCall"):
                tgt = [a["e"] if a["k"] == "Un" else a for a in x.get("a", []) if a["k"] == "Un" and a["op"] == "&" or a["k"] == "Ref"]
                src = x.get("a", []) + ([x["obj"]] if isinstance(x.get("obj"), dict) else [])
            for t in tgt or ():
                while t["k"] in ("Cast", "Copy"):
                    t = t["e"]
                if t["k"] == "Ref" and t.get("dk") == "local" and (x["k"] in ("Bin", "OpCall") or t["id"] not in env):
                    ps = [p for y in src if y is not t for p in self.paths(y, env)]
                    if ps:
                        env[t["id"]] = sorted(set(env.get(t["id"], [])) | set(ps))

    def cond(self, n, env):
        self.fill(n, env)
        for p in self.paths(n, env):
            self.guardmentions.append((n, p))
            self.mentions.add(p)

    def expr(self, n, env, guards, cases, record=True):
        # conditional expression: two guarded alternatives
        self.fill(n, env)
        ps = self.paths(n, env)
        self.mentions.update(ps)
        if self.call_into(n, env, guards, cases):
            return
        if n["k"] == "Lambda":
            return
        if record and ps:
            self.transfers.append((n.get("l"), n, ps, guards, cases))

    def call_into(self, n, env, guards, cases):
        """enter a helper function or an immediately called lambda"""
        if n["k"] in ("Call", "MCall", "OpCall") and n.get("fid") in self.fns and self.depth < 4:
            f = self.fns[n["fid"]]
            if not self.enter(f):
                return False
            args = n.get("a", [])
            if n["k"] == "OpCall" and len(args) == len(f["params"]) + 1:
                args = args[1:]
            e2 = dict(env)
            hit = False
            for p, a in zip(f["params"], args):
                v = self.path(a, env)
                if v is None:
                    v = self.paths(a, env) or None
                if v is not None:
                    e2[p["id"]] = v
                    hit = True
            if not hit:
                return False
            self.depth += 1
            self.stmt(f["body"], e2, guards, cases)
            self.depth -= 1
            return True
        return False


def decls(n):
    if n is None:
        return []
    if n.get("k") == "Decl":
        return n["vars"]
    return [n] if "id" in n else []


def leaves(n, brk=False):
    k = n["k"]
    if k in ("Return", "Throw", "Continue") or brk and k == "Break":
        return True
    if k == "Block":
        return bool(n["s"]) and leaves(n["s"][-1], brk)
    if k == "If":
        return bool(n.get("else")) and leaves(n["then"], brk) and leaves(n["else"], brk)
    return False
