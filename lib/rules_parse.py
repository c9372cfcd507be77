"""C26: a completed node has its children at the positions its specification names.

An abstract interpretation of the parser over the typed program.  The state is the
stack of nodes that are open (a typestate kept by the node guards), and for every
open node the kinds of the children it has so far.  A loop that adds children turns
into an open end, a call into the children the called function adds when it
succeeds, computed as a fixed point over all functions of the parser."""
import os

import astq
from astq import walk, kids
from common import REPO, Result

PARSER = "org::parse::OrgParser"
UNITS = ["src/haxorg/parse/OrgParser.cpp", "src/haxorg/parse/OrgParserUtils.cpp", "src/haxorg/parse/OrgSpec.cpp"]
ANY = "any"
LIMIT = 400          # states at one point
LONGEST = 14         # children told apart
THROUGH = ("Copy", "Cast", "Paren", "Full", "Temp", "DefArg")

# what may stand under a name; "kind<tokens>" also says which tokens the node may be made of
# (for the two plain lists: which nodes they may hold)
EMPTY = "Empty"
LISTS = ("StmtList", "InlineStmtList", "DrawerPropertyList")
NODES = {
    "Subtree": dict(Prefix="RawText<SubtreeStars>", Todo="BigIdent<BigIdent> Empty", Importance="SubtreeUrgency<SubtreePriority> SubtreeImportance<SubtreePriority> Empty", Title="Paragraph Empty",
                    Completion="SubtreeCompletion<SubtreeCompletion> Empty", Tags="InlineStmtList<HashTag> Empty", Times="StmtList<InlineStmtList> Empty", Drawer="Drawer Empty", Body="StmtList"),
    "ListItem": dict(Bullet="RawText", Counter="Empty RawText", Checkbox="Checkbox<Checkbox> Empty", Header="Paragraph Empty", Body="StmtList Empty"),
    "AttrValue": dict(Name="Word<CmdColonIdent> Empty", Subname="RawText Empty", Value="RawText AttrLisp InlineStmtList<RawText> Empty", Cells="InlineStmtList<RawText,Empty> Empty"),
    "AttrLisp": dict(Value="InlineStmtList<AttrLisp> RawText"),
    "Attrs": None,
    "Link": dict(Protocol="Word<LinkProtocolHttp,LinkProtocolId,LinkProtocolCustomId,LinkProtocolAttachment,LinkProtocolFile,LinkProtocol> Empty",
                 Link="RawText<LinkTarget,LinkProtocolTitle,LinkTargetFile,LinkProtocolInternal> Paragraph Empty", Desc="Paragraph Empty"),
    "Footnote": dict(Name="Empty RawText Word", Definition="RawText Paragraph"),
    "InlineFootnote": dict(Definition="Paragraph"),
    "Symbol": dict(Name="Word<Symbol>", Args="InlineStmtList<RawText>", Body="InlineStmtList<Paragraph,Empty>"),
    "StaticActiveTime": dict(Year="RawText<Date> Empty", Clock="RawText<Time> Empty", Zone="RawText<Number> Empty", Repeater="InlineStmtList<InlineStmtList> Empty", Warn="RawText<TimeWarnPeriod> Empty"),
    "DynamicActiveTime": dict(Body="InlineStmtList<AttrLisp> RawText"),
    "TimeRange": dict(From="StaticActiveTime StaticInactiveTime DynamicActiveTime DynamicInactiveTime", To="StaticActiveTime StaticInactiveTime DynamicActiveTime DynamicInactiveTime",
                      Diff="SimpleTime<Time> Empty"),
    "SrcInlineCode": dict(Lang="Word<TextSrcBegin> Empty", HeaderArgs="Attrs Empty", Body="CodeLine", Result="RawText Empty"),
    "BlockCode": dict(Lang="Word<CmdRawArg> Empty", HeaderArgs="Attrs Empty", Body="StmtList<CodeLine>", Result="CmdResults RawText Empty"),
    "BlockExport": dict(Name="Word<CmdRawArg>", Args="InlineStmtList<AttrValue> Attrs Empty", Body="StmtList<RawText>"),
    "BlockExample": dict(Args="InlineStmtList<AttrValue> Attrs Empty", Body="RawText"),
    "InlineExport": dict(Name="RawText<InlineExportBackend>", Body="RawText<InlineExportContent>"),
    "Table": dict(Args="InlineStmtList<AttrValue> Attrs Empty", Rows="TableRow"),
    "List": dict(Body="ListItem"),
    "CmdFiletags": dict(Tags="HashTag"),
    "CodeLine": dict(Chunks="CodeText CodeTangle CodeCallout"),
    "ColonExample": dict(Body="RawText Empty"),
    "ErrorSkipGroup": dict(Body="ErrorSkipToken"),
    "TableRow": dict(Args="InlineStmtList<AttrValue> Attrs Empty", Text="Paragraph Empty", Body="StmtList<TableCell>"),
    "TableCell": dict(Args="InlineStmtList<AttrValue> Attrs Empty", Body="StmtList Empty"),
    "CriticMarkStructure": dict(Name="RawText", Assoc="Paragraph Empty", Body="Paragraph Empty"),
    "DrawerLogbook": dict(Logs="List"),
    "DrawerProperty": dict(Name="RawText", Values="RawText<RawText> InlineStmtList Paragraph"),
    "HashTag": dict(Head="RawText<At,HashIdent,Word,BigIdent> BigIdent Word", Subnodes="HashTag"),
    "Macro": dict(Name="Word<Word>", Args="InlineStmtList<AttrValue>"),
    "CmdCallCode": dict(Name="Word<CmdRawArg>", HeaderArgs="InlineStmtList<AttrValue> Empty", Args="InlineStmtList<AttrValue> Empty", EndArgs="InlineStmtList<AttrValue> Empty"),
    "CmdTblfm": dict(Values="InlineStmtList<RawText>"),
    "CmdColumns": dict(Args="InlineStmtList<RawText> Attrs Empty"),
    "CmdInclude": dict(Args="InlineStmtList<AttrValue> Attrs"),
    "CmdAttr": dict(Name="Word<CmdAttr>", Args="InlineStmtList<AttrValue> Attrs Empty"),
    "CmdHeader": dict(Args="InlineStmtList<AttrValue> Attrs Empty"),
    "CmdCustomArgsCommand": dict(Name="RawText", Args="InlineStmtList<AttrValue> Attrs"),
    "CmdCustomTextCommand": dict(Name="RawText", Args="Attrs Paragraph"),
    "BlockDynamicFallback": dict(Name="Word<CmdDynamicBlockBegin>", Args="InlineStmtList<AttrValue> Attrs Empty"),
    "BlockCenter": dict(Args="InlineStmtList<AttrValue> Attrs Empty"),
    "BlockQuote": dict(Args="InlineStmtList<AttrValue> Attrs Empty"),
    "BlockComment": dict(Args="InlineStmtList<AttrValue> Attrs Empty"),
}
NODES["StaticInactiveTime"] = NODES["StaticActiveTime"]
NODES["DynamicInactiveTime"] = NODES["DynamicActiveTime"]
del NODES["Attrs"]


def allowed(text):
    out = {}
    for w in text.split():
        k, _, t = w.partition("<")
        out[k] = frozenset(t[:-1].split(",")) if t else None
    return out


# ------------------------------------------------------------- specification
def last(q):
    return (q or "").rsplit("::", 1)[-1]


def given(n):
    return [a for a in n.get("a") or [] if a is not None and a["k"] != "DefArg"]


def bare(n):
    while n is not None and (n["k"] in THROUGH and "e" in n or n["k"] in ("Ctor", "InitList") and len(given(n)) == 1):
        n = n["e"] if n["k"] in THROUGH else given(n)[0]
    return n


def is_name(n):
    b = bare(n)
    return b is not None and b["k"] == "Ref" and b.get("qual", "").startswith("OrgSpecName::")


def index(n):
    """(first, open end?) of a field's position"""
    for x in walk(n):
        if x["k"] == "Call" and last(x.get("fn")) == "slice":
            lo, hi = x["a"][0], x["a"][1]
            lo = next((y["cv"] for y in walk(lo) if "cv" in y), None)
            whole = any(y["k"] == "Call" and "operator" in last(y.get("fn")) for y in walk(hi))
            return None if lo is None else (int(lo), True) if whole else None
    b = next((y["cv"] for y in walk(n) if "cv" in y), None)
    return None if b is None else (int(b), False)


def fields(n, vars_, depth=0):
    """[(position, open end?, name)] of one pattern, without those of nested patterns"""
    out = []

    def go(x):
        if x is None:
            return
        if x["k"] == "Ref" and x.get("id") in vars_ and depth < 4:
            out.extend(fields(vars_[x["id"]], vars_, depth + 1))
            return
        a = x.get("a", []) if x["k"] in ("Call", "Ctor", "MCall", "InitList") and isinstance(x.get("a"), list) else []
        if len(a) >= 2 and a[1] is not None and is_name(a[1]):
            i = index(a[0])
            out.append((*(i or (None, False)), last(bare(a[1])["qual"])))
            return
        if x["k"] == "Ctor" and "AstPatternRange" in x.get("cls", "") and a:
            go(a[0])
            return
        for c in kids(x):
            go(c)
    go(n)
    return out


def specification(facts):
    vars_, pairs = {}, {}
    for d in facts["decls"]:
        if d.get("d") == "fn" and d.get("name") == "getOrgSpec" and d.get("body"):
            for n in walk(d["body"]):
                if n["k"] == "Decl":
                    for v in n["vars"]:
                        if "AstPattern" in v.get("ct", "") and v.get("init"):
                            vars_[v["id"]] = v["init"]
            for n in walk(d["body"]):
                if n["k"] in ("Ctor", "InitList", "Call") and len(n.get("a") or []) == 2 and "Pattern" in (n["a"][1] or {}).get("t", ""):
                    k = bare(n["a"][0])
                    if k is not None and k["k"] == "Ref" and k.get("qual", "").startswith("OrgNodeKind::"):
                        pairs.setdefault(last(k["qual"]), (n["l"], fields(n["a"][1], vars_)))
    return pairs


# ------------------------------------------------------------------- parser
class Vague(Exception):
    pass


FAIL, VOID = ("fail",), ("void",)


def child(kinds, tokens=None):
    """{kind: tokens the node may be made of, or None}"""
    return tuple(sorted(((k, tokens) for k in kinds), key=str))


class State:
    """frames: ((kinds, children, open end) ...), env: guards and lambdas, facts: what a switch settled"""
    __slots__ = ("frames", "env", "facts")

    def __init__(self, frames, env, facts):
        self.frames, self.env, self.facts = frames, env, facts

    def put(self, c):
        k, ch, tail = self.frames[-1]
        if ch is None:
            return self
        if tail is not None or len(ch) >= LONGEST:
            top = (k, ch, tuple(sorted(set(tail or ()) | set(c), key=str)))
        else:
            top = (k, ch + (c,), None)
        return State(self.frames[:-1] + (top,), self.env, self.facts)

    def blur(self):
        k, ch, tail = self.frames[-1]
        return State(self.frames[:-1] + ((k, None, None),), self.env, self.facts)

    def bind(self, i, v):
        e = dict(self.env)
        if v is None:
            e.pop(i, None)
        else:
            e[i] = v
        return State(self.frames, e, self.facts)

    def know(self, k, v):
        f = dict(self.facts)
        if v is None:
            f.pop(k, None)
        else:
            f[k] = v
        return State(self.frames, self.env, f)

    def key(self):
        return (tuple((k, None if ch is None else len(ch), tail is None) for k, ch, tail in self.frames), frozenset(self.env.items()), frozenset(self.facts.items()))


def union(a, b):
    d = {}
    for k, t in a + b:
        d[k] = t if k not in d else None if t is None or d[k] is None else d[k] | t
    return tuple(sorted(d.items(), key=str))


def merge(states):
    out = {}
    for s in states:
        k = s.key()
        if k not in out:
            out[k] = s
        else:
            o = out[k]
            fr = []
            for (kk, c1, t1), (_, c2, t2) in zip(o.frames, s.frames):
                fr.append((kk, None if c1 is None else tuple(union(x, y) for x, y in zip(c1, c2)), None if t1 is None else union(t1, t2)))
            out[k] = State(tuple(fr), o.env, o.facts)
    r = list(out.values())
    if len(r) > LIMIT:
        raise Vague("too many ways through")
    return r


def lexer_type(t):
    return "Lexer" in (t or "") and "Token" in (t or "") or "OrgLexer" in (t or "")


QUIET = {"at", "kind", "tok", "val", "get", "hasNext", "can_search", "finished", "getPos", "empty", "ahead", "whole_fixed", "printToString"}


class Parser:
    def __init__(self, units, report):
        self.fns, self.byname = {}, {}
        self.report = report
        self.summary, self.wanted, self.vague = {}, {}, {}
        self.ended = {}
        for u, f in units.items():
            for d in f["decls"]:
                if d.get("d") == "fn" and d.get("body") and d.get("clsq") == PARSER:
                    self.fns.setdefault((d["name"], d["sig"]), d)
        for (n, s), d in self.fns.items():
            self.byname.setdefault(n, []).append(d)

    # -- functions
    def resolve(self, name, nargs):
        c = self.byname.get(name, [])
        c = [d for d in c if len(d["params"]) == nargs] or c
        return c[0] if len(c) == 1 else None

    def run(self):
        self.final = False
        work = [d for d in self.fns.values()]
        for _ in range(12):
            changed = False
            for d in work:
                changed |= self.update(d)
            if not changed:
                break
        self.final = True
        for d in work:
            self.update(d)

    def update(self, d):
        k = id(d)
        old = self.summary.get(k, frozenset())
        if d["name"] in PRIMITIVE:
            return False
        self.current = d
        self.count_conditions(d)
        self.pending, self.said = [], []
        try:
            outs = self.body(d["body"], State(((("",), (), None),), {}, {}))
            new = {}
            for s, v in outs:
                if v == FAIL:
                    continue
                if len(s.frames) != 1:
                    raise Vague("open nodes at return")
                _, ch, tail = s.frames[0]
                kk = (None if ch is None else len(ch), tail is None)
                if kk in new:
                    c2, t2 = new[kk]
                    ch = None if ch is None else tuple(union(x, y) for x, y in zip(ch, c2))
                    tail = None if tail is None else union(tail, t2)
                new[kk] = (ch, tail)
            self.vague.pop(d["name"], None)
            got = frozenset(new.values())
            if self.final:
                for node, line, w in self.pending:
                    self.ended.setdefault(node, {}).setdefault(line, []).append(w)
                for w in self.said:
                    self.report(*w)
        except Vague as e:
            self.vague[d["name"]] = str(e)
            got = frozenset([((), child([ANY]))])
        self.summary[k] = got
        return got != old

    def body(self, b, s):
        """[(state, value)] of the returns of a function or lambda body"""
        ex = self.stmt(b, [s])
        return [(self.close(x, s), VOID) for x in ex["next"]] + [(self.close(x, s), v) for x, v in ex["ret"] if v != FAIL]

    def apply(self, s, d):
        """states after calling another function of the parser"""
        out = []
        for ch, tail in self.summary.get(id(d), frozenset()):
            if ch is None:
                out.append(s.blur())
                continue
            x = s
            for c in ch:
                x = x.put(c)
            if tail is not None:
                k, c2, t2 = x.frames[-1]
                if c2 is not None:
                    x = State(x.frames[:-1] + ((k, c2, union(t2 or (), tail)),), x.env, x.facts)
            out.append(x)
        return out

    # -- nodes
    def open(self, s, kinds):
        out = []
        for k in kinds:
            out.append((State(s.frames + (((k,), (), None),), s.env, s.facts), ("guard", len(s.frames))))
        return out

    def finish(self, s, depth, line):
        """the node opened at this depth is completed"""
        if depth >= len(s.frames):
            return s           # closed before
        if depth < len(s.frames) - 1:
            if self.final:
                inner = "/".join(s.frames[-1][0])
                self.said.append((line, "closed-inside-out", "/".join(s.frames[depth][0]), f"the node {'/'.join(s.frames[depth][0])} is ended while {inner}, opened after it, is still open"))
            s = State(s.frames[: depth + 1], s.env, s.facts)
        (k,), ch, tail = s.frames[-1]
        if self.final:
            self.pending.append((k, line, (ch, tail)))
        t = State(s.frames[:-1], {i: ("ended", k) if v == ("guard", depth) else v for i, v in s.env.items()}, s.facts)
        made = None
        if k in LISTS and ch is not None:
            parts = {x for c in ch + ((tail,) if tail is not None else ()) for x, _ in c}
            made = frozenset(parts) if ANY not in parts else None
        return t.put(child([k], made))

    def close(self, s, before):
        """end of a scope: guards declared in it end their nodes"""
        while len(s.frames) > len(before.frames):
            d = len(s.frames) - 1
            if any(v == ("guard", d) and i in before.env for i, v in s.env.items()):
                break
            if any(v == ("guard", d) and i in self.outer for i, v in s.env.items()):
                break
            if ("returned", d) in s.facts:
                break
            s = self.finish(s, d, getattr(self, "line", 0))
        return s

    outer = frozenset()
    looked = []

    # -- expressions
    def kinds(self, n, s):
        """the enumerators an expression may yield"""
        n = bare(n)
        if n is None:
            return None
        if n["k"] == "Ref":
            if n.get("dk") == "enum":
                return [n["name"]]
            v = s.env.get(n.get("id"))
            if v and v[0] == "kinds":
                return list(v[1])
            f = s.facts.get(("var", n.get("id")))
            return list(f) if f else None
        if n["k"] == "Cond":
            a, b = self.kinds(n["a"], s), self.kinds(n["b"], s)
            return a and b and a + b
        return None

    def tokens(self, n, s):
        """the token kinds a popped token may have, None if anything"""
        for x in walk(n):
            if x["k"] == "MCall" and last(x.get("fn")) == "pop":
                if len(x["a"]) < 2 or x.get("cls") != PARSER:
                    return None
                exp = x["a"][1]
                if exp["k"] == "DefArg" or not any(y["k"] == "Ref" and "OrgTokenKind" in y.get("t", "") for y in walk(exp)):
                    return None
                got = set()
                for y in walk(exp):
                    if y["k"] == "Ref" and y.get("dk") == "enum":
                        got.add(y["name"])
                    elif y["k"] == "Ref" and y.get("dk") not in ("enum", "fn", None) and ("Token" in y.get("t", "") or "TokSet" in y.get("t", "")):
                        return None
                    elif y["k"] in ("MCall", "OpCall", "Lambda", "Cond"):
                        return None
                return frozenset(got)
        return None

    def ev(self, n, s):
        """[(state, value)]"""
        if n is None:
            return [(s, VOID)]
        k = n["k"]
        if k in THROUGH:
            return self.ev(n.get("e"), s) if "e" in n else [(s, VOID)]
        if k == "Lambda":
            return [(s, ("lambda", self.lam(n)))]
        if k == "Ref":
            v = s.env.get(n.get("id"))
            if v is not None:
                return [(s, v)]
            if n.get("dk") == "enum":
                return [(s, ("kinds", (n["name"],)))]
            return [(s, VOID)]
        if k == "Un" and n["op"] == "&":
            r = bare(n["e"])
            if r is not None and r["k"] == "Ref" and r.get("qual", "").startswith(PARSER + "::") and r["name"] in self.byname:
                return [(s, ("method", r["name"]))]
        if k == "Cond":
            out = []
            for t, _ in self.ev(n["c"], s):
                out += self.ev(n["a"], t) + self.ev(n["b"], t)
            return self.mergev(out)
        if k == "Bin" and n["op"] in ("&&", "||"):
            out = []
            for t, _ in self.ev(n["a"], s):
                out.append((t, VOID))
                out += [(u, VOID) for u, _ in self.ev(n["b"], t)]
            return self.mergev(out)
        if k == "Throw":
            self.seq(n, s)
            return []
        if k == "StmtExpr":
            ex = self.stmt(n["s"], [s], scoped=False)
            for x, v in ex["ret"]:
                self.rets.append((x, v))
            return [(x, VOID) for x in ex["next"]]
        if k == "Bin" and n["op"] == "=" or k == "OpCall" and n.get("op") == "=":
            lhs, rhs = (n["a"], n["b"]) if k == "Bin" else (n["a"][0], n["a"][1])
            l = bare(lhs)
            out = []
            for t, v in self.ev(rhs, s):
                if l is not None and l["k"] == "Ref" and l.get("dk") in ("local", "param", "var"):
                    if v[0] in ("guard", "lambda", "method", "kinds"):
                        t = t.bind(l["id"], v)
                    else:
                        t = t.bind(l["id"], None)
                    t = t.know(("var", l["id"]), None)
                else:
                    out += [(u, VOID) for u, _ in self.ev(lhs, t)]
                    continue
                out.append((t, v))
            return self.mergev(out)
        if k in ("MCall", "OpCall", "Call"):
            return self.call(n, s)
        if k in ("Ctor", "InitList") and len(given(n)) == 1:
            return self.ev(given(n)[0], s)
        return [(t, VOID) for t in self.seq(n, s)]

    def lam(self, n):
        self.lams[id(n)] = n
        return id(n)

    lams = {}

    def mergev(self, pairs):
        by = {}
        for s, v in pairs:
            by.setdefault(v, []).append(s)
        return [(s, v) for v, ss in by.items() for s in merge(ss)]

    def seq(self, n, s):
        cur = [s]
        for c in kids(n):
            nxt = []
            for t in cur:
                nxt += [u for u, _ in self.ev(c, t)]
            cur = merge(nxt)
        return cur

    def args(self, ns, s):
        """[(state, [values])]"""
        cur = [(s, ())]
        for c in ns:
            nxt = []
            for t, vs in cur:
                for u, v in self.ev(c, t):
                    nxt.append((u, vs + (v,)))
            cur = nxt if len(nxt) < 2 else self.mergev(nxt)
        return cur

    def invoke(self, lid, vals, s):
        n = self.lams[lid]
        if lid in self.stack:
            out = []
            for ch, tail in self.lsum.get(lid, ()):
                x = s
                for c in ch or ():
                    x = x.put(c)
                if tail is not None:
                    kk, c2, t2 = x.frames[-1]
                    if c2 is not None:
                        x = State(x.frames[:-1] + ((kk, c2, union(t2 or (), tail)),), x.env, x.facts)
                out.append((x if ch is not None else x.blur(), VOID))
            self.recursed.add(lid)
            return out
        for _ in range(6):
            before = self.lsum.get(lid, frozenset())
            self.stack.append(lid)
            keep, self.rets = self.rets, []
            fin = self.final
            try:
                t = s
                for p, v in zip(n["params"], vals):
                    t = t.bind(p["id"], v if v[0] in ("guard", "lambda", "method", "kinds") else None)
                outs = self.lbody(n, t, s)
            finally:
                self.stack.pop()
                self.rets = keep
            if lid not in self.recursed:
                return outs
            got = set()
            for x, v in outs:
                if v == FAIL or len(x.frames) != len(s.frames):
                    continue
                _, c0, t0 = s.frames[-1]
                _, c1, t1 = x.frames[-1]
                if c0 is None or c1 is None or t0 is not None:
                    got.add(((), child([ANY])))
                else:
                    got.add((c1[len(c0):], t1))
            self.lsum[lid] = frozenset(got) | before
            if self.lsum[lid] == before:
                return outs
        raise Vague("recursive lambda")

    def lbody(self, n, t, s):
        ex = self.stmt(n["body"], [t])
        out = []
        for x, v in [(x, VOID) for x in ex["next"]] + ex["ret"]:
            if v == FAIL:
                # a failure is handed on by the callers
                continue
            if v[0] == "guard" and v[1] == len(s.frames) and len(x.frames) == v[1] + 1:
                pass
            else:
                x = self.close(x, s)
            e = dict(x.env)
            for p in n["params"]:
                e.pop(p["id"], None)
            out.append((State(x.frames, e, x.facts), v))
        return self.mergev(out)

    stack, lsum, recursed, rets = [], {}, set(), []

    def call(self, n, s):
        self.line = n.get("l") or getattr(self, "line", 0)
        fn, name = n.get("fn", ""), last(n.get("fn"))
        a = n.get("a", [])
        # the member function behind a pointer
        if n["k"] == "MCall" and "fn" not in n or n["k"] == "Call" and "fn" not in n:
            out = []
            for t, v in self.args([x for x in kids(n.get("ce") or {"k": "Null"})] + a, s):
                m = [x for x in v if x and x[0] == "method"]
                d = self.resolve(m[0][1], len(a)) if m else None
                if d:
                    out += [(u, VOID) for u in self.apply(self.moved(t), d)]
                else:
                    out.append((t.blur(), VOID))
            return self.mergev(out)
        if n["k"] == "OpCall" and n.get("op") == "()":
            out = []
            for t, vs in self.args(a, s):
                if vs and vs[0][0] == "lambda":
                    out += self.invoke(vs[0][1], vs[1:], t)
                elif self.touches(a[1:]):
                    out.append((t.blur(), VOID))
                elif a and any(w in a[0].get("t", "") for w in ("function<", "Func<")):
                    # a function set elsewhere
                    out.append((t.blur(), VOID))
                else:
                    out.append((t, VOID))
            return self.mergev(out)
        if n.get("cls") == PARSER + "::NodeGuard" and name == "end":
            out = []
            for t, v in self.ev(n["obj"], s):
                if v[0] == "guard":
                    for u, _ in self.args(a, t):
                        out.append((self.finish(u, v[1], n["l"]), VOID))
                elif v[0] == "ended":
                    self.said.append((n["l"], "ended-twice", v[1], f"the node {v[1]} was ended before, this ends the node around it"))
                    out.append((t, VOID))
                else:
                    raise Vague("a node is ended through an unknown guard")
            return self.mergev(out)
        if n["k"] == "OpCall" and n.get("op") in ("->", "*") and a:
            return self.ev(a[0], s)
        if n["k"] == "MCall" and "NodeGuard" in n.get("cls", "") and name in ("reset", "release", "swap"):
            out = []
            for t, v in self.ev(n["obj"], s):
                if name != "reset" or given(n):
                    raise Vague("a guard changes hands")
                out.append((self.finish(t, v[1], n["l"]) if v[0] == "guard" else t, VOID))
            return self.mergev(out)
        if n["k"] == "MCall" and n.get("cls") == PARSER:
            return self.own(n, name, a, s)
        if n["k"] == "MCall" and name in ("startTree", "endTree", "token", "failTree", "removeTail") and "NodeGroup" in n.get("cls", ""):
            out = []
            for t, _ in self.args(a, s):
                if name == "removeTail":
                    kk, ch, tail = t.frames[-1]
                    out.append((State(t.frames[:-1] + ((kk, ch[:-1], tail),), t.env, t.facts) if ch and tail is None else t.blur(), VOID))
                else:
                    raise Vague("works on the tree directly")
            return out
        if n["k"] == "Call" and name in ("move", "forward") and len(a) == 1:
            return self.ev(a[0], s)
        out = []
        obj = [n["obj"]] if n.get("obj") else []
        for t, vs in self.args(obj + a, s):
            if any(v[0] == "lambda" and self.touches([self.lams[v[1]]]) for v in vs) or any(x["k"] == "This" for y in a for x in ([y] + [y.get("e")] if y["k"] in ("Un", "Cast", "Copy") and y.get("e") else [y])):
                t = t.blur()
            if n["k"] == "MCall" and name not in QUIET and lexer_type(n.get("cls")):
                t = self.moved(t)
            elif any(lexer_type(x.get("t", "")) and not x.get("t", "").startswith("const") for x in a) and n["k"] != "MCall":
                t = self.moved(t)
            v = vs[0] if n["k"] == "MCall" and name in ("get", "operator->", "operator*") and vs and vs[0][0] == "guard" else VOID
            out.append((t, v))
        return self.mergev(out)

    def moved(self, s):
        """the lexer may stand elsewhere now"""
        if any(k[0] == "lex" for k in s.facts):
            return State(s.frames, s.env, {k: v for k, v in s.facts.items() if k[0] != "lex"})
        return s

    def touches(self, ns):
        return any(x["k"] == "MCall" and (x.get("cls") == PARSER and last(x.get("fn")) not in ("print", "trace", "at", "message", "report") or last(x.get("fn")) == "end" and "NodeGuard" in x.get("cls", "")) for n in ns for x in walk(n))

    def own(self, n, name, a, s):
        if n["obj"]["k"] != "This" and not (bare(n["obj"]) or {}).get("k") == "This":
            pass
        out = []
        for t, vs in self.args(a, s):
            if name == "start":
                ks = self.kinds(a[0], t)
                if not ks:
                    out += self.open(t, [ANY])
                else:
                    out += self.open(t, ks)
            elif name in ("start_no_guard", "end_impl", "fail"):
                raise Vague("opens or closes nodes without a guard")
            elif name == "token":
                ks = self.kinds(a[0], t) if "OrgNodeKind" in (a[0].get("t") or "") else None
                out.append((t.put(child(ks or [ANY], self.tokens(a[1], t) if ks else None)), VOID))
            elif name == "empty":
                out.append((t.put(child([EMPTY])), VOID))
            elif name == "fake":
                out.append((t.put(child(self.kinds(a[0], t) or [ANY])), VOID))
            elif name == "error_token":
                out.append((t.put(child(["ErrorInfoToken"])), VOID))
            elif name == "error_end":
                out.append((t.put(child(["ErrorInfoToken"])), FAIL))
            elif name in ("at", "print", "trace", "getLocMsg", "treeDepth", "back", "pending", "report", "fatalError", "getLoc", "error_value", "expect", "getEmpty", "printLexerToString", "maybe_error_end", "maybe_recursive_error_end"):
                out.append((t, VOID))
            else:
                t = self.moved(t)
                if name in ("skip", "pop", "space", "newline"):
                    out.append((t, VOID))
                    continue
                d = self.resolve(name, len(a))
                if d is not None and any(v[0] in ("guard", "lambda", "method") or v[0] == "kinds" and "OrgNodeKind" in p["t"] for v, p in zip(vs, d["params"])) and d["name"] not in self.inlining and len(self.inlining) < 4:
                    out += self.inline(d, vs, t)
                elif d is None:
                    out.append((t if name not in self.byname and not name.startswith("parse") else t.blur(), VOID))
                else:
                    out += [(u, VOID) for u in self.apply(t, d)]
        return self.mergev(out)

    def inline(self, d, vs, s):
        """a function that is told what to do by its caller"""
        keep, self.rets = self.rets, []
        self.inlining.append(d["name"])
        try:
            t = s
            for p, v in zip(d["params"], vs):
                t = t.bind(p["id"], v if v[0] in ("guard", "lambda", "method", "kinds") else None)
            return self.lbody(d, t, s)
        finally:
            self.inlining.pop()
            self.rets = keep

    inlining = []

    # -- conditions
    def count_conditions(self, d):
        self.known, self.changed, self.subjects, self.asked = {}, set(), set(), set()
        for n in walk(d["body"]):
            if n["k"] == "If":
                for c in self.conds(n["c"]):
                    self.known[c] = self.known.get(c, 0) + 1
                self.asked |= {x.get("id") for x in walk(n["c"]) if x["k"] == "Ref" and x.get("dk") == "local"}
            if n["k"] == "Switch":
                self.subjects.add(self.subject(n["c"]))
            if n["k"] == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") or n["k"] == "Un" and n["op"] in ("++", "--", "&"):
                r = bare(n["a"] if n["k"] == "Bin" else n["e"])
                if r is not None and r["k"] == "Ref":
                    self.changed.add(r.get("id"))
            if n["k"] == "OpCall" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                r = bare(n["a"][0])
                if r is not None and r["k"] == "Ref":
                    self.changed.add(r.get("id"))

    def conds(self, c):
        c = bare(c)
        while c is not None and c["k"] == "Un" and c["op"] == "!":
            c = bare(c["e"])
        if c is None:
            return
        if c["k"] == "Bin" and c["op"] in ("&&", "||"):
            yield from self.conds(c["a"])
            yield from self.conds(c["b"])
            return
        k = self.condition(c)
        if k:
            yield k

    def condition(self, c):
        """a name for a condition that yields the same whenever it is asked, until the lexer moves"""
        lex, ids = False, set()

        def go(x):
            nonlocal lex
            x = bare(x)
            if x is None:
                return "-"
            if x["k"] == "Ref":
                if x.get("dk") in ("local", "param", "binding"):
                    if lexer_type(x.get("t")):
                        lex = True
                    elif not any(w in x.get("t", "") for w in ("bool", "Kind")):
                        raise KeyError
                    ids.add(x["id"])
                    return f"v{x['id']}"
                if x.get("dk") in ("enum", "var", "fn"):
                    return x.get("qual", "")
                raise KeyError
            if x["k"] == "MCall" and last(x.get("fn")) in QUIET and lexer_type(x.get("cls")) or x["k"] == "MCall" and x.get("cls") == PARSER and last(x.get("fn")) == "at":
                lex = True
                return last(x["fn"]) + "(" + ",".join(go(y) for y in ([x["obj"]] if x["obj"]["k"] != "This" else []) + given(x)) + ")"
            if x["k"] in ("Bin",) and x["op"] in ("==", "!="):
                return go(x["a"]) + x["op"] + go(x["b"])
            if x["k"] == "Un" and x["op"] in ("-", "+", "!"):
                return x["op"] + go(x["e"])
            if x["k"] in ("Lit", "Bool", "Int", "Char") or "cv" in x:
                return str(x.get("cv", x.get("v")))
            if x["k"] in ("Ctor", "InitList"):
                return "{" + ",".join(go(y) for y in given(x)) + "}"
            raise KeyError
        try:
            text = go(c)
        except KeyError:
            return None
        return ("lex" if lex else "cond", text, frozenset(ids))

    def truth(self, c, s):
        """what is known about a condition: True, False or None"""
        c = bare(c)
        if c is None:
            return None
        if c["k"] == "Un" and c["op"] == "!":
            v = self.truth(c["e"], s)
            return None if v is None else not v
        if c["k"] == "Bin" and c["op"] in ("&&", "||"):
            a, b = self.truth(c["a"], s), self.truth(c["b"], s)
            stop = c["op"] == "||"
            return stop if a is stop or b is stop else (not stop) if a is not None and b is not None else None
        m = self.member(c)
        if m:
            key, names, yes = m
            f, out = s.facts.get(key), s.facts.get(("lex", "not", key), frozenset())
            if f is not None:
                if not (f & names):
                    return not yes
                if f <= names:
                    return yes
            if names <= out:
                return not yes
        k = self.condition(c)
        return s.facts.get(k) if k else None

    def member(self, c):
        """(subject, names, sense) of a condition that asks whether the subject is one of these names"""
        if c["k"] == "Bin" and c["op"] in ("==", "!="):
            for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
                e = bare(y)
                k = self.subject(x)
                if k and e is not None and e["k"] == "Ref" and e.get("dk") == "enum":
                    return k, frozenset([e["name"]]), c["op"] == "=="
        if c["k"] == "MCall" and last(c.get("fn")) == "at" and lexer_type(c.get("cls")) and len(given(c)) == 1 and (bare(c["obj"]) or {}).get("k") == "Ref":
            e = bare(given(c)[0])
            if e is not None and e["k"] == "Ref" and e.get("dk") == "enum":
                return ("lex", bare(c["obj"])["id"], ()), frozenset([e["name"]]), True
        return None

    def learn(self, c, v, s):
        c = bare(c)
        if c is None:
            return s
        m = self.member(c)
        if m and m[0] in self.subjects:
            key, names, yes = m
            if v == yes:
                s = s.know(key, names)
            else:
                k = ("lex", "not", key)
                s = s.know(k, s.facts.get(k, frozenset()) | names)
        if c["k"] == "Un" and c["op"] == "!":
            return self.learn(c["e"], not v, s)
        if c["k"] == "Bin" and c["op"] in ("&&", "||"):
            if v == (c["op"] == "&&"):
                return self.learn(c["b"], v, self.learn(c["a"], v, s))
            # the other side settles it when this one is known
            for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
                if self.truth(x, s) is (c["op"] == "&&"):
                    return self.learn(y, v, s)
            return s
        k = self.condition(c)
        if k and self.known.get(k, 0) > 1 and not (k[2] & self.changed):
            return s.know(k, v)
        return s

    # -- statements
    def stmt(self, n, states, scoped=True):
        ex = dict(next=[], ret=[], brk=[], cont=[], goto=[])
        if n is None:
            ex["next"] = states
            return ex
        if not states and n["k"] not in ("Block",):
            return ex
        k = n["k"]

        def absorb(sub, keep=("ret", "brk", "cont", "goto")):
            for w in keep:
                ex[w] += sub[w]

        if k == "Block":
            cur = merge(states)
            entry = cur
            # guards bound outside of the block survive it
            pending = []
            for c in n["s"]:
                if c is None:
                    continue
                if c["k"] == "Label":
                    cur = merge(cur + [s for s, l in pending if l == c["label"]])
                    pending = [(s, l) for s, l in pending if l != c["label"]]
                    c = c.get("s")
                    if c is None:
                        continue
                sub = self.stmt(c, cur)
                absorb(sub, ("ret", "brk", "cont"))
                pending += sub["goto"]
                cur = merge(sub["next"])
            declared = self.declared(n) if scoped else frozenset()
            leave = lambda s: self.leave(s, declared)
            ex["next"] = merge([leave(s) for s in cur]) if scoped else cur
            ex["brk"] = [leave(s) for s in ex["brk"]]
            ex["cont"] = [leave(s) for s in ex["cont"]]
            ex["goto"] += [(leave(s), l) for s, l in pending]
            return ex
        if k == "Decl":
            cur = states
            for v in n["vars"]:
                if not v.get("init"):
                    continue
                nxt = []
                keep, self.rets = self.rets, []
                for s in cur:
                    for t, val in self.ev(v["init"], s):
                        if val[0] in ("guard", "lambda", "method") or val[0] == "kinds":
                            t = t.bind(v["id"], val)
                        if v["id"] in self.asked and v["id"] not in self.changed and v.get("ct", "").replace("const ", "") == "bool":
                            # asked later: what it stands for is settled now
                            me = ("cond", f"v{v['id']}", frozenset([v["id"]]))
                            for w in (True, False):
                                if self.truth(v["init"], t) is not (not w):
                                    nxt.append(self.learn(v["init"], w, t.know(me, w)))
                            continue
                        nxt.append(t)
                ex["ret"] += self.rets
                self.rets = keep
                cur = merge(nxt)
            ex["next"] = cur
            return ex
        if k == "If":
            keep, self.rets = self.rets, []
            cur = states
            for w in ("init", "cvar"):
                if n.get(w):
                    sub = self.stmt(n[w], cur)
                    absorb(sub)
                    cur = sub["next"]
            after = []
            for s in cur:
                after += [t for t, _ in self.ev(n["c"], s)]
            ex["ret"] += self.rets
            self.rets = keep
            after = merge(after)
            self.looked.append({x.get("id") for x in walk(n["c"]) if x["k"] == "Ref" and ("ParseResult" in x.get("t", "") or "basic_result" in x.get("t", ""))})
            yes = [self.learn(n["c"], True, s) for s in after if self.truth(n["c"], s) is not False]
            no = [self.learn(n["c"], False, s) for s in after if self.truth(n["c"], s) is not True]
            a = self.stmt(n["then"], yes)
            self.looked.pop()
            absorb(a)
            ex["next"] += a["next"]
            if n.get("else"):
                b = self.stmt(n["else"], no)
                absorb(b)
                ex["next"] += b["next"]
            else:
                ex["next"] += no
            ex["next"] = merge(ex["next"])
            return ex
        if k in ("While", "For", "RangeFor", "Do"):
            return self.loop(n, states)
        if k == "Switch":
            return self.switch(n, states)
        if k in ("Case", "Default"):
            return self.stmt(n.get("s"), states)
        if k == "Break":
            ex["brk"] = states
            return ex
        if k == "Continue":
            ex["cont"] = states
            return ex
        if k == "Goto":
            ex["goto"] = [(s, n["label"]) for s in states]
            return ex
        if k == "Label":
            return self.stmt(n.get("s"), states)
        if k == "Null":
            ex["next"] = states
            return ex
        if k == "Return":
            keep, self.rets = self.rets, []
            for s in states:
                for t, v in self.ev(n.get("e"), s):
                    if v[0] in ("kinds",):
                        v = VOID
                    ex["ret"].append((t, FAIL if v == FAIL or self.failing(n.get("e")) else v))
            ex["ret"] += self.rets
            self.rets = keep
            ex["ret"] = self.mergev(ex["ret"])
            return ex
        if k == "Try":
            sub = self.stmt(n["body"], states)
            absorb(sub)
            ex["next"] = sub["next"]
            if any(self.touches([h["body"]]) for h in n["h"]):
                raise Vague("handler works on the tree")
            return ex
        if k == "Stmt":
            raise Vague("statement " + n.get("cls", ""))
        # expression statement
        keep, self.rets = self.rets, []
        nxt = []
        for s in states:
            nxt += [t for t, _ in self.ev(n, s)]
        ex["ret"] += self.rets
        self.rets = keep
        ex["next"] = merge(nxt)
        return ex

    def failing(self, e):
        """does the returned expression report a failure?"""
        while e is not None:
            t = e.get("t", "")
            if "failure_type" in t or t.endswith("ParseFail") or "ParseFail>" in t and "optional" in t:
                return True
            if e["k"] in THROUGH and "e" in e:
                e = e["e"]
            elif e["k"] in ("Ctor", "InitList") and len(given(e)) == 1:
                e = given(e)[0]
            elif e["k"] == "Call" and last(e.get("fn")) in ("move", "forward") and len(e["a"]) == 1:
                e = e["a"][0]
            else:
                # a result that was looked at before
                return last(e.get("fn")) in ("assume_error", "error", "as_failure") or e["k"] == "Ref" and any(e.get("id") in c for c in self.looked)
        return False

    def declared(self, n):
        k = id(n)
        if k not in self.decl:
            ids = set()
            for c in n["s"]:
                if c is not None and c["k"] == "Decl":
                    ids |= {v["id"] for v in c["vars"]}
                if c is not None and c["k"] == "Label" and c.get("s") and c["s"]["k"] == "Decl":
                    ids |= {v["id"] for v in c["s"]["vars"]}
            self.decl[k] = frozenset(ids)
        return self.decl[k]

    decl = {}

    def leave(self, s, declared):
        """the variables of a block go out of scope, the last one first"""
        gs = sorted((v[1] for i, v in s.env.items() if i in declared and v[0] == "guard"), reverse=True)
        for d in gs:
            s = self.finish(s, d, getattr(self, "line", 0))
        gone = lambda k: k[0] == "var" and k[1] in declared or len(k) == 3 and isinstance(k[2], frozenset) and k[2] & declared
        if any(i in declared for i in s.env) or any(gone(k) for k in s.facts):
            s = State(s.frames, {i: v for i, v in s.env.items() if i not in declared}, {k: v for k, v in s.facts.items() if not gone(k)})
        return s

    def times(self, n):
        """how often a counting loop runs, if that is written down"""
        if n["k"] == "RangeFor":
            r = bare(n.get("range"))
            return len(r["a"]) if r is not None and r["k"] == "InitList" and len(r.get("a", [])) <= 8 else None
        if n["k"] != "For" or not n.get("init") or not n.get("c") or not n.get("inc") or n["init"]["k"] != "Decl" or len(n["init"]["vars"]) != 1:
            return None
        v, c, i = n["init"]["vars"][0], bare(n["c"]), bare(n["inc"])
        lo = (bare(v.get("init")) or {})
        if c["k"] != "Bin" or c["op"] not in ("<", "<=", "!=") or i["k"] != "Un" or i["op"] != "++":
            return None
        a, b = bare(c["a"]), bare(c["b"])
        if a is None or b is None or a.get("id") != v["id"] or "cv" not in b or "cv" not in lo or (bare(i["e"]) or {}).get("id") != v["id"]:
            return None
        k = int(b["cv"]) - int(lo["cv"]) + (c["op"] == "<=")
        return k if 0 <= k <= 8 else None

    def loop(self, n, states):
        ex = dict(next=[], ret=[], brk=[], cont=[], goto=[])
        often = self.times(n)
        if often is not None and self.touches([n["body"]]):
            cur, out = states, []
            for _ in range(often):
                sub = self.stmt(n["body"], cur)
                for w in ("ret", "goto"):
                    ex[w] += sub[w]
                out += sub["brk"]
                cur = merge(sub["next"] + sub["cont"])
            ex["next"] = merge(cur + out)
            return ex
        keep, self.rets = self.rets, []
        cur = states
        if n.get("init"):
            sub = self.stmt(n["init"], cur)
            cur = sub["next"]
        if n.get("range"):
            cur = merge([t for s in cur for t, _ in self.ev(n["range"], s)])
        heads = {}
        work = list(cur)
        for s in cur:
            heads[s.key()] = s
        entry = list(cur)
        for rnd in range(8):
            if n["k"] != "Do" and n.get("c"):
                work = merge([t for s in work for t, _ in self.ev(n["c"], s)])
                if rnd == 0:
                    ex["next"] += work
                else:
                    ex["next"] += work
            sub = self.stmt(n["body"], [self.forget(s) for s in work])
            if self.final is False or True:
                ex["ret"] += sub["ret"]
                ex["goto"] += sub["goto"]
                ex["next"] += sub["brk"]
            back = sub["next"] + sub["cont"]
            if n.get("inc"):
                back = [t for s in back for t, _ in self.ev(n["inc"], s)]
            if n["k"] == "Do":
                back = [t for s in back for t, _ in self.ev(n["c"], s)]
                ex["next"] += back
            if n["k"] == "RangeFor":
                ex["next"] += back
            new = []
            for s in merge(back):
                w = self.widen(entry, s)
                o = heads.get(w.key())
                if o is not None:
                    m = merge([o, w])[0]
                    if m.frames == o.frames:
                        continue
                    w = m
                heads[w.key()] = w
                new.append(w)
            if not new:
                break
            work = merge(new)
            entry = list(heads.values())
        else:
            raise Vague("loop does not settle")
        if n["k"] == "RangeFor":
            ex["next"] += cur
        ex["ret"] += self.rets
        self.rets = keep
        ex["next"] = merge(ex["next"])
        ex["ret"] = self.mergev(ex["ret"])
        return ex

    def forget(self, s):
        return self.moved(s)

    def widen(self, entry, s):
        """children added by an iteration become an open end"""
        for e in entry:
            if len(e.frames) == len(s.frames) and all(a[0] == b[0] for a, b in zip(e.frames, s.frames)):
                fr = []
                ok = True
                for (k, c0, t0), (_, c1, t1) in zip(e.frames, s.frames):
                    if c0 is None or c1 is None:
                        fr.append((k, None, None))
                    elif len(c1) < len(c0):
                        ok = False
                        break
                    else:
                        extra = ()
                        for c in c1[len(c0):]:
                            extra = union(extra, c)
                        tail = None
                        if extra or t0 is not None or t1 is not None:
                            tail = union(union(t0 or (), t1 or ()), extra)
                        fr.append((k, tuple(union(x, y) for x, y in zip(c0, c1)), tail))
                if ok:
                    return State(tuple(fr), s.env, s.facts)
        return s

    def switch(self, n, states):
        ex = dict(next=[], ret=[], brk=[], cont=[], goto=[])
        cur = states
        if n.get("init"):
            cur = self.stmt(n["init"], cur)["next"]
        cur = merge([t for s in cur for t, _ in self.ev(n["c"], s)])
        key = self.subject(n["c"])
        groups, default = [], False
        for c in n["body"].get("s", []):
            labs = []
            while c is not None and c["k"] in ("Case", "Default"):
                labs.append(c)
                c = c.get("s")
            if labs:
                groups.append([labs, []])
                default |= any(x["k"] == "Default" for x in labs)
            if groups and c is not None:
                groups[-1][1].append(c)
        named = set()
        for labs, _ in groups:
            named |= {last((bare(x["v"]) or {}).get("name", "")) for x in labs if x["k"] == "Case"}
        body = []
        fall = []
        for labs, ss in groups:
            vals = {last((bare(x["v"]) or {}).get("name", "")) for x in labs if x["k"] == "Case"}
            isdef = any(x["k"] == "Default" for x in labs)
            start = list(fall)
            effect = [x for x in ss if x["k"] not in ("Null", "Break") and not (x["k"] == "Block" and all(y is None or y["k"] in ("Null", "Break") for y in x["s"]))]
            for s in cur:
                f = s.facts.get(key) if key else None
                if isdef:
                    if f is not None:
                        rest = frozenset(f) - (named - vals)
                        if not rest:
                            continue
                        start.append(s.know(key, rest))
                    elif effect or not vals and len(named) < 2:
                        start.append(s)
                    # a default without statements stands for what cannot happen
                    elif vals:
                        start.append(s)
                else:
                    here = vals - s.facts.get(("lex", "not", key), frozenset()) if key else vals
                    if f is not None:
                        both = frozenset(f) & here
                        if both:
                            start.append(s.know(key, both))
                    elif here:
                        start.append(s.know(key, frozenset(here)) if key else s)
            blk = dict(k="Block", l=labs[0]["l"], s=ss)
            self.keepalive.append(blk)
            sub = self.stmt(blk, merge(start))
            for w in ("ret", "cont", "goto"):
                ex[w] += sub[w]
            body += sub["brk"]
            fall = sub["next"]
        body += fall
        if not default:
            for s in cur:
                f = s.facts.get(key) if key else None
                if f is None or frozenset(f) - named:
                    body.append(s)
        body = [s if not key or key[0] == "lex" else s for s in body]
        ex["next"] = merge(body)
        return ex

    keepalive = []

    def subject(self, c):
        c = bare(c)
        if c is None:
            return None
        if c["k"] == "Ref" and c.get("dk") in ("local", "param"):
            return ("var", c["id"])
        if c["k"] == "MCall" and last(c.get("fn")) == "kind" and (bare(c["obj"]) or {}).get("k") == "Ref":
            off = [x.get("cv") for x in (bare(a) for a in c["a"]) if x is not None]
            return ("lex", bare(c["obj"])["id"], tuple(off))
        return None


PRIMITIVE = {"start", "start_no_guard", "end_impl", "token", "empty", "fake", "error_token", "error_end", "fail", "skip", "pop", "space", "newline", "at", "print", "trace", "getLocMsg", "treeDepth",
             "back", "pending", "report", "fatalError", "getLoc", "error_value", "expect", "getEmpty", "printLexerToString", "maybe_error_end", "maybe_recursive_error_end"}


# what the interpretation above takes for granted: (function, must reach a call of, the kind it is given must be handed on)
BASE = (("start", "startTree"), ("token", "token"), ("empty", "token"), ("fake", "token"), ("end_impl", "endTree"), ("error_token", "token"))


def primitives(units, report):
    fns, seen = {}, 0
    for u in UNITS[:2]:
        for d in units[u]["decls"]:
            if d.get("d") == "fn" and d.get("body") and d.get("clsq", "").startswith(PARSER):
                fns.setdefault((d["clsq"], d["name"]), {}).setdefault((d["file"], d["l"]), d)

    def rel(d):
        return os.path.relpath(d["file"], REPO)

    def reaches(d, goal, done):
        if id(d) in done:
            return False
        done.add(id(d))
        for n in walk(d["body"]):
            if n["k"] != "MCall":
                continue
            if last(n.get("fn")) == goal and "NodeGroup" in n.get("cls", ""):
                return True
            if n.get("cls") == PARSER and any(reaches(c, goal, done) for c in fns.get((PARSER, last(n.get("fn"))), {}).values()):
                return True
        return False

    for name, goal in BASE:
        for d in fns.get((PARSER, name), {}).values():
            seen += 1
            if not reaches(d, goal, set()):
                report(d["l"], "primitive", name, f"{name} does not add to the tree any more: no call of {goal} is reached", rel(d))
            for p in d["params"]:
                if "OrgNodeKind" in p["t"] and not any(n["k"] in ("MCall", "Call", "Ctor", "InitList") and any((bare(a) or {}).get("id") == p["id"] for a in n.get("a") or []) for n in walk(d["body"])):
                    report(d["l"], "primitive", name, f"{name} does not hand on the kind it is given", rel(d))
    for d in fns.get((PARSER, "getEmpty"), {}).values():
        seen += 1
        kinds = {n["name"] for n in walk(d["body"]) if n["k"] == "Ref" and n.get("dk") == "enum" and n.get("qual", "").startswith("OrgNodeKind::")}
        if kinds and kinds != {"Empty"}:
            report(d["l"], "primitive", "getEmpty", f"the node for an absent child has the kind {', '.join(sorted(kinds))}", rel(d))
    for d in fns.get((PARSER + "::NodeGuard", "end"), {}).values():
        seen += 1
        calls = [n for n in walk(d["body"]) if n["k"] == "MCall" and last(n.get("fn")) in ("end_impl", "endTree")]
        if not calls:
            report(d["l"], "primitive", "end", "ending a guard does not end its node", rel(d))
        flag = [n for n in walk(d["body"]) if n["k"] == "Bin" and n["op"] == "=" and (bare(n["a"]) or {}).get("name") == "closed"]
        if any((bare(n["b"]) or {}).get("cv", "1") in ("0", "false") for n in flag) or not flag and any(n.get("name") == "closed" for n in walk(d["body"])):
            report(d["l"], "primitive", "end", "an ended guard is not marked as closed: its destructor ends a second node", rel(d))
    return seen


def show(c):
    return "|".join(k + ("<" + ",".join(sorted(t)) + ">" if t else "") for k, t in c)


def check(tier):
    res = Result("C26")
    res.level = "other"
    units = astq.facts(UNITS)
    spec = specification(units[UNITS[2]])
    file = "src/haxorg/parse/OrgParser.cpp"
    said = set()

    def report(line, rule, about, what, where=file):
        if (rule, about, line) not in said:
            said.add((rule, about, line))
            res.violation(f"{rule} {about}", f"{where}:{line}", rule, what)

    p = Parser({u: units[u] for u in UNITS[:2]}, report)
    p.run()
    base = primitives(units, report)
    decided, undecided, nodes = [], [], 0
    for kind, (sl, fl) in spec.items():
        at = [i for i, o, _ in fl]
        if at and None not in at and (sorted(at) != list(range(len(at))) or any(o and i != max(at) for i, o, _ in fl)):
            res.violation(f"positions {kind}", f"src/haxorg/parse/OrgSpec.cpp:{sl}", "positions-distinct", f"the fields of {kind} are at {sorted(at)}: two fields share a position or one is left out")
        for nm in {n for _, _, n in fl if [x for _, _, x in fl].count(n) > 1}:
            res.violation(f"names {kind}", f"src/haxorg/parse/OrgSpec.cpp:{sl}", "names-distinct", f"two fields of {kind} have the name {nm}")
    for kind, names in NODES.items():
        if kind not in spec:
            undecided.append(kind + " (no specification found)")
            continue
        sl, fl = spec[kind]
        if not fl or any(i is None for i, _, _ in fl):
            undecided.append(kind + " (positions not literal)")
            continue
        fixed = {i: nm for i, o, nm in fl if not o}
        tail = [nm for i, o, nm in fl if o]
        n = len(fixed)
        if sorted(fixed) != list(range(n)):
            continue
        ends = p.ended.get(kind, {})
        if not ends:
            undecided.append(kind + " (never completed in what was analysed)")
            continue
        for line, ways in sorted(ends.items()):
            for ch, t in ways:
                nodes += 1
                if ch is None:
                    undecided.append(f"{kind} ended at line {line}: children not tracked")
                    continue
                if t is not None and any(k == ANY for k, _ in t) and (len(ch) < n or not tail):
                    undecided.append(f"{kind} ended at line {line}: children not tracked")
                    continue
                lays = " ".join(show(c) for c in ch) + (" ..." if t is not None else "")
                if len(ch) < n or (not tail and (len(ch) > n or t is not None)):
                    report(line, "children-count", kind, f"{kind} can be completed here with the children [{lays}], but its specification names {n}{' and more' if tail else ''}: " + ", ".join(fixed[i] for i in range(n)))
                    continue
                bad = None
                rest = [(i, tail[0]) for i in range(n, len(ch))] + ([(len(ch), tail[0])] if t is not None else []) if tail else []
                place = [(i, fixed[i], ch[i]) for i in range(n)] + [(i, nm, ch[i] if i < len(ch) else t) for i, nm in rest]
                for i, nm, c in place:
                    ok = names.get(nm)
                    if ok is None:
                        continue
                    ok = allowed(ok)
                    for k, tok in c:
                        if k == ANY:
                            continue
                        if k not in ok or ok[k] is not None and tok is not None and not tok <= ok[k]:
                            bad = f"{kind} completed here has {show(((k, tok),))} at position {i}, where its specification has {nm} ({names[nm]})"
                if bad:
                    report(line, "children-kind", kind, bad)
                else:
                    decided.append(f"{kind} {line}")
    res.coverage = dict(nodes=len(set(decided)), completions=nodes, functions=len(p.summary), primitives=base, undecided=undecided, not_followed=sorted(f"{k}: {v}" for k, v in p.vague.items()),
                        explanation="for every node the parser completes on a successful path: the children it can have then, against the positions named in getOrgSpec")
    res.extra["summary"] = f"{len(set(decided))} completions of {len({d.split()[0] for d in decided})} kinds of node decided, {len(undecided)} undecided"
    return astq.settle(res, units)
