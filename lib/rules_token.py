"""Which text becomes which token: at every place of the tokenizer that makes a
token, the conditions that dominate it are collected as facts about the text at
the cursor, and compared with the table of the notation in token_oracle.txt."""
import os, re
import astq, common
from common import Result

UNIT = "src/haxorg/base_lexer/base_token_tokenize.cpp"
QUERY = {"get", "current", "is_at", "is_iat", "is_at_any_of", "is_at_all_of", "is_at_thing", "has_pos", "has_text", "can_search", "peek", "eof", "try_lexy_patt", "try_lexy_tok", "lexy_substr", "lexy_view", "lexy_input", "format", "is_last_line_char", "is_at_unicode", "position", "getLine", "getColumn", "getRecall"}
NEUTRAL = {"has_pos", "has_text", "can_search", "eof", "is_last_line_char", "is_at_unicode"}
MAKE = {"token0", "token1", "token_adv", "range_token"}
CLASSES = {"isalnum", "isalpha", "isdigit", "isspace", "isupper", "islower", "ispunct"}


def oracle():
    sym, word, table, made = {}, {}, {}, []
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "token_oracle.txt")) as f:
        for ln in f:
            if not ln.strip() or ln.startswith("# "):
                continue
            p = ln.rstrip("\n").split("\t")
            if p[0] == "sym":
                s = p[2].encode().decode("unicode_escape")
                sym.setdefault(p[1], []).append((s, None if p[3] == "-" else int(p[3])))
            elif p[0] == "word":
                word.setdefault(p[1], []).append(tuple(p[2].split()))
            elif p[0] == "made":
                made.append(p[1])
            elif p[0] == "cmd":
                table[p[1]] = (p[2], p[3])
    return sym, word, table, made


def num(n):
    n = bare(n)
    try:
        return int(n["cv"])
    except (KeyError, TypeError, ValueError):
        return None


def bare(n):
    while isinstance(n, dict):
        if n.get("k") in ("DefArg", "Cast", "Paren", "Temp", "Bind") and isinstance(n.get("e"), dict) and "cv" not in n:
            n = n["e"]
        elif n.get("k") == "Ctor" and [a for a in n.get("a", []) if a.get("k") != "DefArg"].__len__() == 1:
            n = [a for a in n["a"] if a.get("k") != "DefArg"][0]
        else:
            break
    return n


def text(n):
    n = bare(n)
    return n.get("v") if isinstance(n, dict) and n.get("k") == "Str" else None


def short(n):
    return (n.get("fn") or "").rsplit("::", 1)[-1]


def kind_of(n):
    n = bare(n)
    if n.get("k") == "Ref" and n.get("dk") == "enum" and "OrgTokenKind" in n.get("qual", ""):
        return n["name"]


class Cond:
    """what a condition says about the text: facts when it holds (t) and when it
    does not (f), whether it is exactly the conjunction t, and whether more than
    that may be known on either side"""
    def __init__(s, t=None, f=None, exact=False, tu=False, fu=False, w=()):
        s.t, s.f, s.exact, s.tu, s.fu, s.w = t or {}, f or {}, exact, tu, fu, tuple(w)


def meet(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r[k] & v if k in r else v
    return r


def cond(n):
    n = bare(n)
    k = n.get("k")
    if k == "Un" and n.get("op") == "!":
        c = cond(n["e"])
        return Cond(c.f, c.t if c.exact else {}, False, c.fu or bool(c.w), c.tu or bool(c.w) or (bool(c.t) and not c.exact))
    if k == "Bin" and n.get("op") == "&&":
        a, b = cond(n["a"]), cond(n["b"])
        return Cond(meet(a.t, b.t), {}, a.exact and b.exact, a.tu or b.tu, a.fu or b.fu or bool(a.f) or bool(b.f), a.w + b.w)
    if k == "Bin" and n.get("op") == "||":
        a, b = cond(n["a"]), cond(n["b"])
        return Cond({}, meet(a.f, b.f), False, True, a.fu or b.fu)
    if k in ("Bin", "OpCall") and n.get("op") in ("==", "!="):
        l, r = (n["a"], n["b"]) if k == "Bin" else (n["a"] + [None, None])[:2]
        eq = n["op"] == "=="
        for x, y in ((l, r), (r, l)):
            if x is None or y is None:
                continue
            x, y = bare(x), bare(y)
            if x.get("k") == "MCall" and short(x) == "get" and x.get("cls") == "Cursor" and y.get("chr") and num(y) is not None:
                o = num(x["a"][0])
                if o is not None:
                    f = {o: frozenset([chr(num(y) & 255)])}
                    return Cond(f, {}, True) if eq else Cond({}, f, False)
            if x.get("k") == "Ref" and text(y) is not None:
                return Cond(w=[(text(y), "eq", x.get("id"))]) if eq else Cond(tu=False, fu=True)
            if x.get("k") == "Member" and num(y) is not None and not y.get("chr"):
                return Cond()
        return Cond(tu=True, fu=True)
    if k == "MCall" and short(n) == "starts_with" and text(n["a"][0]) is not None:
        o = bare(n.get("obj") or {})
        return Cond(w=[(text(n["a"][0]), "pre", o.get("id"))])
    if k == "MCall" and n.get("cls") == "Cursor":
        a = n.get("a", [])
        s = short(n)
        if s in NEUTRAL:
            return Cond()
        if s in ("is_at", "is_iat") and len(a) >= 2:
            o, t = num(a[1]), text(a[0])
            if t is None and bare(a[0]).get("chr") and num(a[0]) is not None:
                t = chr(num(a[0]) & 255)
            if o is not None and t:
                return Cond({o + i: frozenset([c.lower(), c.upper()] if s == "is_iat" else [c]) for i, c in enumerate(t)}, {}, True)
        if s in ("is_at_all_of", "is_at_any_of") and len(a) >= 2 and num(a[0]) is not None:
            cs = [chr(num(x) & 255) if bare(x).get("chr") and num(x) is not None else None for x in a[1:]]
            if s == "is_at_all_of":
                return Cond({num(a[0]) + i: frozenset([c]) for i, c in enumerate(cs) if c is not None}, {}, None not in cs)
            if None not in cs:
                return Cond({num(a[0]): frozenset(cs)}, {}, True)
            return Cond()
        if s.startswith("try_lexy"):
            return Cond(tu=True)
    if k == "Call" and short(n) in CLASSES:
        return Cond()
    return Cond(tu=True, fu=True)


class State:
    def __init__(s, facts=None, negs=(), words=(), clean=True):
        s.facts, s.negs, s.words, s.clean = dict(facts or {}), list(negs), tuple(words), clean

    def copy(s):
        return State(s.facts, s.negs, s.words, s.clean)

    def hold(s, c):
        r = s.copy()
        r.facts = meet(r.facts, c.t)
        r.words += c.w
        r.clean = r.clean and not c.tu
        return r

    def fail(s, c):
        r = s.copy()
        r.facts = meet(r.facts, c.f)
        if c.exact and c.t:
            r.negs.append(c.t)
        r.clean = r.clean and not c.fu
        return r

    def moved(s):
        r = s.copy()
        r.facts, r.negs, r.clean = {}, [], False
        return r


class Scan:
    def __init__(s, unit):
        s.sites = []   # (kind, state, length, line, fn)
        s.marks = []   # (kind, state, line): head.kind = K
        s.calls = {}   # function id -> the facts at each call
        s.cuts = []    # (state, object, amount, line)
        s.asks = []    # (state, word, line)
        s.fn = None
        s.fns = {}
        for d in unit["decls"]:
            if d.get("d") == "fn" and d.get("body") and d.get("file", "").endswith(UNIT) and any("Cursor" in p.get("t", "") for p in d.get("params", [])):
                s.fns[d["id"]] = d
        for d in s.fns.values():
            s.fn = d
            s.stmt(d["body"], State())

    # every statement gives the state after it, or None when control leaves
    def stmt(s, n, st):
        if n is None or st is None:
            return st
        k = n.get("k")
        if k == "Block":
            for x in n.get("s", []):
                st = s.stmt(x, st)
                if st is None:
                    return None
            return st
        if k == "If":
            if n.get("init"):
                st = s.stmt(n["init"], st)
            c = Cond(tu=True, fu=True)
            if n.get("cvar"):
                i = [v.get("init") for v in n["cvar"].get("vars", [])]
                st = s.expr(n["cvar"], st)
                if len(i) == 1 and i[0]:
                    c = cond(i[0])
                    if c.t or c.w or c.f:
                        c = Cond(tu=True, fu=True)
                    elif bare(i[0]).get("k") == "MCall" and short(bare(i[0])) == "get":
                        c = Cond(tu=True)
                    elif bare(i[0]).get("k") == "Call":
                        cs = [chr(num(a) & 255) for a in bare(i[0]).get("a", []) if bare(a).get("chr") and num(a) is not None]
                        c = Cond(tu=True, fu=True, w=[("lead:" + cs[0], "lead", None)] if len(cs) == 1 and short(bare(i[0])) == "check_leading" else ())
            else:
                st = s.expr(n["c"], st)
                c = cond(n["c"])
            a = s.stmt(n.get("then"), st.hold(c))
            b = s.stmt(n.get("else"), st.fail(c)) if n.get("else") else st.fail(c)
            if a is None or b is None:
                return b if a is None else a
            r = st.copy() if n.get("else") is None and not s.moves(n) else st.moved()
            r.clean = False
            return r
        if k == "Switch":
            st = s.expr(n["c"], st)
            e = bare(n["c"])
            pos = num(e["a"][0]) if e.get("k") == "MCall" and short(e) == "get" and e.get("cls") == "Cursor" and e.get("a") else None
            body = n.get("body") or {}
            cur, fell = None, False
            for x in body.get("s", []):
                labs, d = [], False
                while x is not None and x.get("k") in ("Case", "Default"):
                    if x["k"] == "Default":
                        d = True
                    else:
                        labs.append(num(x["v"]))
                    x = x.get("s")
                if labs or d:
                    nxt = st.copy()
                    if pos is None or d or None in labs:
                        nxt.clean = nxt.clean and pos is not None and not cur
                    else:
                        nxt.facts = meet(nxt.facts, {pos: frozenset(chr(v & 255) for v in labs)})
                        nxt.clean = nxt.clean or pos == 0
                    if cur is not None:
                        nxt = st.moved()
                    cur = nxt
                if cur is not None and x is not None:
                    cur = s.stmt(x, cur)
            return st.moved()
        if k in ("While", "For", "DoWhile", "Do", "RangeFor", "ForRange"):
            inner = st.moved()
            for key in ("init", "c", "inc", "range"):
                if isinstance(n.get(key), dict):
                    s.expr(n[key], inner)
            if isinstance(n.get("body"), dict):
                w = inner
                s.stmt(n["body"], w)
            return st.moved()
        if k in ("Return", "Break", "Continue", "Throw"):
            if k == "Return" and n.get("e"):
                s.expr(n["e"], st)
            return None
        if k in ("Case", "Default", "Label", "Attr"):
            return s.stmt(n.get("s"), st.moved())
        return s.expr(n, st)

    def moves(s, n):
        for x in astq.walk(n):
            if x["k"] == "MCall" and x.get("cls") == "Cursor" and short(x) not in QUERY:
                return True
            if x["k"] in ("Call", "OpCall", "MCall") and any(isinstance(a, dict) and "Cursor" == (bare(a).get("t") or "").replace("&", "").strip() for a in x.get("a", [])):
                return True
            if x["k"] == "OpCall" and x.get("op") == "()" and str(x.get("cls", "")).startswith("(lambda"):
                return True
            if x["k"] == "Bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and "Member" in str(x.get("a", {}).get("k") if isinstance(x.get("a"), dict) else "") and "Cursor" in str(x["a"].get("cls")):
                return True
        return False

    def expr(s, n, st):
        if not isinstance(n, dict):
            return st
        lambdas = set()
        moved = False
        for x in astq.walk(n):
            if id(x) in lambdas:
                lambdas.update(id(y) for y in astq.kids(x))
                continue
            k = x["k"]
            if k == "Lambda":
                lambdas.update(id(y) for y in astq.kids(x))
                inner = State(words=st.words, clean=False)
                s.stmt(x.get("body"), inner)
                continue
            if k == "MCall" and x.get("cls") == "Cursor" and short(x) in MAKE and x.get("a"):
                s.site(x, st.moved() if moved else st)
            if k == "Call" and x.get("fid") in s.fns:
                s.calls.setdefault(x["fid"], []).append({} if moved else dict(st.facts))
            if k == "Bin" and x.get("op") == "=" and bare(x["a"]).get("k") == "Member":
                K = kind_of(x["b"])
                if K:
                    s.marks.append((K, st, x["l"]))
            if k == "MCall" and short(x) == "substr" and x.get("a"):
                o = bare(x.get("obj") or {})
                if num(x["a"][0]) is not None and o.get("k") == "Ref":
                    s.cuts.append((st, o.get("id"), num(x["a"][0]), x["l"]))
            if k == "OpCall" and x.get("op") == "()":
                for a in x.get("a", [])[1:]:
                    if text(a) and x.get("t") == "int":
                        s.asks.append((st, text(a), x["l"]))
            if not moved and k in ("MCall", "Call", "OpCall", "Un", "Bin") and s.moves({"k": "x", "only": {q: v for q, v in x.items()}}):
                moved = True
        return st.moved() if moved else st

    def site(s, x, st):
        a = x["a"]
        ks = kind_of(a[0])
        f = short(x)
        ln = None
        if f == "token_adv" and len(a) > 1:
            ln = num(a[1])
        elif f in ("token0", "token1") and len(a) > 1:
            h = bare(a[1])
            h = bare(h["e"]) if h.get("k") == "Un" and h.get("op") == "&" else h
            if h.get("k") == "Ref" and h.get("name") == "advance1" and f == "token0":
                ln = 1
            elif h.get("k") == "Ref" and h.get("name") == "advance_count" and f == "token1" and len(a) > 2:
                ln = num(a[2])
        if ks:
            s.sites.append((ks, st.copy(), ln, x["l"], s.fn))


def dead(facts, negs):
    return any(n and all(p in facts and facts[p] <= v for p, v in n.items()) for n in negs) or any(not v for v in facts.values())


def shown(facts):
    return " ".join(f"{p}:" + "/".join(repr(c) for c in sorted(v)) for p, v in sorted(facts.items()))


def whole(facts, sym):
    return set(facts) == set(range(len(sym))) and all(sym[p] in v and len({c.lower() for c in v}) == 1 for p, v in facts.items())


def check(tier="quick"):
    res = Result("C29")
    res.level = "other"
    units = astq.facts([UNIT])
    unit = units[UNIT]
    sym, word, table, made = oracle()
    sc = Scan(unit)
    named, strings = set(), set()
    for d in unit["decls"]:
        if d.get("file", "").endswith(UNIT):
            for part in (d.get("body"), d.get("init")):
                for x in astq.walk(part) if isinstance(part, dict) else ():
                    if x["k"] == "Ref" and x.get("dk") == "enum":
                        named.add(x["name"])
                    if x["k"] == "Str":
                        strings.add(x["v"])
    opened = {f for f, at in sc.calls.items() if any(not a for a in at)}
    cnt = dict(symbols=0, lengths=0, words=0, commands=0, bodies=0, reached=0)
    live, seen = set(), set()
    for K, st, ln, line, fn in sc.sites:
        if not dead(st.facts, st.negs):
            live.add(K)
        seen.add(K)
    kinds = {}
    for K, alts in sym.items():
        for t, _ in alts:
            kinds.setdefault(t, set()).add(K)
    for K, st, ln, line, fn in sc.sites:
        facts = {p: v for p, v in st.facts.items() if p >= 0}
        where = f"{UNIT}:{line}"
        clean = st.clean and fn["id"] in opened
        if K in sym and (facts or ln is not None):
            fit = [(t, n) for t, n in sym[K] if all(p >= len(t) or t[p] in v for p, v in facts.items())]
            cnt["symbols"] += 1
            if not fit:
                res.violation(f"text {K}", where, "token-of-its-text", f"a token {K} is made where the text at the cursor is {shown(facts)}, and it stands for " + " or ".join(repr(t) for t, _ in sym[K]))
                continue
            if clean and facts and not any(all(p in facts for p in range(len(t))) for t, _ in fit):
                res.violation(f"guard {K}", where, "token-of-its-text", f"a token {K} is made where only {shown(facts)} is known about the text, and it stands for " + " or ".join(repr(t) for t, _ in fit))
            if ln is not None:
                cnt["lengths"] += 1
                if not any(n is None or n == ln for _, n in fit):
                    res.violation(f"length {K}", where, "token-takes-its-text", f"a token {K} takes {ln} characters, and it stands for " + " or ".join(repr(t) for t, _ in fit))
        if clean and facts:
            for t, want in kinds.items():
                if whole(facts, t) and K not in want:
                    res.violation(f"kind {t}", where, "token-of-its-text", f"the text {t!r} becomes a token {K} and stands for " + " or ".join(sorted(want)))
    for K in sorted(sym):
        for t, n in sym[K]:
            at = [x for x in sc.sites if x[0] == K and (not x[1].facts or all(p < 0 or p >= len(t) or t[p] in v for p, v in x[1].facts.items()))]
            if n is not None and at and all(x[1].clean and x[4]["id"] in opened and max(x[1].facts, default=-1) >= len(t) for x in at):
                res.violation(f"more {K}", f"{UNIT}:{at[0][3]}", "token-of-its-text", f"the text {t!r} becomes a token {K} only before more text: {shown(at[0][1].facts)}")
        cnt["reached"] += K in live
        if K in seen and K not in live:
            l = [x[3] for x in sc.sites if x[0] == K][0]
            res.violation(f"reach {K}", f"{UNIT}:{l}", "token-reachable", f"a token {K} is never made, the conditions before it already take every text it stands for")
        elif K not in named and len(live & set(sym)) * 10 > len(sym) * 8:
            res.violation(f"none {K}", UNIT, "token-reachable", f"no text becomes a token {K}, which stands for " + " or ".join(repr(t) for t, _ in sym[K]))
    gone = [K for K in made if K not in named and K not in sym and K not in word]
    if len(gone) <= 2:
        for K in gone:
            res.violation(f"none {K}", UNIT, "token-reachable", f"no text becomes a token {K}")
    # words of commands
    byword = {}
    for K, alts in word.items():
        for ws in alts:
            byword.setdefault(ws, set()).add(K)
    for K, st, line in [(m[0], m[1], m[2]) for m in sc.marks] + [(x[0], x[1], x[3]) for x in sc.sites]:
        ws = tuple(w for w, _, _ in st.words)
        if not ws:
            continue
        if K in word:
            cnt["words"] += 1
            if not any(set(ws) <= set(a) for a in word[K]):
                res.violation(f"word {K}", f"{UNIT}:{line}", "token-of-its-word", f"a token {K} is made for the word {'+'.join(ws)}, and it stands for " + " or ".join("+".join(a) for a in word[K]))
        elif len(ws) > 1 and ws in byword and (K, st, line) in sc.marks:
            res.violation(f"word {'+'.join(ws)}", f"{UNIT}:{line}", "token-of-its-word", f"the word {'+'.join(ws)} makes a token {K} and stands for " + " or ".join(sorted(byword[ws])))
    for K in sorted(word):
        if K not in named and any(w in strings for a in word[K] for w in a):
            res.violation(f"none {K}", UNIT, "token-reachable", "no word makes a token " + K)
    for st, obj, amount, line in sc.cuts:
        pre = [w for w, how, o in st.words if how == "pre" and o == obj]
        if pre and amount != len(pre[-1]):
            res.violation(f"cut {pre[-1]}", f"{UNIT}:{line}", "word-after-its-prefix", f"{amount} characters are taken off a word that starts with {pre[-1]!r}")
    blocks = {a[1] for al in word.values() for a in al if len(a) > 1}
    for st, w, line in sc.asks:
        inner = [x for x, how, _ in st.words if how == "eq"]
        if inner and inner[-1] in blocks:
            cnt["words"] += 1
            if w in blocks - {inner[-1]} or re.fullmatch("[a-z]+", w) and len(os.path.commonprefix([w, inner[-1]])) > 1 and not w.endswith(inner[-1]):
                res.violation(f"end {inner[-1]}", f"{UNIT}:{line}", "block-ends-at-its-word", f"the lines of a block {inner[-1]!r} are read up to the end of {w!r}")
    # the table of commands
    rows = {}
    for d in unit["decls"]:
        if d.get("d") != "var" or not d.get("file", "").endswith(UNIT) or not isinstance(d.get("init"), dict):
            continue
        for x in astq.walk(d["init"]):
            if x["k"] in ("Ctor", "InitList") and len(x.get("a", [])) == 2 and text(x["a"][0]) is not None:
                es = {y["t"].rsplit("::", 1)[-1]: y["name"] for y in astq.walk(x["a"][1]) if y["k"] == "Ref" and y.get("dk") == "enum"}
                if "OrgTokenKind" in es:
                    rows.setdefault(text(x["a"][0]), (es["OrgTokenKind"], es.get("CommandType"), x["l"]))
    plain = {re.sub("[^a-z0-9]", "", w.lower()): v for w, v in rows.items()}
    if len(rows) >= 20:
        for w, (K, T) in table.items():
            if w not in plain:
                if not any(re.sub("[^a-z0-9]", "", x.lower()) == w for x in strings):
                    res.violation(f"command {w}", UNIT, "command-has-token", f"no command {w!r} in the table of commands, and the word appears nowhere else")
                continue
            cnt["commands"] += 1
            k, t, line = plain[w]
            if k != K:
                res.violation(f"command {w}", f"{UNIT}:{line}", "command-has-token", f"the command {w!r} makes a token {k} and stands for {K}")
            if t is not None and t != T:
                res.violation(f"rest {w}", f"{UNIT}:{line}", "command-has-token", f"what follows the command {w!r} is read as {t} and not as {T}")
        if any(x["k"] in ("Call",) and (x.get("fn") or "").endswith("normalize") for d in sc.fns.values() for x in astq.walk(d["body"])):
            for w, (k, t, line) in rows.items():
                if re.search(r"[^a-z0-9]", w):
                    res.violation(f"key {w}", f"{UNIT}:{line}", "command-can-be-found", f"the command {w!r} is looked up without its separators and is never found")
    # how the rest of a command is read
    MARK = {"Raw": "RawText", "Args": "switch_cmd_argument", "Text": "switch_regular_char"}
    for d in sc.fns.values():
        lam = {}
        for x in astq.walk(d["body"]):
            if x["k"] == "Decl":
                for v in x.get("vars", []):
                    if isinstance(v.get("init"), dict):
                        for y in astq.walk(v["init"]):
                            if y["k"] == "Lambda":
                                lam[v["id"]] = lam.get(v["id"], set()) | {z.get("name") or short(z) for z in astq.walk(y) if z["k"] in ("Ref", "Call")} | {short(z) for z in astq.walk(y) if z["k"] == "Call"}
        for x in astq.walk(d["body"]):
            if x["k"] == "Case" and isinstance(x.get("v"), dict) and bare(x["v"]).get("k") == "Ref" and bare(x["v"]).get("name") in MARK and "CommandType" in bare(x["v"]).get("qual", ""):
                T = bare(x["v"])["name"]
                got = set()
                for y in astq.walk(x.get("s") or {"k": "x"}):
                    if y["k"] == "Ref":
                        got |= {m for m in MARK if MARK[m] in lam.get(y.get("id"), ())}
                        got |= {m for m in MARK if MARK[m] == y.get("name")}
                    if y["k"] == "Call":
                        got |= {m for m in MARK if MARK[m] == short(y)}
                if got:
                    cnt["bodies"] += 1
                    if T not in got:
                        res.violation(f"rest of {T}", f"{UNIT}:{x['l']}", "rest-of-command", f"what follows a command of type {T} is read as {'/'.join(sorted(got))}")
    res.coverage = dict(analysed=dict(cnt, sites=len(sc.sites), marks=len(sc.marks)), explanation="every place of the tokenizer that makes a token, with the facts about the text that dominate it, against the table of the notation; places under conditions that are not understood are judged for contradictions only")
    res.extra["summary"] = f"{len(sc.sites) + len(sc.marks)} places, {cnt['symbols']} texts, {cnt['lengths']} lengths, {cnt['words']} words, {cnt['commands']} commands"
    return astq.settle(res, units)


if __name__ == "__main__":
    sc = Scan(astq.facts([UNIT])[UNIT])
    for K, st, ln, line, fn in sc.sites:
        print(line, fn["name"], K, ln, shown(st.facts), [w[0] for w in st.words], "clean" if st.clean else "", "dead" if dead(st.facts, st.negs) else "")
    for K, st, line in sc.marks:
        print(line, K, [w[0] for w in st.words])
