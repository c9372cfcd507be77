"""Abstract interpretation of optimised LLVM IR for proof obligations.

An obligation is a function `obl_*` compiled together with the sources of
/repo.  The compiler inlines the code under analysis into it; this module then
runs a path-partitioned abstract interpretation over its control flow graph.
The domain is: integer/pointer SSA values as linear expressions over atoms
(parameters, loaded cells, uninterpreted operations), a polyhedron of linear
constraints per partition, and a store for memory cells with known address.
Loops are entered once with their induction variables generalised
(phi = init + step * n, n >= 0) and everything else the loop writes havocked,
so one pass covers every iteration.

An obligation is discharged when no event forbidden in it is reachable in the
abstraction: a call of @violation, falling into `unreachable` (undefined
behaviour), a trap of the compiler's overflow instrumentation, and, unless the
obligation allows it, a throw.
"""
import math, re, struct, sys
from fractions import Fraction
import reals
from linarith import Lin, empty, witness

# ------------------------------------------------------------------- parsing
REAL = ("float", "double", "x86_fp80")
TYPE_RE = re.compile(r"^(i\d+|ptr|void|float|double|x86_fp80|half|\{.*?\}|\[.*?\]|<.*?>|%[\w.\"\-:<>, *]+)")


class Instr:
    __slots__ = ("res", "op", "text", "dbg")

    def __init__(self, res, op, text, dbg):
        self.res, self.op, self.text, self.dbg = res, op, text, dbg


class Func:
    def __init__(self, name, params, blocks, order, attrs):
        self.name, self.params, self.blocks, self.order, self.attrs = name, params, blocks, order, attrs


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == sep and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def read_type(s):
    """returns (type, rest)"""
    s = s.lstrip()
    if s[0] in "{[<":
        depth = 0
        q = False
        for i, ch in enumerate(s):
            if ch == '"':
                q = not q
            if q:
                continue
            if ch in "{[<(":
                depth += 1
            elif ch in "}])>":
                depth -= 1
                if depth == 0:
                    return s[: i + 1], s[i + 1 :].lstrip()
    if s[0] == "%":
        if s[1] == '"':
            j = s.index('"', 2) + 1
        else:
            m = re.match(r"%[\w.$\-]+", s)
            j = m.end()
        return s[:j], s[j:].lstrip()
    m = re.match(r"[a-z][\w]*", s)
    t = s[: m.end()]
    rest = s[m.end() :].lstrip()
    if t == "ptr":
        m = re.match(r"addrspace\(\d+\)\s*", rest)
        if m:
            rest = rest[m.end() :]
    return t, rest


PATTR = re.compile(
    r"^(noundef|nonnull|readonly|readnone|writeonly|nocapture|noalias|signext|zeroext|inreg|returned|immarg|noinline|range\([^)]*\)|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|sret\((?:[^()]|\([^()]*\))*\)|byval\((?:[^()]|\([^()]*\))*\)|captures\([^)]*\)|nofree|dead_on_unwind|writable|noreturn|swiftself|allocptr|allocalign)\s*"
)


def strip_attrs(s):
    while True:
        m = PATTR.match(s)
        if not m:
            return s
        s = s[m.end() :]


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.types = {}
        self.decl_attrs = {}
        self.attrgroups = {}
        self.globals = {}
        self.meta = {}
        self._constants, self._throwers = {}, {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                name, _, t = l.partition(" = type ")
                self.types[name.strip()] = t.strip()
            elif l.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrgroups[m[1]] = m[2]
            elif l.startswith("declare "):
                m = re.search(r'@("[^"]+"|[\w.$\-]+)\(', l)
                if m:
                    ag = re.findall(r"#\d+", l)
                    self.decl_attrs[m[1].strip('"')] = (l, ag)
            elif l.startswith("!") and " = " in l:
                k, _, v = l.partition(" = ")
                self.meta[k] = v
            elif l.startswith("@"):
                m = re.match(r'@("[^"]+"|[\w.$\-]+) = (.*)', l)
                if m:
                    self.globals[m[1].strip('"')] = m[2]
            elif l.startswith("define "):
                j = i
                while lines[j] != "}":
                    j += 1
                self.parse_func(lines[i : j + 1], i)
                i = j
            i += 1

    def is_subtype(self, t, c):
        """whether a handler for c catches a thrown t; None when not known"""
        if t == c:
            return True
        if re.match(r"@_ZTI(K?[a-z]|K?P.*)$", t) or re.match(r"@_ZTI(K?[a-z]|K?P.*)$", c):
            return None if t[5] in "PK" and c[5] in "PK" else False
        if t in STD_BASES:
            return self.is_subtype(STD_BASES[t], c) if STD_BASES[t] else False
        g = self.globals.get(t[1:], "")
        if "_class_type_info" not in g:
            return None
        rs = [self.is_subtype(b, c) for b in re.findall(r"ptr (@_ZTI[\w.$]+)", g)]
        return True if True in rs else None if None in rs else False

    def parse_func(self, lines, base):
        head = lines[0]
        m = re.search(r'@("[^"]+"|[\w.$\-]+)\(', head)
        name = m[1].strip('"')
        s = head[m.end() :]
        depth = 1
        for k, ch in enumerate(s):
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0:
                    break
        params = []
        for p in split_top(s[:k]):
            if p == "...":
                continue
            t, rest = read_type(p)
            rest = strip_attrs(rest)
            params.append((t, rest.strip()))
        attrs = s[k + 1 :]
        blocks, order = {}, []
        cur = str(len(params))
        # unnamed params and blocks share the counter
        unnamed = sum(1 for t, nme in params if re.match(r"%\d+$", nme))
        cur = str(unnamed)
        first = True
        body = []
        joined = []
        k = 1
        while k < len(lines) - 1:
            l = lines[k]
            # join multi-line switch / landingpad clauses
            if re.match(r"\s+switch .*\[\s*$", l):
                while not lines[k].strip().endswith("]") and "]" not in lines[k].strip()[-3:]:
                    k += 1
                    l += " " + lines[k].strip()
                    if lines[k].strip().startswith("]"):
                        break
            elif re.search(r"= landingpad", l):
                while k + 1 < len(lines) - 1 and re.match(r"\s+(catch|cleanup|filter)\b", lines[k + 1]):
                    k += 1
                    l += " " + lines[k].strip()
            elif re.match(r"\s+(%\S+ = )?invoke ", l) and " unwind label" not in l:
                k += 1
                l += " " + lines[k].strip()
            joined.append((base + k, l))
            k += 1
        for ln, l in joined:
            if not l.strip():
                continue
            mm = re.match(r'^("[^"]+"|[\w.$\-]+):', l)
            if mm:
                cur = mm[1].strip('"')
                blocks[cur] = []
                order.append(cur)
                first = False
                continue
            if first:
                blocks[cur] = []
                order.append(cur)
                first = False
            t = l.strip()
            dbg = re.search(r"!dbg (!\d+)", t)
            # strip metadata
            t = re.sub(r"(, ![\w.]+( ![\w.]+|\s*!\d+)?)+$", "", t)
            t = re.sub(r", !\w+ !\d+", "", t)
            res = None
            mm = re.match(r'^(%(?:"[^"]+"|[\w.$\-]+)) = (.*)$', t)
            if mm:
                res, t = mm[1], mm[2]
            t = re.sub(r"^(tail|musttail|notail) ", "", t)
            op = t.split(" ", 1)[0]
            blocks[cur].append(Instr(res, op, t, dbg[1] if dbg else None))
        self.funcs[name] = Func(name, params, blocks, order, attrs)

    # ---- debug locations
    def scope_info(self, sc):
        name = None
        for _ in range(20):
            d = self.meta.get(sc, "")
            m = re.search(r"file: (!\d+)", d)
            f = self.meta.get(m[1], "") if m else ""
            fn = re.search(r'filename: "([^"]*)"', f)
            dr = re.search(r'directory: "([^"]*)"', f)
            if "DISubprogram" in d:
                n = re.search(r'name: "([^"]*)"', d)
                path = fn[1] if fn else "?"
                if not path.startswith("/") and dr:
                    path = dr[1] + "/" + path
                return (n[1] if n else "?"), path
            m = re.search(r"scope: (!\d+)", d)
            if not m:
                break
            sc = m[1]
        return "?", "?"

    def where(self, dbg):
        """frames (innermost first) of an instruction: file:line (function)"""
        out = []
        while dbg and dbg in self.meta and len(out) < 30:
            d = self.meta[dbg]
            ln = re.search(r"line: (\d+)", d)
            sc = re.search(r"scope: (!\d+)", d)
            n, f = self.scope_info(sc[1]) if sc else ("?", "?")
            out.append(f"{f}:{ln[1] if ln else 0} ({n})")
            m = re.search(r"inlinedAt: (!\d+)", d)
            dbg = m[1] if m else None
        return out

    def inlined_functions(self, func, root="/repo/"):
        """functions of the analysed sources that were inlined into `func`"""
        out, seen = set(), set()
        work = [i.dbg for b in self.funcs[func].blocks.values() for i in b if i.dbg]
        while work:
            d = work.pop()
            if d in seen or d not in self.meta:
                continue
            seen.add(d)
            sc = re.search(r"scope: (!\d+)", self.meta[d])
            if sc:
                n, f = self.scope_info(sc[1])
                if root in f:
                    out.add(f"{f}:{n}")
            m = re.search(r"inlinedAt: (!\d+)", self.meta[d])
            if m:
                work.append(m[1])
        return sorted(out)

    # ---- type sizes (x86-64 layout)
    def size_align(self, t):
        t = t.strip()
        if t == "ptr":
            return 8, 8
        m = re.match(r"^i(\d+)$", t)
        if m:
            b = int(m[1])
            s = 1
            while s * 8 < b:
                s *= 2
            return s, min(s, 16)
        if t == "float":
            return 4, 4
        if t == "double":
            return 8, 8
        if t == "x86_fp80":
            return 16, 16
        m = re.match(r"^\[(\d+) x (.*)\]$", t)
        if m:
            s, a = self.size_align(m[2])
            return s * int(m[1]), a
        m = re.match(r"^<(\d+) x (.*)>$", t)
        if m:
            s, a = self.size_align(m[2])
            return s * int(m[1]), s * int(m[1])
        if t.startswith("<{"):
            return sum(self.size_align(x)[0] for x in split_top(t[2:-2])), 1
        if t.startswith("{"):
            off, al = 0, 1
            for x in split_top(t[1:-1]):
                s, a = self.size_align(x)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if t in self.types:
            return self.size_align(self.types[t])
        raise ValueError("size of " + t)

    def only_throws(self, name):
        """types thrown by a function of this module that is only ever left by throwing"""
        if name not in self._throwers:
            self._throwers[name] = ()
            types = []
            body = [i for b in self.funcs[name].blocks.values() for i in b] if name in self.funcs else []
            for ins in body:
                if ins.op == "ret" or "@violation" in ins.text or any(f"@{x}(" in ins.text for x in ABORT):
                    types = None
                    break
                m = re.search(r"@__cxa_throw\(ptr [^,]*, ptr [^,@]*(@[\w.$]+)", ins.text)
                if m:
                    types.append(m[1])
            if types:
                self._throwers[name] = tuple(sorted(set(types)))
        return self._throwers[name]

    def recursive(self, name):
        """whether a function of this module is one that calls itself"""
        f = self.funcs.get(name)
        return f is not None and any(i.op in ("call", "invoke") and re.search(r'@"?%s"?\(' % re.escape(name), i.text) for b in f.blocks.values() for i in b)

    def constants(self, name):
        """{offset: (size, type, text)} of the scalars of a constant variable;
        None when it may change or its value is not in this module"""
        if name not in self._constants:
            self._constants[name] = None
            m = re.match(r"((?!external|extern_weak)[\w.()]+ )*constant ", self.globals.get(name.strip('"'), ""))
            if m and not re.search(r"\b(external|extern_weak|weak|linkonce|common|thread_local)\b(?!_)", m[0]):
                out = {}
                try:
                    t, rest = read_type(self.globals[name.strip('"')][m.end():])
                    self.scalars(t, split_top(rest)[0], 0, out)
                    self._constants[name] = out
                except (ValueError, IndexError):
                    pass
        return self._constants[name]

    def scalars(self, t, text, at, out):
        text = text.strip()
        while t in self.types:
            t = self.types[t]
        if len(out) > 4096:
            raise ValueError("large")
        if t[0] in "[{<":
            if t[0] == "<" and not t.startswith("<{"):
                raise ValueError(t)
            if text.startswith('c"'):
                data = re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m[1], 16)]), text[2:-1].encode("latin1"))
                for i, c in enumerate(data):
                    out[at + i] = (1, "i8", str(c))
                return
            array = re.match(r"^\[(\d+) x (.*)\]$", t)
            parts = [array[2]] * int(array[1]) if array else self.fields(t)[0]
            if text == "zeroinitializer":
                vals = [None] * len(parts)
            elif text[0] in "[{<":
                cut = 2 if text.startswith("<{") else 1
                vals = [read_type(x)[1] for x in split_top(text[cut:-cut])]
            else:
                raise ValueError(text)
            packed = t.startswith("<{")
            if len(vals) != len(parts):
                raise ValueError(text)
            for p, v in zip(parts, vals):
                s, a = self.size_align(p)
                if not packed:
                    at = (at + a - 1) // a * a
                self.scalars(p, "zeroinitializer" if v is None else v, at, out)
                at += s
            return
        out[at] = (self.size_align(t)[0], t, text)

    def fields(self, t):
        t = t.strip()
        while t in self.types:
            t = self.types[t]
        if t.startswith("<{"):
            return split_top(t[2:-2]), True
        if t.startswith("{"):
            return split_top(t[1:-1]), False
        return None, False

    def field_offset(self, t, idx):
        fs, packed = self.fields(t)
        off = 0
        for n, x in enumerate(fs):
            s, a = self.size_align(x)
            if not packed:
                off = (off + a - 1) // a * a
            if n == idx:
                return off, x
            off += s
        raise IndexError


# ------------------------------------------------------------------ analysis
class Event:
    def __init__(self, kind, what, state, dbg):
        self.kind, self.what, self.dbg = kind, what, dbg
        self.cons = list(state.cons)
        self.trail = list(state.trail)
        self.loopy = state.loopy
        self.opaque = state.opaque


class State:
    __slots__ = ("env", "cons", "mem", "memver", "trail", "loopy", "opaque", "visited", "escaped", "allocas", "steps", "lver", "thrown", "caught")

    def __init__(self):
        self.env = {}
        self.cons = []
        self.mem = {}
        self.memver = 0
        self.lver = "L"
        self.trail = []
        self.loopy = False
        self.opaque = False
        self.visited = ()
        self.escaped = frozenset()
        self.allocas = frozenset()
        self.thrown = None  # the exception in flight: (type, address)
        self.caught = ()

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.cons = list(self.cons)
        s.mem = dict(self.mem)
        s.memver, s.lver = self.memver, self.lver
        s.trail = list(self.trail)
        s.loopy, s.opaque, s.visited = self.loopy, self.opaque, self.visited
        s.escaped, s.allocas = self.escaped, self.allocas
        s.thrown, s.caught = self.thrown, self.caught
        return s


class TooComplex(Exception):
    pass


ANY_TYPE = "any"
TERMINATE = ("_ZSt9terminatev", "__clang_call_terminate")
ABORT = ("abort", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "exit")


def is_throw(name):
    return name in ("__cxa_throw", "__cxa_rethrow") or name.startswith("_ZSt") and "__throw_" in name


STD_BASES = {"logic_error": "exception", "runtime_error": "exception", "invalid_argument": "logic_error", "domain_error": "logic_error", "length_error": "logic_error",
             "out_of_range": "logic_error", "range_error": "runtime_error", "overflow_error": "runtime_error", "underflow_error": "runtime_error",
             "bad_alloc": "exception", "bad_cast": "exception", "bad_function_call": "exception", "exception": None}
STD_BASES = {f"@_ZTISt{len(k)}{k}": f"@_ZTISt{len(v)}{v}" if v else None for k, v in STD_BASES.items()}
LIBRARY_THROWS = {f"_ZSt{len(f)}{f}{a}": f"@_ZTISt{len(t)}{t}" for f, a, t in (
    ("__throw_length_error", "PKc", "length_error"), ("__throw_out_of_range", "PKc", "out_of_range"), ("__throw_out_of_range_fmt", "PKcz", "out_of_range"),
    ("__throw_logic_error", "PKc", "logic_error"), ("__throw_invalid_argument", "PKc", "invalid_argument"), ("__throw_bad_alloc", "v", "bad_alloc"),
    ("__throw_bad_function_call", "v", "bad_function_call"), ("__throw_bad_cast", "v", "bad_cast"), ("__throw_runtime_error", "PKc", "runtime_error"))}


def bits_of(t):
    m = re.match(r"^i(\d+)$", t)
    if m:
        return int(m[1])
    if t == "ptr":
        return 64
    return None


class Analyzer:
    MAX_PATHS = 4000
    MAX_STEPS = 200000

    def __init__(self, module, func, allow_throw=(), pure=()):
        self.m = module
        self.f = module.funcs[func]
        self.allow_throw = allow_throw  # None: any throw is fine; (): none
        self.contain = func.startswith("oblc_")  # exceptions may be thrown but not leave
        self.events = []
        self.paths = 0
        self.branches = 0
        self.nsteps = 0
        self.fresh = 0
        self.words = {}
        self.bwform = {}
        self.fbits = {}
        self.cats = {}
        self.left = 0
        self.alignment = {}
        self.typeids = {}
        self._packing = None
        self._eventful = None  # of addresses
        self.inside, self.tag, self.leaving = (), "", None  # calls being followed
        self._contexts = {}
        self.cfg()

    # ---- cfg
    def succ(self, b):
        t = self.f.blocks[b][-1]
        return re.findall(r"label (%(?:\"[^\"]+\"|[\w.$\-]+))", t.text)

    def cfg(self):
        self.succs = {b: [x[1:].strip('"') for x in self.succ(b)] for b in self.f.order}
        # loops: back edges by DFS, natural loop bodies
        color, back = {}, []
        stack = [(self.f.order[0], iter(self.succs[self.f.order[0]]))]
        color[self.f.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs[s])))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        post, seen = [], {self.f.order[0]}
        stack = [(self.f.order[0], iter(self.succs[self.f.order[0]]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        preds = {}
        for b, ss in self.succs.items():
            for s in ss:
                preds.setdefault(s, []).append(b)
        self.preds = preds
        self.loops = {}
        for t, h in back:
            body = self.loops.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        self.latches = {}
        for t, h in back:
            self.latches.setdefault(h, set()).add(t)

    # ---- helpers
    def newatom(self, hint):
        self.fresh += 1
        return f"{hint}#{self.fresh}"

    def rng(self, st, e, bits):
        """assume e is in the signed range of the width"""
        if e.is_const():
            return
        st.cons.append(e.plus(-(2 ** (bits - 1) - 1)))
        st.cons.append(e.scale(-1).plus(-(2 ** (bits - 1))))

    def entails_le(self, st, e):
        """cons => e <= 0"""
        if e.is_const():
            return e.k <= 0
        return empty(st.cons + [e.scale(-1).plus(1)])

    def feasible(self, st):
        return not empty(st.cons)

    def const(self, tok, bits):
        if tok in ("true", "false"):
            return Lin.const(-1 if tok == "true" and bits == 1 else (1 if tok == "true" else 0))
        if re.match(r"^-?\d+$", tok):
            v = int(tok)
            if bits:
                v &= 2 ** bits - 1
                if v >= 2 ** (bits - 1):
                    v -= 2 ** bits
            return Lin.const(v)
        return None

    def val(self, st, tok, t):
        tok = tok.strip()
        if tok.startswith("%"):
            v = st.env.get(tok)
            if v is None:
                raise TooComplex("undefined " + tok)
            return v
        if t == "i1":
            if tok in ("true", "1"):
                return ("T",)
            if tok in ("false", "0"):
                return ("F",)
        if t in REAL and re.match(r"^(-?\d|0x)", tok):
            c = reals.parse(tok, t)
            return c if c is not None else reals.atom(("cell", tok))
        if tok == "null":
            return Lin.const(0)
        if tok in ("undef", "poison", "zeroinitializer"):
            if tok == "zeroinitializer":
                return Lin.const(0)
            return (reals.atom if t in REAL else Lin.atom)(self.newatom("undef"))
        if tok.startswith("@"):
            return Lin.atom(tok)
        b = bits_of(t)
        c = self.const(tok, b)
        if c is not None:
            return c
        m = re.match(r"^getelementptr.*", tok)
        if m or tok.startswith(("ptrtoint", "inttoptr", "sub (", "icmp")):
            return Lin.atom(tok)
        return Lin.atom(tok)

    def as_int(self, st, v, bits=1):
        """i1 formula used as a number -> caller splits"""
        return v

    # formulas: ("T",) ("F",) ("le", Lin)  means Lin<=0 ; ("eq", Lin) ; ("ne", Lin)
    #           ("and", a, b) ("or", a, b) ("not", a) ("atom", name)
    def neg(self, f):
        k = f[0]
        if k == "T":
            return ("F",)
        if k == "F":
            return ("T",)
        if k == "le":
            return ("le", f[1].scale(-1).plus(1))
        if k == "eq":
            return ("ne", f[1])
        if k == "ne":
            return ("eq", f[1])
        if k == "and":
            return ("or", self.neg(f[1]), self.neg(f[2]))
        if k == "or":
            return ("and", self.neg(f[1]), self.neg(f[2]))
        if k == "not":
            return f[1]
        if k == "atom":
            return ("not", f)
        raise TooComplex(k)

    # values the analysis only knows the type of: branching on one of them
    # makes everything behind the branch imprecise
    PEEL = 4
    UNROLL = 300
    VAGUE = ("undef", "cell", "loop", "vec", "vcmp", "vsel", "cvt", "agg", "ev", "rmw", "cas", "call.", "icall", "cpy", "mv#", "b#", "i#")
    KNOWN_CALLS = ("call.any_", "call.coin", "call.may_throw")

    def vague_atom(self, a):
        if isinstance(a, str):
            return a.startswith(self.VAGUE) and not a.startswith(self.KNOWN_CALLS)
        if isinstance(a, tuple) and a:
            if a[0] in ("op", "f", "intr"):
                return True
            if a[0] == "call":
                return a[1] != "__dynamic_cast"
            if a[0] == "b" and len(a) == 2:
                return self.vague_atom(a[1])
            if a[0] == "m":
                return any(self.vague_atom(x) for x, _ in a[1])
            if a[0] in ("sqrt", "inv"):
                return any(self.vague_atom(x) for x, _ in a[1][0])
            pair = len(a) == 2 and not isinstance(a[1], (str, tuple)) and a[0] != "k"
            return any(self.vague_atom(x) for x in (a if pair or not isinstance(a[0], str) else a[1:]) if isinstance(x, (str, tuple)))
        return False

    def vague(self, f):
        if isinstance(f, Lin):
            return any(self.vague_atom(a) for a in f.c)
        if f[0] in ("atom",):
            return self.vague_atom(f[1])
        return any(self.vague(x) for x in f[1:] if isinstance(x, (tuple, Lin)))

    def assume(self, st, f):
        """list of states where f holds"""
        k = f[0]
        if k == "T":
            return [st]
        if k == "F":
            return []
        if k == "le":
            s = st.fork()
            s.cons.append(f[1])
            return [s] if self.feasible(s) else []
        if k == "eq":
            if f[1].is_const():
                return [st] if f[1].k == 0 else []
            s = st.fork()
            s.cons.append(f[1])
            s.cons.append(f[1].scale(-1))
            return [s] if self.feasible(s) else []
        if k == "ne":
            if f[1].is_const():
                return [st] if f[1].k != 0 else []
            if self.quiet:
                self.disequal.append(f[1])
            out = []
            for e in (f[1].plus(1), f[1].scale(-1).plus(1)):
                s = st.fork()
                s.cons.append(e)
                if self.feasible(s):
                    out.append(s)
            return out
        if k == "and":
            out = []
            for s in self.assume(st, f[1]):
                out.extend(self.assume(s, f[2]))
            return out
        if k == "or":
            out = list(self.assume(st, f[1]))
            for s in self.assume(st, self.neg(f[1])):
                out.extend(self.assume(s, f[2]))
            return out
        if k == "atom" or k == "not":
            name = f[1] if k == "atom" else f[1][1]
            e = Lin.atom(("b", name))
            s = st.fork()
            s.cons += [e.scale(-1), e.plus(-1)]
            t = e.plus(-1) if k == "atom" else e
            s.cons += [t, t.scale(-1)]
            return [s] if self.feasible(s) else []
        raise TooComplex("formula " + k)

    def formula_of(self, v):
        if isinstance(v, tuple):
            return v
        # an i1 coming out of memory / as a number
        return ("ne", v)

    def number_of(self, st, v, bits):
        """turn an i1 formula into (state, Lin) alternatives (zero extended)"""
        if isinstance(v, Lin):
            return [(st, v)]
        if isinstance(v, dict):
            raise TooComplex("aggregate as number")
        out = []
        for s in self.assume(st, v):
            out.append((s, Lin.const(1)))
        for s in self.assume(st, self.neg(v)):
            out.append((s, Lin.const(0)))
        return out

    def unsigned(self, st, e, bits):
        """(state, Lin) alternatives for the unsigned value"""
        if e.is_const():
            return [(st, e if e.k >= 0 else e.plus(2 ** bits))]
        if self.entails_le(st, e.scale(-1)):
            return [(st, e)]
        out = []
        for s in self.assume(st, ("le", e.scale(-1))):
            out.append((s, e))
        for s in self.assume(st, ("le", e.plus(1))):
            out.append((s, e.plus(2 ** bits)))
        return out

    def wrap(self, st, e, bits, nsw, nuw=False):
        """normalise e to the signed range; add/sub can leave it by one period"""
        if e.is_const():
            v = e.k & (2 ** bits - 1)
            if v >= 2 ** (bits - 1):
                v -= 2 ** bits
            return [(st, Lin.const(v))]
        hi, lo = 2 ** (bits - 1) - 1, -(2 ** (bits - 1))
        if nsw:
            s = st.fork()
            self.rng(s, e, bits)
            return [(s, e)] if self.feasible(s) else []
        if self.entails_le(st, e.plus(-hi)) and self.entails_le(st, e.scale(-1).plus(lo)):
            return [(st, e)]
        out = []
        for d in (0, -(2 ** bits), 2 ** bits):
            x = e.plus(d)
            s = st.fork()
            self.rng(s, x, bits)
            if self.feasible(s):
                out.append((s, x))
        return out

    def icmp(self, st, pred, a, b, bits):
        """alternatives (state, formula)"""
        if isinstance(a, tuple) or isinstance(b, tuple):
            out = []
            for s1, x in self.number_of(st, a, 1):
                for s2, y in self.number_of(s1, b, 1):
                    # i1 constants are -1/0 in signed view; numbers are 0/1
                    out.extend(self.icmp(s2, pred, x if not x.is_const() else Lin.const(abs(x.k)), y if not y.is_const() else Lin.const(abs(y.k)), 8))
            return out
        d = a.sub(b)
        if pred in ("eq", "ne") and len(d.c) == 2:
            (p, x), (q, y) = d.c.items()
            if x + y == 0 and abs(x) == 1 and self.is_alloc(p) and self.is_alloc(q):
                return [(st, ("F",) if pred == "eq" else ("T",))]
        if pred in ("eq", "ne") and len(d.c) == 1 and d.k == 0:
            # functions and variables that are not weak references have an address
            (p, x), = d.c.items()
            if abs(x) == 1 and isinstance(p, str) and re.match(r'@("[^"]+"|[\w.$]+)$', p) and "extern_weak" not in self.m.globals.get(p[1:].strip('"'), "") + self.m.decl_attrs.get(p[1:].strip('"'), ("",))[0]:
                return [(st, ("F",) if pred == "eq" else ("T",))]
        if pred == "eq":
            return [(st, ("eq", d))]
        if pred == "ne":
            return [(st, ("ne", d))]
        if pred[0] == "u":
            out = []
            for s1, x in self.unsigned(st, a, bits):
                for s2, y in self.unsigned(s1, b, bits):
                    out.extend(self.icmp(s2, "s" + pred[1:], x, y, bits))
            return out
        if pred == "slt":
            return [(st, ("le", d.plus(1)))]
        if pred == "sle":
            return [(st, ("le", d))]
        if pred == "sgt":
            return [(st, ("le", d.scale(-1).plus(1)))]
        if pred == "sge":
            return [(st, ("le", d.scale(-1)))]
        raise TooComplex(pred)

    # ---- memory: cells keyed by (base atom tuple, const offset)
    def cellkey(self, e):
        return (tuple(sorted(((str(a), v) for a, v in e.c.items()))), e.k)

    @staticmethod
    def is_alloc(a):
        return isinstance(a, str) and (a.startswith("alloca") or a.startswith("new#"))

    def base_of(self, e):
        for a in e.c:
            if isinstance(a, str) and (a.startswith("alloca") or a.startswith("new#")):
                return a
        return None

    @staticmethod
    def root(e):
        """allocation or variable that an address points into"""
        for a, v in e.c.items():
            if v == 1 and isinstance(a, str) and a.startswith(("alloca", "new#", "@")):
                return a
        return None

    def resolve(self, st, addr, t):
        """(state, address) with an index into known cells of an object decided"""
        b = self.root(addr)
        if b is None or len(addr.c) < 2 or self.cellkey(addr) in st.mem:
            return [(st, addr)]
        size = self.m.size_align(t)[0]
        offs = [k for (kb, k), (sz, _) in st.mem.items() if kb == ((b, 1),) and sz == size]
        if b[0] == "@":
            offs += [k for k, (sz, _, _) in (self.m.constants(b[1:]) or {}).items() if sz == size and k not in offs]
        if not 0 < len(offs) <= 12:
            return [(st, addr)]
        out, rest = [], [st]
        for k in sorted(offs):
            cell = Lin({b: 1}, k)
            nxt = []
            for s in rest:
                out += [(x, cell) for x in self.assume(s, ("eq", addr.sub(cell)))]
                nxt += self.assume(s, ("ne", addr.sub(cell)))
            rest = nxt
        return out + [(s, addr) for s in rest]

    def may_be_written(self, st, addr, key):
        """whether a cell at another symbolic address was stored that this one may be"""
        b = self.root(addr)
        for k2, (sz, v) in st.mem.items():
            if k2[0] == key[0] or isinstance(v, Lin) and len(v.c) == 1 and next(iter(v.c))[:2] == ("ld", k2):
                continue
            if b is not None and any(a == b for a, _ in k2[0]):
                return True
        return False

    def load_constant(self, st, addr, t):
        """value of a scalar of a constant variable, None when it is not one"""
        b = self.root(addr)
        cells = self.m.constants(b[1:]) if b and b[0] == "@" else None
        if cells is None:
            return None
        size, cell = self.m.size_align(t)[0], cells.get(addr.k)
        if len(addr.c) == 1 and cell and cell[0] == size and (t == "ptr") == (cell[1] == "ptr") and (t in REAL) == (cell[1] in REAL):
            text = cell[2]
            if text == "zeroinitializer":
                text = "null" if t == "ptr" else "0.0" if t in REAL else "0"
            if text == "null" or re.match(r"-?\d+$", text) or t in REAL or text.startswith("@") or text in ("true", "false"):
                return self.val(st, text, t)
        if len(addr.c) == 1 and t not in REAL and t != "ptr" and bits_of(t):
            try:
                raw = b"".join(
                    int(0 if cells[k][2] == "zeroinitializer" else cells[k][2]).to_bytes(cells[k][0], "little", signed=int(0 if cells[k][2] == "zeroinitializer" else cells[k][2]) < 0)
                    for k in sorted(cells) if addr.k <= k < addr.k + size
                )
            except (ValueError, OverflowError):
                raw = b""
            if len(raw) == size and addr.k in cells:
                return self.val(st, str(int.from_bytes(raw, "little", signed=True)), t)
        return self.mkval(st, self.newatom("cell"), t)

    def load(self, st, addr, t):
        known = self.load_constant(st, addr, t)
        if known is not None:
            return known
        size = self.m.size_align(t)[0]
        key = self.cellkey(addr)
        hit = st.mem.get(key)
        if hit is not None and hit[0] == size and not self.copied(hit[1]):
            return self.retype(st, hit[1], t)
        whole = self.compose(st, key, size)
        if whole is not None:
            b = bits_of(t)
            if t in REAL:
                if t == "double" or t == "float":
                    v = struct.unpack("<" + ("d" if t == "double" else "f"), whole.to_bytes(size, "little"))[0]
                    if v == v and abs(v) != float("inf"):
                        return reals.const(Fraction(v))
                return reals.atom(self.newatom("cell"))
            if t == "i1" or not b:
                return self.mkconst(t, whole)
            if whole >= 2 ** (b - 1):
                whole -= 2 ** b
            return Lin.const(whole)
        parts = self.tiles(st, key, size) if t not in REAL and t != "i1" else None
        if parts is not None:
            return self.join(st, parts, t)
        if hit is not None and not self.copied(hit[1]):
            a = self.newatom("cell")
            return self.mkval(st, a, t)
        # overlapping store at a different offset of the same base?
        b, off = key
        for (kb, ko), (sz, v) in st.mem.items():
            if kb == b and not (ko + sz <= off or off + size <= ko):
                # zero memory written in a block
                if isinstance(v, Lin) and v.is_const() and v.k == 0 and ko <= off and off + size <= ko + sz:
                    return self.mkconst(t, 0)
                src = self.copied(v)
                if src and ko <= off and off + size <= ko + sz:
                    return self.mkval(st, ("ld", (src[1], src[2] + off - ko), size, src[3]), t)
                return self.mkval(st, self.newatom("cell"), t)
        if str(key[0]).find("__libc_single_threaded") >= 0:
            return self.mkval(st, ("ld", key, size, "const"), t)
        if self.may_be_written(st, addr, key):
            return self.mkval(st, self.newatom("cell"), t)
        ver = st.memver if self.base_of(addr) is None or self.base_of(addr) in st.escaped else st.lver
        atom = ("ld", key, size, ver)
        v = self.mkval(st, atom, t)
        st.mem[key] = (size, v)
        return v

    @staticmethod
    def copied(v):
        """source of a block copy of memory that had not been read"""
        if isinstance(v, Lin) and len(v.c) == 1 and not v.k:
            (a,) = v.c
            if isinstance(a, tuple) and a[0] == "cpyof":
                return a
        return None

    def retype(self, st, v, t):
        """a cell read as a number of another kind keeps its identity"""
        if not isinstance(v, Lin):
            return v
        real = any(a[0] == "m" for a in v.c)
        if t in REAL and not real and v.c:
            if len(v.c) == 1 and not v.k:
                (a,) = v.c
                if a in self.fbits:
                    return self.fbits[a]
            return reals.atom(("f", "frombits", v.key()))
        if t in REAL and not v.c and v.k:
            return reals.atom(self.newatom("cell"))
        if t not in REAL and real:
            a = ("f", "bits", v.key())
            self.fbits[a] = v
            return self.mkval(st, a, t)
        return v

    def compose(self, st, key, size):
        """little endian value of bytes that were stored as constants"""
        out = 0
        for i in range(size):
            byte = None
            for (kb, ko), (sz, v) in st.mem.items():
                if kb == key[0] and ko <= key[1] + i < ko + sz:
                    if not (isinstance(v, Lin) and v.is_const()) or sz > 8 and v.k != 0:
                        return None
                    byte = (v.k >> (8 * (key[1] + i - ko))) & 255
            if byte is None:
                return None
            out |= byte << (8 * i)
        return out

    def tiles(self, st, key, size):
        """the cells that make up a wider word, lowest first"""
        out, at = [], 0
        while at < size:
            hit = st.mem.get((key[0], key[1] + at))
            if hit is None or not isinstance(hit[1], Lin) or self.copied(hit[1]) or any(a[0] == "m" for a in hit[1].c):
                return None
            out.append(hit)
            at += hit[0]
        return out if at == size and len(out) > 1 else None

    def join(self, st, parts, t):
        if all(v.is_const() for _, v in parts):
            r = at = 0
            for n, v in parts:
                r |= (v.k & (256 ** n - 1)) << at
                at += 8 * n
            return Lin.const(r - 2 ** at if r >> (at - 1) else r)
        a = ("cat", tuple((n, v.key()) for n, v in parts))
        self.cats[a] = parts
        return self.mkval(st, a, t)

    def packing(self):
        """results of instructions that put two 32 bit numbers into one word"""
        if self._packing is None:
            uses, defs = {}, {}
            for b in self.f.order:
                for ins in self.f.blocks[b]:
                    if ins.res:
                        defs[ins.res] = ins
                    for r in set(re.findall(r"%[\w.$-]+|%\"[^\"]*\"", ins.text)):
                        uses.setdefault(r, []).append(ins)
            words, ups = set(), set()
            for r, ins in defs.items():
                m = re.match(r"shl (?:nuw |nsw )*i64 (\S+), 32$", ins.text)
                z = defs.get(m[1]) if m else None
                if z is not None and re.match(r"zext (?:nneg )?i32 .* to i64$", z.text) and uses[m[1]] == [ins]:
                    if all(u.text.startswith("or disjoint i64 ") for u in uses.get(r, [])):
                        ups |= {r, m[1]}
                        words |= {u.res for u in uses.get(r, [])}
            for r, ins in defs.items():
                # a number beside a constant
                m = re.match(r"or disjoint i64 (%\S+), (\d+)$", ins.text)
                if m and not int(m[2]) & 0xFFFFFFFF and m[1] in defs and re.match(r"zext (?:nneg )?i32 .* to i64$", defs[m[1]].text):
                    if uses.get(r) and all(u.text.startswith(f"store i64 {r},") for u in uses[r]):
                        words.add(r)
            for w in words:
                for o in split_top(defs[w].text[len("or disjoint i64 "):]):
                    z = defs.get(o)
                    if z is not None and o not in ups and re.match(r"zext (?:nneg )?i32 .* to i64$", z.text) and all(u.res in words for u in uses[o]):
                        ups.add(o)
            for r, z in defs.items():
                if re.match(r"zext (?:nneg )?i32 .* to i64$", z.text) and uses.get(r) and all(u.text.startswith(f"store i64 {r},") for u in uses[r]):
                    ups.add(r)
            self._packing = (ups, words)
        return self._packing

    def halves(self, v):
        if v.is_const():
            return [(4, Lin.const((v.k + 2 ** 31) % 2 ** 32 - 2 ** 31)), (4, Lin.const(v.k >> 32))]
        p = self.parts_of(v)
        return p if p is not None and [n for n, _ in p] == [4, 4] else None

    def parts_of(self, v):
        """the cells a wider word was read from"""
        if isinstance(v, Lin) and len(v.c) == 1 and not v.k:
            (a, q), = v.c.items()
            if q == 1:
                return self.cats.get(a)
        return None

    def mkconst(self, t, k):
        if t == "i1":
            return ("T",) if k else ("F",)
        if t in REAL:
            return reals.const(k)
        return Lin.const(k)

    def mkval(self, st, atom, t):
        if t == "i1":
            return ("atom", atom)
        bits = bits_of(t)
        if bits is None:
            if t.startswith(("{", "%")):
                return {}
            if t in REAL:
                return reals.atom(atom)
            return Lin.atom(atom)
        e = Lin.atom(atom)
        if t == "ptr":
            st.cons.append(e.scale(-1))  # canonical user space address
            st.cons.append(e.plus(-(2 ** 47)))
        else:
            self.rng(st, e, bits)
        return e

    def store(self, st, addr, t, v):
        size = self.m.size_align(t)[0]
        key = self.cellkey(addr)
        base = self.base_of(addr)
        # drop cells that may alias
        keep = {}
        for k2, (sz, old) in st.mem.items():
            if k2 == key and sz <= size:
                continue
            if k2[0] == key[0]:
                if k2[1] + sz <= key[1] or key[1] + size <= k2[1]:
                    keep[k2] = (sz, old)
                    continue
                # what is left of a cell on either side
                for lo, hi in ((k2[1], key[1]), (key[1] + size, k2[1] + sz)):
                    if lo < hi:
                        src = self.copied(old)
                        if src:
                            rest = Lin.atom(("cpyof", src[1], src[2] + lo - k2[1], src[3]))
                        elif isinstance(old, Lin) and old.is_const() and old.k == 0:
                            rest = Lin.const(0)
                        elif isinstance(old, Lin) and old.is_const() and sz <= 8:
                            n = 8 * (hi - lo)
                            w = (int(old.k) >> (8 * (lo - k2[1]))) & (2 ** n - 1)
                            rest = Lin.const(w - 2 ** n if w >> (n - 1) else w)
                        else:
                            rest = Lin.atom(self.newatom("cell"))
                        keep[(k2[0], lo)] = (hi - lo, rest)
                continue
            g1, g2 = ({a for a, _ in k[0] if isinstance(a, str) and a.startswith("@")} for k in (key, k2))
            if len(g1) == len(g2) == 1 and g1 != g2 and (len(key[0]) == len(k2[0]) == 1 or not any("alloca" in str(a) or "new#" in str(a) for k in (key, k2) for a, _ in k[0])):
                keep[k2] = (sz, old)  # different variables
                continue
            b2 = None
            for a, _ in k2[0]:
                if a.startswith("alloca") or a.startswith("new#"):
                    b2 = a
            if base is not None or b2 is not None:
                # distinct allocations, or a private allocation vs. foreign memory
                if base != b2 and (
                    (base is not None and b2 is not None)
                    or (base is not None and base not in st.escaped)
                    or (b2 is not None and b2 not in st.escaped)
                ):
                    keep[k2] = (sz, old)
                    continue
            if b2 is not None and b2 not in st.escaped:
                st.lver = self.newatom("mv")
        st.mem = keep
        parts = self.parts_of(v)
        if parts is not None and sum(n for n, _ in parts) == size:
            at = 0
            for n, w in parts:
                st.mem[(key[0], key[1] + at)] = (n, w)
                at += n
        else:
            st.mem[key] = (size, v)
        if base is not None and len(key[0]) > 1:
            st.lver = self.newatom("mv")
        if base is None or base in st.escaped:
            st.memver = self.newatom("mv")

    def clobber(self, st):
        keep = {}
        for k2, v in st.mem.items():
            for a, _ in k2[0]:
                if (a.startswith("alloca") or a.startswith("new#")) and a not in st.escaped:
                    keep[k2] = v
        st.mem = keep
        st.memver = self.newatom("mv")

    def escape(self, st, v):
        if isinstance(v, Lin):
            b = self.base_of(v)
            if b is not None and b not in st.escaped:
                st.escaped = st.escaped | {b}
                # pointers stored inside an escaped object escape as well
                for k2, (sz, x) in list(st.mem.items()):
                    if any(a == b for a, _ in k2[0]):
                        self.escape(st, x)

    # ---- run
    def run(self):
        st = State()
        for t, name in self.f.params:
            st.env[name] = self.mkval(st, "p" + name[1:], t)
        self.quiet = 0
        self.disequal = []
        self.flow(self.rpo, self.f.order[0], [(st, None)])
        return self.events

    def flow(self, order, entry, states, stop=None):
        """Forward dataflow over the blocks of `order`; the value at a block is a
        finite disjunction of polyhedra.  Returns the states that reach `stop`
        (the header of the loop being iterated) over a back edge."""
        inbox = {entry: states}
        back = []
        inside = set(order)
        for b in order:
            ins = inbox.pop(b, [])
            if not ins or b not in self.eventful():
                continue
            states = []
            for st, pred in ins:
                states.append(self.phis(st, b, pred) if pred != "@" else st)
            if b in self.loops and b != stop:
                # ascending step: everything the loop changes is generalised, then
                # one descending step: header = entry states + image of the body
                body = [x for x in self.rpo if x in self.loops[b]]
                peeled = self.peel(states, b, body)
                if peeled is not None:
                    states += peeled
                for st in list(states) if peeled is None else ():
                    for st2 in self.loop_states(st, b, body):
                        st2.loopy = True
                        states.append(st2)
            for st in states:
                self.paths += 1
                if self.paths > self.MAX_PATHS:
                    raise TooComplex("too many partitions")
                for s2, b2, p2 in self.block(st, b):
                    if b2 == stop:
                        back.append((s2, p2))
                    elif b2 in self.latches and p2 in self.latches[b2]:
                        continue  # covered by the header states above
                    elif b2 in inside:
                        inbox.setdefault(b2, []).append((s2, p2))
                    else:
                        self.left += 1
        return back

    def eventful(self):
        """blocks from which a forbidden event can be reached at all"""
        if self._eventful is None:
            preds, work = {}, []
            for b, ins in self.f.blocks.items():
                for s in re.findall(r"label %(\"[^\"]+\"|[\w.$\-]+)", ins[-1].text) if ins else ():
                    preds.setdefault(s.strip('"'), []).append(b)
                if self.contain or self.may_event(ins):
                    work.append(b)
            self._eventful = set(work)
            while work:
                for p in preds.get(work.pop(), ()):
                    if p not in self._eventful:
                        self._eventful.add(p)
                        work.append(p)
        return self._eventful

    def may_event(self, block):
        for ins in block:
            if ins.op == "unreachable":
                return True
            if ins.op not in ("call", "invoke"):
                continue
            name = self.callee(ins)
            if name is None:
                continue
            if name == "violation" or name in TERMINATE or name in ABORT or name.startswith("llvm.") and name.split(".")[1] in ("trap", "ubsantrap", "debugtrap"):
                return True
            if is_throw(name):
                m = re.search(r"@__cxa_throw\(ptr [^,]*, ptr [^,@]*(@[\w.$]+)", ins.text)
                return not (self.allow_throw is None or any(re.search(x, m[1] if m else name) for x in self.allow_throw))
            if "noreturn" in self.call_attrs(ins, name):
                return True
        return False

    def peel(self, states, b, body):
        """Header states of the second and later iterations of a loop that is
        left after few iterations; None when it is not known to be."""
        if "_small_" not in self.f.name and not any(ins.op in ("load", "store", "call", "invoke") for x in body for ins in self.f.blocks[x]):
            return None
        out, cur = [], states
        saved, self.disequal = self.disequal, []
        self.quiet += 1
        try:
            sure = True
            for i in range(self.UNROLL):
                if i > self.PEEL and not sure:
                    return None
                before, self.left = len(cur), 0
                cur = [self.phis(s, b, pred) for s, pred in self.flow(body, b, [(s.fork(), "@") for s in cur], stop=b)]
                if not cur:
                    return out
                out += cur
                # each state either stays or leaves
                sure = sure and len(cur) + self.left <= before
                if len(out) > 60 and not sure:
                    return None
        finally:
            self.quiet -= 1
            self.disequal = saved
        return None

    def loop_states(self, st, b, body):
        """Header states of the second and later iterations. When the values carried
        around the loop do not advance regularly from the first iteration on, they
        may do so from the second one on."""
        img, exact = self.loop_image(st, b, body)
        out = [self.phis(s, b, pred) for s, pred in img]
        if exact:
            return out
        self.quiet += 1
        saved, self.disequal = self.disequal, []
        try:
            first = [self.phis(s, b, pred) for s, pred in self.flow(body, b, [(st.fork(), "@")], stop=b)]
        finally:
            self.quiet -= 1
            self.disequal = saved
        if len(first) > 6:
            return out
        rest = []
        for s in first:
            s.loopy = True
            img, exact = self.loop_image(s, b, body)
            if not exact:
                return out
            rest += [self.phis(x, b, pred) for x, pred in img]
        return first + rest

    def carried(self, b):
        return [ins for ins in self.f.blocks[b] if ins.op == "phi"]

    def regular(self, st, wide, n, b, body):
        """Candidates `value = start + k * iteration` for the values that the loop
        carries in an irregular way, reduced to an inductive set. Returns the header
        state with these values and whether all of them are covered; None when the
        back edge is not taken at all."""
        first = [self.phis(s, b, pred) for s, pred in self.flow(body, b, [(st.fork(), "@")], stop=b)]
        if not first:
            return None
        it = Lin.atom(n)
        odd = [i.res for i in self.carried(b) if isinstance(wide.env[i.res], Lin) and any(str(a).startswith("loop#") for a in wide.env[i.res].c)
               and isinstance(st.env.get(i.res), Lin)]
        lost = sum(1 for i in self.carried(b) if wide.env[i.res] is not st.env.get(i.res) and i.res not in odd and not isinstance(wide.env[i.res], Lin))
        cand = {}
        for r in odd:
            ks = set()
            for s in first:
                d = s.env[r].sub(st.env[r]) if isinstance(s.env[r], Lin) else None
                ks.add(d.k if d is not None and d.is_const() else None)
            if len(ks) == 1 and None not in ks:
                cand[r] = st.env[r].add(it, ks.pop())
        while cand:
            w = wide.fork()
            for r, v in cand.items():
                w.env[r] = v
            again = [self.phis(s, b, pred) for s, pred in self.flow(body, b, [(w.fork(), "@")], stop=b)]
            bad = set()
            for s in again:
                for r, v in cand.items():
                    nxt = v.plus(v.c.get(n, 0))
                    x = s.env[r]
                    if r not in bad and not (isinstance(x, Lin) and (x == nxt or self.entails_le(s, x.sub(nxt)) and self.entails_le(s, nxt.sub(x)))):
                        bad.add(r)
            if not bad:
                return w, len(cand) == len(odd) and not lost
            for r in bad:
                del cand[r]
        return wide, not odd and not lost

    def loop_image(self, st, b, body):
        """States reaching the header again, from a widened header state that is
        strengthened with the one-sided reading of `x != bound` loop tests where
        that is inductive."""
        wide = st.fork()
        n = self.enter_loop(wide, b)
        if not self.feasible(wide):
            return [], True
        saved, self.disequal = self.disequal, []
        self.quiet += 1
        try:
            reg = self.regular(st, wide, n, b, body)
            if reg is None:
                return [], True
            wide, exact = reg
            self.disequal = []
            again = self.flow(body, b, [(wide.fork(), "@")], stop=b)
            seen = set()
            bounded = not any(d.c.get(n, 0) for d in self.disequal[:40])
            for d in self.disequal[:40]:
                a = d.c.get(n, 0)
                if not a or d.key() in seen:
                    continue
                seen.add(d.key())
                d0 = d.plus(-a)  # value tested by the previous iteration
                for e in (d0.plus(1), d0.scale(-1).plus(1)):
                    at_entry = Lin({x: v for x, v in e.c.items() if x != n}, e.k)
                    if not self.entails_le(st, at_entry):
                        continue
                    w2 = wide.fork()
                    w2.cons.append(e)
                    again2 = self.flow(body, b, [(w2.fork(), "@")], stop=b)
                    nxt = e.plus(e.c.get(n, 0))
                    if all(self.entails_le(s2, nxt) for s2, _ in again2):
                        wide, again = w2, again2
                        bounded = True
                        break
        finally:
            self.quiet -= 1
            self.disequal = saved + self.disequal
        if not (exact and bounded):
            for s, _ in again:
                s.opaque = True  # may be no state of the program
        return again, exact

    def phis(self, st, b, pred):
        st = st.fork()
        newvals = {}
        for ins in self.f.blocks[b]:
            if ins.op != "phi":
                break
            t, inc = self.phi(ins)
            for v, blk in inc:
                if blk == pred:
                    newvals[ins.res] = self.val(st, v, t)
                    break
        st.env.update(newvals)
        return st

    def enter_loop(self, st, header):
        """generalise the state at a loop header"""
        body = self.loops[header]
        st.loopy = True
        natom = self.newatom("iter")
        n = Lin.atom(natom)
        st.cons.append(n.scale(-1))
        instrs = self.f.blocks[header]
        for ins in instrs:
            if ins.op != "phi":
                break
            t, inc = self.phi(ins)
            init = st.env[ins.res]
            steps = set()
            for v, blk in inc:
                if blk in body:
                    steps.add(self.step_of(ins.res, v, body))
            bits = bits_of(t)
            if len(steps) == 1 and None not in steps and isinstance(init, Lin):
                s = steps.pop()
                st.env[ins.res] = init.add(n, s) if s else init
                if t != "ptr" and bits:
                    self.rng(st, st.env[ins.res], bits)
            else:
                st.env[ins.res] = self.mkval(st, self.newatom("loop"), t)
        # memory written anywhere in the loop
        for blk in body:
            for ins in self.f.blocks[blk]:
                if ins.op in ("store", "call", "invoke", "atomicrmw", "cmpxchg"):
                    if ins.op == "store" or not self.pure_call(ins):
                        if ins.op == "call" and "@llvm." in ins.text and not re.search(r"@llvm\.mem", ins.text):
                            continue
                        st.mem = {}
                        st.memver = st.lver = self.newatom("mv")
                        return natom
        return natom

    def step_of(self, phi, v, body):
        """constant step if v == phi + c (+c' ...) inside the loop"""
        tot = 0
        for _ in range(8):
            if v == phi:
                return tot
            d = self.defs().get(v)
            if d is None:
                return None
            m = re.match(r"add (?:nuw |nsw )*(i\d+) (%\S+), (-?\d+)$", d.text)
            if m:
                tot += int(m[3])
                v = m[2]
                continue
            m = re.match(r"getelementptr (?:inbounds )?(?:nuw )?(\S+|%\"[^\"]+\"), ptr (%\S+), i64 (-?\d+)$", d.text)
            if m:
                tot += int(m[3]) * self.m.size_align(m[1])[0]
                v = m[2]
                continue
            m = re.match(r"extractvalue \{ i\d+, i1 \} (%\S+), 0$", d.text)
            if m:
                d = self.defs().get(m[1])
                m = d and re.match(r"call \{ i\d+, i1 \} @llvm\.(sadd|ssub)\.with\.overflow\.i\d+\(i\d+ (%[\w.]+), i\d+ (-?\d+)\)", d.text)
                if m:
                    tot += int(m[3]) if m[1] == "sadd" else -int(m[3])
                    v = m[2]
                    continue
                return None
            return None
        return None

    def defs(self):
        if not hasattr(self, "_defs"):
            self._defs = {}
            for b in self.f.order:
                for ins in self.f.blocks[b]:
                    if ins.res:
                        self._defs[ins.res] = ins
        return self._defs

    def phi(self, ins):
        t, rest = read_type(ins.text[4:])
        inc = []
        for m in re.finditer(r"\[ (.*?), %(\"[^\"]+\"|[\w.$\-]+) \]", rest):
            inc.append((m[1].strip(), m[2].strip('"')))
        return t, inc

    def block(self, st, b):
        st = st.fork()
        instrs = self.f.blocks[b]
        idx = 0
        while idx < len(instrs) and instrs[idx].op == "phi":
            idx += 1
        states = [st]
        for ins in instrs[idx:]:
            self.nsteps += len(states)
            if self.nsteps > self.MAX_STEPS:
                raise TooComplex("too many steps")
            if ins.op in ("br", "switch", "ret", "unreachable", "resume", "invoke"):
                out = []
                for s in states:
                    out.extend(self.term(s, ins, b))
                return out
            nxt = []
            for s in states:
                nxt.extend(self.step(s, ins))
            states = nxt
            if not states:
                return []
            if len(states) > 600:
                raise TooComplex("too many partitions in a block")
        return []

    def landing(self, st, text):
        """(state, selector) for the handlers that the exception in flight may reach"""
        if st.thrown is None:
            return [(st, None)]
        kind = st.thrown[0]
        out = []
        for c in re.findall(r"\bcatch ptr (null|@[\w.$]+)", text):
            if c == "null":
                out.append((st.fork() if out else st, self.typeid(c)))
                return out
            r = None if kind == ANY_TYPE else self.m.is_subtype(kind, c)
            if kind == ANY_TYPE:
                out.append((st.fork(), self.typeid(c)))
            elif r:
                return [(st, self.typeid(c))]
            elif r is None:
                return [(st, None)]
        return out + [(st, Lin.const(0))]

    def typeid(self, name):
        return Lin.const(self.typeids.setdefault(name, len(self.typeids) + 1))

    def event(self, st, kind, what, ins):
        if self.inside:
            raise TooComplex("event in a followed call")
        if not self.quiet:
            self.events.append(Event(kind, what, st, ins.dbg))

    def split(self, out, both, f):
        """mark the states of a branch that depends on an unknown value"""
        if both and self.vague(f):
            res = []
            for s, *rest in out:
                s = s.fork()
                s.opaque = True
                res.append((s, *rest))
            return res
        return out

    def term(self, st, ins, b):
        t = ins.text
        if ins.op == "ret":
            if self.leaving is not None:
                rt, rest = read_type(t[4:])
                self.leaving.append((st, self.val(st, rest, rt) if rt != "void" else None, False))
            return []
        if ins.op == "unreachable":
            self.event(st, "ub", "control flow reaches undefined behaviour", ins)
            return []
        if ins.op == "resume":
            if self.leaving is not None:
                self.leaving.append((st, None, "only"))
            elif self.contain:
                self.event(st, "throw", "an exception leaves", ins)
            return []
        if ins.op == "br":
            m = re.match(r"br label %(\"[^\"]+\"|[\w.$\-]+)", t)
            if m:
                return [(st, m[1].strip('"'), b)]
            m = re.match(r"br i1 (\S+), label %(\"[^\"]+\"|[\w.$\-]+), label %(\"[^\"]+\"|[\w.$\-]+)", t)
            c = self.formula_of(self.val(st, m[1], "i1"))
            self.branches += 1
            out = []
            for s in self.assume(st, c):
                out.append((s, m[2].strip('"'), b))
            n = len(out)
            for s in self.assume(st, self.neg(c)):
                out.append((s, m[3].strip('"'), b))
            return self.split(out, 0 < n < len(out), c)
        if ins.op == "switch":
            m = re.match(r"switch (i\d+) (\S+), label %(\"[^\"]+\"|[\w.$\-]+) \[(.*)\]", t)
            bits = int(m[1][1:])
            v = self.val(st, m[2], m[1])
            out = []
            rest = [st]
            for mm in re.finditer(r"i\d+ (-?\d+), label %(\"[^\"]+\"|[\w.$\-]+)", m[4]):
                c = self.const(mm[1], bits)
                nr = []
                for s in rest:
                    if isinstance(v, tuple):
                        f = v if mm[1] in ("1", "-1", "true") else self.neg(v)
                    else:
                        f = ("eq", v.sub(c))
                    for x in self.assume(s, f):
                        out.append((x, mm[2].strip('"'), b))
                    nr.extend(self.assume(s, self.neg(f)))
                rest = nr
            for s in rest:
                out.append((s, m[3].strip('"'), b))
            return self.split(out, len({x[1] for x in out}) > 1, ("le", v) if isinstance(v, Lin) else v)
        if ins.op == "invoke":
            labels = re.findall(r"label %(\"[^\"]+\"|[\w.$\-]+)", t)
            normal, unwind = labels[-2].strip('"'), labels[-1].strip('"')
            out = []
            for s, res, throws in self.call(st, ins):
                if throws == "only":
                    out.append((s, unwind, b))
                else:
                    if ins.res:
                        s.env[ins.res] = res
                    out.append((s, normal, b))
                    if throws:
                        s2 = s.fork()
                        if (self.callee(ins) or "").startswith(("any_", "may_")):
                            s2.thrown = (ANY_TYPE, None)
                        else:
                            s2.opaque = True  # whether it throws is not known
                            s2.thrown = None
                        out.append((s2, unwind, b))
            return out
        raise TooComplex(ins.op)

    def aligned(self, op, x, c):
        """x op constant, where x is a multiple of a power of two plus a constant"""
        if not c.is_const() or x.is_const():
            return None
        g = 0
        for a, v in x.c.items():
            if v != int(v):
                return None
            g = math.gcd(g, int(v) * self.alignment.get(a, 1))
        g &= -g
        low = x.k % g
        if g < 2:
            return None
        if op == "and" and 0 <= c.k < g:
            return Lin.const(low & c.k)
        if op == "and" and c.k < 0 and -c.k <= g and -c.k & (-c.k - 1) == 0:
            return x.plus(-(low % -c.k))
        if op == "or" and 0 <= c.k < g:
            return x.plus((low | c.k) - low)
        return None

    def binop(self, st, ins):
        m = re.match(r"(\w+) ((?:nuw |nsw |exact |disjoint )*)(\S+) (.*)$", ins.text)
        op, flags, t, rest = m[1], m[2], m[3], m[4]
        if t.startswith(("<", "{")):
            return [(st, Lin.atom(self.newatom("vec")))]
        a, bb = split_top(rest)
        bits = bits_of(t)
        nsw, nuw = "nsw" in flags, "nuw" in flags
        x, y = self.val(st, a, t), self.val(st, bb, t)
        if t == "i1":
            x, y = self.formula_of(x), self.formula_of(y)
            if op == "and":
                return [(st, ("and", x, y))]
            if op == "or":
                return [(st, ("or", x, y))]
            if op in ("xor", "add", "sub"):
                return [(st, ("or", ("and", x, self.neg(y)), ("and", self.neg(x), y)))]
            return [(st, ("atom", self.newatom("b")))]
        if isinstance(x, (tuple, dict)) or isinstance(y, (tuple, dict)):
            raise TooComplex("mixed operand")
        if op == "shl" and ins.res in self.packing()[0]:
            h = self.halves(x)
            if h is not None:
                return [(st, self.join(st, [(4, Lin.const(0)), h[0]], t))]
        if ins.res in self.packing()[1]:
            h, g = self.halves(x), self.halves(y)
            if h is not None and g is not None and all(any(c.is_const() and c.k == 0 for c in (h[i][1], g[i][1])) for i in (0, 1)):
                return [(st, self.join(st, [(4, h[i][1].add(g[i][1])) for i in (0, 1)], t))]
        if op == "or" and "disjoint" in flags:
            # no common bits: the sum; remember its bitwise form as well
            e = x.add(y)
            f = self.bitwise("or", x, y, bits)
            if len(f.c) == 1 and f.k == 0:
                (a, v), = f.c.items()
                if v == 1 and a[0] == "bw":
                    self.bwform[(bits, e.key())] = (a[2], a[3])
            elif not f.is_const():
                e = f
            return self.wrap(st, e, bits, True)
        if op in ("add", "sub"):
            e = x.add(y) if op == "add" else x.sub(y)
            return self.wrap(st, e, bits, nsw)
        if op == "mul" and (x.is_const() or y.is_const()):
            e = y.scale(x.k) if x.is_const() else x.scale(y.k)
            if nsw or e.is_const():
                return self.wrap(st, e, bits, True) if not e.is_const() else self.wrap(st, e, bits, False)
            hi, lo = 2 ** (bits - 1) - 1, -(2 ** (bits - 1))
            if self.entails_le(st, e.plus(-hi)) and self.entails_le(st, e.scale(-1).plus(lo)):
                return [(st, e)]
        if op == "shl" and y.is_const() and 0 <= y.k < bits:
            e = x.scale(2 ** y.k)
            hi, lo = 2 ** (bits - 1) - 1, -(2 ** (bits - 1))
            if nsw or (self.entails_le(st, e.plus(-hi)) and self.entails_le(st, e.scale(-1).plus(lo))):
                return self.wrap(st, e, bits, nsw)
            if self.entails_le(st, e.plus(-(2 ** bits - 1))) and self.entails_le(st, e.scale(-1).plus(lo)):
                return self.wrap(st, e, bits, False)
        if op in ("shl", "lshr", "ashr") and not y.is_const() and x.is_const():
            r = self.few_values(st, y)
            if r is not None:
                out = []
                for s2, w in r:
                    if 0 <= w.k < bits:
                        v = (x.k & (2 ** bits - 1)) >> w.k if op == "lshr" else x.k >> w.k if op == "ashr" else x.k << w.k
                        out += self.wrap(s2, Lin.const(v), bits, False)
                return out
        if x.is_const() and y.is_const():
            ux, uy = x.k & (2 ** bits - 1), y.k & (2 ** bits - 1)
            r = None
            if op == "and":
                r = ux & uy
            elif op == "or":
                r = ux | uy
            elif op == "xor":
                r = ux ^ uy
            elif op == "shl":
                r = ux << uy if uy < bits else None
            elif op == "lshr":
                r = ux >> uy if uy < bits else None
            elif op == "ashr":
                r = x.k >> uy if uy < bits else None
            elif op == "udiv" and uy:
                r = ux // uy
            elif op == "urem" and uy:
                r = ux % uy
            elif op == "sdiv" and y.k:
                r = abs(x.k) // abs(y.k) * (1 if (x.k < 0) == (y.k < 0) else -1)
            elif op == "srem" and y.k:
                q = abs(x.k) // abs(y.k) * (1 if (x.k < 0) == (y.k < 0) else -1)
                r = x.k - q * y.k
            if r is not None:
                return self.wrap(st, Lin.const(r), bits, False)
        if op in ("lshr", "ashr") and y.is_const():
            parts = self.parts_of(x)
            if parts is not None and len(parts) == 2 and parts[0][0] * 8 == y.k:
                return self.unsigned(st, parts[1][1], bits - y.k) if op == "lshr" else [(st, parts[1][1])]
        if op in ("and", "or", "xor") and not (x.is_const() and y.is_const()):
            r = self.few_values(st, x if y.is_const() else y)
            if r is not None and not x.is_const() and not y.is_const():
                r = [(s2, x, w) for s2, w in r]
                q = []
                for s2, u, w in r:
                    f = self.few_values(s2, u)
                    if f is None:
                        q = None
                        break
                    q += [(s3, v, w) for s3, v in f]
                r = q
            elif r is not None:
                k = y if y.is_const() else x
                r = [(s2, w, k) for s2, w in r]
            if r is not None:
                f = {"and": int.__and__, "or": int.__or__, "xor": int.__xor__}[op]
                return [(s2, Lin.const(f(u.k, w.k))) for s2, u, w in r]
        if op == "xor" and y.is_const() and y.k == -1:
            return [(st, x.scale(-1).plus(-1))]  # ~x == -x-1
        if op == "xor" and x.is_const() and x.k == -1:
            return [(st, y.scale(-1).plus(-1))]
        if op == "xor":
            for z, c in ((x, y), (y, x)):
                if c.is_const() and c.k > 0 and c.k & (c.k + 1) == 0 and self.entails_le(st, z.scale(-1)) and self.entails_le(st, z.plus(-c.k)):
                    return [(st, c.sub(z))]  # all ones minus z
        if op == "and" and x == y:
            return [(st, x)]
        if op == "or" and x == y:
            return [(st, x)]
        if op in ("xor", "sub") and x == y:
            return [(st, Lin.const(0))]
        if op in ("and", "or"):
            r = self.aligned(op, x, y) or self.aligned(op, y, x)
            if r is not None:
                return [(st, r)]
        if op in ("and", "or", "xor"):
            r = self.bitwise(op, x, y, bits)
            if isinstance(r, Lin) and (r.is_const() or not (len(r.c) == 1 and r.k == 0 and next(iter(r.c))[0] == "bw")):
                return [(st, r)]
            s = st.fork()
            self.rng(s, r, bits)
            if op == "and":
                for z in (x, y):
                    if self.entails_le(s, z.scale(-1)):
                        s.cons += [r.scale(-1), r.sub(z)]
                for z, c in ((x, y), (y, x)):
                    if c.is_const() and c.k > 0 and c.k & (c.k + 1) == 0:
                        # low bits: z == r + 2^k * q
                        q = Lin.atom(("shr", bits, c.k.bit_length(), z.key()))
                        d = z.sub(r).add(q, -(c.k + 1))
                        s.cons += [d, d.scale(-1), r.scale(-1), r.plus(-c.k)]
            return [(s, r)]
        # division by a positive constant: floor/trunc facts
        k1, k2 = x.key(), y.key()
        if op in ("and", "or", "xor", "mul") and str(k2) < str(k1):
            k1, k2 = k2, k1
        atom = ("op", op, bits, k1, k2)
        if op in ("ashr", "lshr") and y.is_const():
            atom = ("shr" if op == "ashr" else "ushr", bits, y.k, x.key())
        s = st.fork()
        e = Lin.atom(atom)
        self.rng(s, e, bits)
        if op == "and":
            for z in (x, y):
                if self.entails_le(s, z.scale(-1)):
                    s.cons += [e.scale(-1), e.sub(z)]
        if op in ("sdiv", "ashr", "lshr", "udiv") and y.is_const():
            d = y.k if op in ("sdiv", "udiv") else (2 ** y.k if 0 <= y.k < bits else 0)
            if op in ("lshr", "udiv") and d > 0:
                out = []
                for s2, ux in self.unsigned(s, x, bits):
                    s2 = s2.fork()
                    s2.cons += [e.scale(d).sub(ux), ux.sub(e.scale(d)).plus(-(d - 1)), e.scale(-1)]
                    out.append((s2, e))
                return out
            if d > 0 and (op == "ashr" or self.entails_le(s, x.scale(-1))):
                # d*e <= x <= d*e + d-1
                s.cons += [e.scale(d).sub(x), x.sub(e.scale(d)).plus(-(d - 1))]
            elif op == "lshr" and y.k > 0:
                s.cons += [e.scale(-1), e.plus(-(2 ** (bits - y.k) - 1))]
        if op in ("urem", "srem") and y.is_const() and y.k > 0 and self.entails_le(s, x.scale(-1)):
            s.cons += [e.scale(-1), e.plus(-(y.k - 1)), e.sub(x)]
        return [(s, e)]

    def few_values(self, st, x):
        """alternatives for a value known to be one of a few small numbers"""
        if x.is_const():
            return [(st, x)]
        lo, hi = self.bounds(st, x)
        if lo is None or hi is None or hi - lo > 7:
            return None
        out = []
        for k in range(lo, hi + 1):
            for s in self.assume(st, ("eq", x.plus(-k))):
                out.append((s, Lin.const(k)))
        return out

    def bounds(self, st, x):
        """range of a value when it lies in 0..255 or near zero"""
        if not (self.entails_le(st, x.plus(-255)) and self.entails_le(st, x.scale(-1).plus(-128))):
            return None, None
        lo, hi = -128, 255
        a, b = lo, hi
        while a < b:  # largest k with x >= k
            m = (a + b + 1) // 2
            if self.entails_le(st, x.scale(-1).plus(m)):
                a = m
            else:
                b = m - 1
        lo = a
        a, b = lo, hi
        while a < b:
            m = (a + b) // 2
            if self.entails_le(st, x.plus(-m)):
                b = m
            else:
                a = m + 1
        return lo, a

    def bw_parts(self, x, bits):
        """x as a boolean function of words: (words, truth table)"""
        if x.is_const():
            if x.k == 0:
                return (), 0
            if x.k == -1:
                return (), 1
            return (("k", x.k & (2 ** bits - 1)),), 0b10
        if (bits, x.key()) in self.bwform:
            return self.bwform[(bits, x.key())]
        if len(x.c) == 1:
            (a, v), = x.c.items()
            if isinstance(a, tuple) and a[0] == "bw" and a[1] == bits:
                if v == 1 and x.k == 0:
                    return a[2], a[3]
                if v == -1 and x.k == -1:
                    return a[2], a[3] ^ (2 ** (2 ** len(a[2])) - 1)
            if v == -1 and x.k == -1:
                w = Lin({a: 1}, 0)
                return (("v", w.key()),), 0b01
        self.words[("v", x.key())] = x
        n = x.scale(-1).plus(-1)
        if str(n.key()) < str(x.key()) and len(x.c) == 1 and next(iter(x.c.values())) == -1:
            self.words[("v", n.key())] = n
            return (("v", n.key()),), 0b01
        return (("v", x.key()),), 0b10

    def bitwise(self, op, x, y, bits):
        for z in (x, y):
            if len(z.c) == 1:
                (a, v), = z.c.items()
                if v == -1 and z.k == -1:
                    w = Lin({a: 1}, 0)
                    self.words[("v", w.key())] = w
                elif v == 1 and z.k == 0:
                    self.words[("v", z.key())] = z
        wx, tx = self.bw_parts(x, bits)
        wy, ty = self.bw_parts(y, bits)
        words = tuple(sorted(set(wx) | set(wy), key=str))
        if len(words) > 6:
            return Lin.atom(("op", op, bits, *sorted((x.key(), y.key()), key=str)))
        tt = 0
        for row in range(2 ** len(words)):
            val = {w: (row >> i) & 1 for i, w in enumerate(words)}
            fx = (tx >> sum(val[w] << i for i, w in enumerate(wx))) & 1
            fy = (ty >> sum(val[w] << i for i, w in enumerate(wy))) & 1
            r = fx & fy if op == "and" else fx | fy if op == "or" else fx ^ fy
            tt |= r << row
        # drop words the function does not depend on
        i = 0
        while i < len(words):
            dep = False
            for row in range(2 ** len(words)):
                if ((tt >> row) & 1) != ((tt >> (row ^ (1 << i))) & 1):
                    dep = True
            if dep:
                i += 1
                continue
            nt, k = 0, 0
            for row in range(2 ** len(words)):
                if not (row >> i) & 1:
                    nt |= ((tt >> row) & 1) << k
                    k += 1
            tt = nt
            words = words[:i] + words[i + 1 :]
        if not words:
            return Lin.const(-1 if tt else 0)
        consts = [w for w in words if w[0] == "k"]
        if len(consts) == len(words) and len(words) <= 4:
            out = 0
            for b in range(bits):
                row = sum(((w[1] >> b) & 1) << i for i, w in enumerate(words))
                out |= ((tt >> row) & 1) << b
            if out >= 2 ** (bits - 1):
                out -= 2 ** bits
            return Lin.const(out)
        if len(words) == 1:
            w = self.words[words[0]]
            return w if tt == 0b10 else w.scale(-1).plus(-1)
        return Lin.atom(("bw", bits, words, tt))

    def step(self, st, ins):
        op, t = ins.op, ins.text
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            out = []
            for s, v in self.binop(st, ins):
                s = s.fork() if s is st else s
                s.env[ins.res] = v
                out.append(s)
            return out
        if op == "icmp":
            m = re.match(r"icmp (?:samesign )?(\w+) (.*)$", t)
            ty, rest = read_type(m[2])
            a, b = split_top(rest)
            bits = bits_of(ty)
            if bits is None:
                st.env[ins.res] = ("atom", self.newatom("vcmp"))
                return [st]
            x, y = self.val(st, a, ty), self.val(st, b, ty)
            out = []
            for s, f in self.icmp(st, m[1], x, y, bits):
                s = s.fork() if s is st else s
                s.env[ins.res] = f
                out.append(s)
            return out
        if op == "fcmp":
            m = re.match(r"fcmp (?:\w+ )*?([ou]\w\w|ord|uno|true|false) (\S+) (.*)$", t)
            if not m or m[2] not in REAL:
                st.env[ins.res] = ("atom", self.newatom("vcmp"))
                return [st]
            a, b = split_top(m[3])
            x, y = self.val(st, a, m[2]), self.val(st, b, m[2])
            d = reals.integral(x.sub(y))
            p = m[1][-2:]
            if m[1] in ("ord", "true"):
                f = ("T",)
            elif m[1] in ("uno", "false"):
                f = ("F",)
            elif p == "eq":
                f = ("eq", d)
            elif p == "ne":
                f = ("ne", d)
            else:
                if p[0] == "g":
                    d = d.scale(-1)
                f = ("le", d.plus(1) if p[1] == "t" else d)
            if f[0] in ("eq", "ne", "le") and all(a == reals.UNIT for a in f[1].c):
                v = f[1].c.get(reals.UNIT, 0)
                ok = v == 0 if f[0] == "eq" else v != 0 if f[0] == "ne" else v < 0 if f[1].k else v <= 0
                f = ("T",) if ok else ("F",)
            self.unit(st, d)
            st.env[ins.res] = f
            return [st]
        if op == "select":
            m = re.match(r"select (?:\w+ )*?i1 (\S+), (.*)$", t)
            if not m:
                st.env[ins.res] = Lin.atom(self.newatom("vsel"))
                return [st]
            parts = split_top(m[2])
            ty, a = read_type(parts[0])
            ty2, b = read_type(parts[1])
            c = self.formula_of(self.val(st, m[1], "i1"))
            out = []
            if ty == "i1":
                x, y = self.formula_of(self.val(st, a, ty)), self.formula_of(self.val(st, b, ty))
                st.env[ins.res] = ("or", ("and", c, x), ("and", self.neg(c), y))
                return [st]
            for s in self.assume(st, c):
                s = s.fork()
                s.env[ins.res] = self.val(s, a, ty)
                out.append(s)
            n = len(out)
            for s in self.assume(st, self.neg(c)):
                s = s.fork()
                s.env[ins.res] = self.val(s, b, ty)
                out.append(s)
            if 0 < n < len(out) and self.vague(c):
                for s in out:
                    s.opaque = True
            return out
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            m = re.match(r"\w+ (?:nneg |nuw |nsw )*(.*)$", t)
            nneg = " nneg " in t[:12]
            ty, rest = read_type(m[1])
            if op == "freeze":
                st.env[ins.res] = self.val(st, rest, ty)
                return [st]
            v, to = rest.rsplit(" to ", 1)
            x = self.val(st, v, ty)
            fb, tb = bits_of(ty), bits_of(to)
            if fb is None or tb is None:
                st.env[ins.res] = Lin.atom(self.newatom("cvt"))
                return [st]
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                st.env[ins.res] = x
                return [st]
            out = []
            if op == "zext" and ins.res in self.packing()[0] and isinstance(x, Lin):
                st.env[ins.res] = self.join(st, [(4, x), (4, Lin.const(0))], to)
                return [st]
            if op in ("zext", "sext"):
                if ty == "i1":
                    for s, e in self.number_of(st, x, 1):
                        s = s.fork()
                        if op == "sext":
                            e = e.scale(-1)
                        s.env[ins.res] = e
                        out.append(s)
                    return out
                if op == "sext":
                    st.env[ins.res] = x
                    return [st]
                if nneg:
                    for s in self.assume(st, ("le", x.scale(-1))):
                        s = s.fork()
                        s.env[ins.res] = x
                        out.append(s)
                    return out
                for s, e in self.unsigned(st, x, fb):
                    s = s.fork()
                    s.env[ins.res] = e
                    out.append(s)
                return out
            # trunc
            parts = self.parts_of(x)
            if parts is not None and parts[0][0] * 8 == tb:
                st.env[ins.res] = parts[0][1]
                return [st]
            if to == "i1":
                if isinstance(x, Lin) and x.is_const():
                    st.env[ins.res] = ("T",) if x.k & 1 else ("F",)
                    return [st]
                # bool stored as i8
                if self.entails_le(st, x.scale(-1)) and self.entails_le(st, x.plus(-1)):
                    st.env[ins.res] = ("ne", x)
                    return [st]
                st.env[ins.res] = ("atom", ("bit0", x.key()))
                return [st]
            hi, lo = 2 ** (tb - 1) - 1, -(2 ** (tb - 1))
            if x.is_const() or (self.entails_le(st, x.plus(-hi)) and self.entails_le(st, x.scale(-1).plus(lo))):
                for s, e in self.wrap(st, x, tb, False):
                    s = s.fork()
                    s.env[ins.res] = e
                    out.append(s)
                return out
            # exact for values within one period (e.g. zero extended before)
            if self.entails_le(st, x.plus(-(2 ** tb - 1) - hi)) and self.entails_le(st, x.scale(-1).plus(lo - 2 ** tb)):
                for s, e in self.wrap(st, x, tb, False):
                    s = s.fork()
                    s.env[ins.res] = e
                    out.append(s)
                return out
            # x == e + 2^tb * q
            s = st.fork()
            q = Lin.atom(("high", tb, x.key()))
            e = x.add(q, -(2 ** tb))
            self.rng(s, e, tb)
            s.env[ins.res] = e
            return [s]
        if op == "getelementptr":
            return self.gep(st, ins)
        if op == "alloca":
            m = re.match(r"alloca (.*?)(, align.*)?$", t)
            a = f"alloca{self.tag}{ins.res}"
            e = Lin.atom(a)
            st.cons += [e.scale(-1).plus(4096), e.plus(-(2 ** 47))]
            st.env[ins.res] = e
            return [st]
        if op == "load":
            m = re.match(r"load (?:volatile |atomic )*(.*)$", t)
            ty, rest = read_type(m[1])
            parts = split_top(rest.lstrip(", "))
            p = self.first_operand(parts[0].split(" ", 1)[1])
            addr = self.val(st, p, "ptr")
            out = []
            for s, addr in self.resolve(st, addr, ty):
                s.env[ins.res] = self.load(s, addr, ty)
                out.append(s)
            return out
        if op == "store":
            m = re.match(r"store (?:volatile |atomic )*(.*)$", t)
            parts = split_top(m[1])
            ty, v = read_type(parts[0])
            p = self.first_operand(parts[1].split(" ", 1)[1])
            addr = self.val(st, p, "ptr")
            if ty.startswith(("<", "[", "{")) or bits_of(ty) is None and ty not in REAL:
                if v == "zeroinitializer":
                    self.store(st, addr, ty, Lin.const(0))
                else:
                    self.store(st, addr, ty, Lin.atom(self.newatom("agg")))
                return [st]
            x = self.val(st, v, ty)
            if self.base_of(addr) is None or self.base_of(addr) in st.escaped:
                self.escape(st, x)
            out = []
            for s, addr in self.resolve(st, addr, ty):
                self.store(s, addr, ty, x)
                out.append(s)
            return out
        if op == "call":
            out = []
            for s, res, throws in self.call(st, ins):
                if throws and self.leaving is not None:
                    s2 = s.fork()
                    if throws != "only":
                        s2.opaque, s2.thrown = True, None
                    self.leaving.append((s2, None, "only"))
                elif throws and self.contain and (throws == "only" or (self.callee(ins) or "").startswith("may_")):
                    self.event(s, "throw", "an exception leaves", ins)
                if throws == "only":
                    continue
                if ins.res:
                    s.env[ins.res] = res
                out.append(s)
            return out
        if op == "extractvalue":
            m = re.match(r"extractvalue (.*)$", t)
            ty, rest = read_type(m[1])
            parts = split_top(rest)
            agg = st.env.get(parts[0])
            idx = tuple(int(x) for x in parts[1:])
            v = agg.get(idx) if isinstance(agg, dict) else None
            if v is None:
                fs, _ = self.m.fields(ty)
                ft = fs[idx[0]] if fs else "i64"
                v = self.mkval(st, self.newatom("ev"), ft)
                if isinstance(agg, dict):
                    agg2 = dict(agg)
                    agg2[idx] = v
                    st.env[parts[0]] = agg2
            st.env[ins.res] = v
            return [st]
        if op == "insertvalue":
            m = re.match(r"insertvalue (.*)$", t)
            ty, rest = read_type(m[1])
            parts = split_top(rest)
            agg = st.env.get(parts[0]) if parts[0].startswith("%") else {}
            et, ev = read_type(parts[1])
            d = dict(agg) if isinstance(agg, dict) else {}
            d[tuple(int(x) for x in parts[2:])] = self.val(st, ev, et)
            st.env[ins.res] = d
            return [st]
        if op == "landingpad":
            out = []
            for s, sel in self.landing(st, t):
                if sel == Lin.const(0) and " cleanup" not in t:
                    if self.contain:  # no handler here or further out
                        self.event(s, "throw", "an exception leaves", ins)
                    continue
                s.env[ins.res] = {} if sel is None else {(1,): sel}
                if s.thrown and s.thrown[1] is not None:
                    s.env[ins.res][(0,)] = s.thrown[1]
                out.append(s)
            return out
        if op in ("atomicrmw", "cmpxchg", "fence"):
            if op == "fence":
                return [st]
            ty = "i32"
            m = re.search(r"ptr (\S+?),", t)
            addr = self.val(st, m[1], "ptr")
            mm = re.search(r", (i\d+) ", t)
            ty = mm[1] if mm else "i32"
            if op == "atomicrmw":
                old = self.load(st, addr, ty)
                st.env[ins.res] = old
                ma = re.match(r"atomicrmw (?:volatile )?(\w+) ptr \S+, i\d+ (\S+?),? ", t)
                new = Lin.atom(self.newatom("rmw"))
                if ma and ma[1] in ("add", "sub") and isinstance(old, Lin):
                    y = self.val(st, ma[2], ty)
                    new = old.add(y) if ma[1] == "add" else old.sub(y)
                self.store(st, addr, ty, new)
            else:
                st.env[ins.res] = {}
                self.store(st, addr, ty, Lin.atom(self.newatom("cas")))
            return [st]
        m = re.match(r"(fadd|fsub|fmul|fdiv|fneg) (?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*(float|double|x86_fp80) (.*)$", t)
        if m:
            xs = [self.val(st, a, m[2]) for a in split_top(m[3])]
            if op == "fneg":
                r = xs[0].scale(-1)
            elif op == "fadd":
                r = xs[0].add(xs[1])
            elif op == "fsub":
                r = xs[0].sub(xs[1])
            elif op == "fmul":
                r = reals.mul(*xs)
            elif xs[1].c:
                r = reals.mul(xs[0], reals.inv(xs[1]))
            else:
                r = reals.atom(self.newatom("cell"))
            if len(r.c) > 60:
                raise TooComplex("polynomial")
            st.env[ins.res] = r
            return [st]
        m = re.match(r"(fpext|fptrunc|sitofp|uitofp) (?:nneg )?(\S+) (\S+) to (float|double)$", t)
        if m:
            x = self.val(st, m[3], m[2])
            if op in ("fpext", "fptrunc"):
                st.env[ins.res] = x
            elif isinstance(x, Lin) and x.is_const():
                st.env[ins.res] = reals.const(x.k if op == "sitofp" or x.k >= 0 else x.k + 2 ** bits_of(m[2]))
            else:
                st.env[ins.res] = reals.atom(("f", op, repr(x)))
            return [st]
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "frem",
                  "shufflevector", "extractelement", "insertelement"):
            ops = tuple(re.findall(r"%[\w.]+", t))
            m = re.match(r".* to (i\d+)$", t)
            key = ("f", re.sub(r"%[\w.]+", "%", t), tuple(repr(st.env.get(o)) for o in ops))
            st.env[ins.res] = self.mkval(st, key, m[1] if m else "double")
            return [st]
        raise TooComplex("instruction " + op)

    @staticmethod
    def first_operand(p):
        # drop the ordering of atomic accesses
        return re.sub(r" (syncscope\(\S+\) )?(unordered|monotonic|acquire|release|acq_rel|seq_cst)$", "", p)

    def gep(self, st, ins):
        m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*(.*)$", ins.text)
        ty, rest = read_type(m[1])
        parts = split_top(rest.lstrip(", "))
        base = self.val(st, parts[0].split(" ", 1)[1], "ptr")
        states = [(st, base)]
        cur = ty
        for n, p in enumerate(parts[1:]):
            it, iv = read_type(p)
            nxt = []
            for s, e in states:
                x = self.val(s, iv, it)
                if n == 0:
                    sz = self.m.size_align(cur)[0]
                    nxt.append((s, e.add(x, sz)))
                else:
                    fs, _ = self.m.fields(cur)
                    if fs:
                        off, _t = self.m.field_offset(cur, x.k)
                        nxt.append((s, e.plus(off)))
                    else:
                        mm = re.match(r"^[\[<](\d+) x (.*)[\]>]$", self.m.types.get(cur, cur))
                        sz = self.m.size_align(mm[2])[0]
                        nxt.append((s, e.add(x, sz)))
            states = nxt
            if n > 0:
                fs, _ = self.m.fields(cur)
                if fs:
                    cur = self.m.field_offset(cur, int(iv))[1]
                else:
                    mm = re.match(r"^[\[<](\d+) x (.*)[\]>]$", self.m.types.get(cur, cur))
                    cur = mm[2]
        out = []
        for s, e in states:
            s.env[ins.res] = e
            out.append(s)
        return out

    # ---- calls
    def callee(self, ins):
        m = re.search(r'@("[^"]+"|[\w.$\-]+)\(', ins.text)
        return m[1].strip('"') if m else None

    def call_attrs(self, ins, name):
        txt = ""
        tail = ins.text[ins.text.rfind(")") + 1 :]
        for g in re.findall(r"#\d+", tail):
            txt += " " + self.m.attrgroups.get(g, "")
        d = self.m.decl_attrs.get(name)
        if d:
            for g in d[1]:
                txt += " " + self.m.attrgroups.get(g, "")
        if name in self.m.funcs:
            for g in re.findall(r"#\d+", self.m.funcs[name].attrs):
                txt += " " + self.m.attrgroups.get(g, "")
        return txt

    def pure_call(self, ins):
        n = self.callee(ins)
        if n is None:
            return False
        if n.startswith(("any_", "coin", "opaque_value")):
            return True  # inputs of the driver
        a = self.call_attrs(ins, n)
        return "memory(none)" in a or "memory(read)" in a or "memory(argmem: read)" in a

    def args(self, st, ins):
        m = re.search(r'@("[^"]+"|[\w.$\-]+)\(', ins.text)
        if m:
            s = ins.text[m.end() :]
        else:
            m = re.search(r"%(\"[^\"]+\"|[\w.$\-]+)\(", ins.text)
            s = ins.text[m.end() :] if m else ")"
        depth = 1
        k = 0
        for k, ch in enumerate(s):
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
                if depth == 0:
                    break
        out = []
        for p in split_top(s[:k]):
            if p.startswith("metadata"):
                out.append(("metadata", None, p))
                continue
            t, rest = read_type(p)
            rest = strip_attrs(rest)
            out.append((t, self.val(st, rest, t), rest))
        return out

    def rettype(self, ins):
        m = re.match(r"(?:call|invoke) (.*)$", ins.text)
        s = m[1]
        while True:
            s2 = re.sub(r"^(fastcc|ccc|coldcc|nnan|ninf|nsz|arcp|contract|afn|reassoc|fast|cc\d+) ", "", s)
            s2 = strip_attrs(s2)
            if s2 == s:
                break
            s = s2
        return read_type(s)[0]

    def call(self, st, ins):
        """list of (state, result, throws)  throws in (False, True, "only")"""
        name = self.callee(ins)
        rt = self.rettype(ins)
        st = st.fork()

        def fresh(s, hint):
            return self.mkval(s, self.newatom(hint), rt) if rt != "void" else None

        if name is None:
            m = re.search(r" (%(?:\"[^\"]+\"|[\w.$\-]+))\(", ins.text)
            target = st.env.get(m[1]) if m else None
            if isinstance(target, Lin) and len(target.c) == 1 and not target.k:
                (a, q), = target.c.items()
                if q == 1 and isinstance(a, str) and a.startswith("@"):
                    out = self.descend(st, a[1:].strip('"'), [v for _, v, _ in self.args(st, ins)])
                    if out is not None:
                        return out
            for t, v, _ in self.args(st, ins):
                self.escape(st, v)
            self.clobber(st)
            return [(st, fresh(st, "icall"), "nounwind" not in self.call_attrs(ins, ""))]
        if name == "violation":
            a = self.args(st, ins)
            msg = a[0][2] if a else ""
            if a and isinstance(a[0][1], Lin) and len(a[0][1].c) == 1:
                msg = str(next(iter(a[0][1].c)))
            g = self.m.globals.get(msg.lstrip("@"), "")
            mm = re.search(r'c"(.*)\\00"', g)
            txt = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x[1], 16)), mm[1]) if mm else msg
            self.event(st, "violation", txt, ins)
            return []
        if is_throw(name) or name in TERMINATE:
            what = name
            if name == "__cxa_throw":
                a = self.args(st, ins)
                what = a[1][2] if len(a) > 1 else name
            if name in TERMINATE:
                self.event(st, "terminate", "std::terminate", ins)
                return []
            if self.allow_throw is not None and not any(re.search(x, what) for x in self.allow_throw):
                self.event(st, "throw", what, ins)
            st.thrown = None
            if name == "__cxa_throw" and what.startswith("@_ZTI"):
                st.thrown = (what, a[0][1])
            elif name == "__cxa_rethrow" and st.caught:
                st.thrown = st.caught[-1]
            elif name in LIBRARY_THROWS:
                st.thrown = (LIBRARY_THROWS[name], None)
            return [(st, None, "only")]
        if name == "__cxa_begin_catch":
            st.caught += (st.thrown,)
            return [(st, self.args(st, ins)[0][1], False)]
        if name == "__cxa_end_catch":
            st.caught = st.caught[:-1]
            return [(st, None, False)]
        if name.startswith("llvm."):
            return self.intrinsic(st, ins, name, rt)
        if name in ("_Znwm", "_Znam", "malloc", "__cxa_allocate_exception", "_ZnwmSt11align_val_t"):
            a = self.newatom("new")
            e = Lin.atom(a)
            self.alignment[a] = 16
            st.cons += [e.scale(-1).plus(4096), e.plus(-(2 ** 47))]
            return [(st, e, False)]
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free", "__cxa_free_exception", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
            return [(st, None, False)]
        if name in ABORT:
            self.event(st, "abort", name, ins)
            return []
        attrs = self.call_attrs(ins, name)
        args = self.args(st, ins)
        if rt in REAL and name in ("fabs", "fmax", "fmin", "sqrt", "fma"):
            return self.real_function(st, name, [v for _, v, _ in args])
        if name == "__dynamic_cast":
            # the dynamic type of an object does not change
            return [(st, self.mkval(st, ("call", name, tuple(repr(v) for _, v, _ in args)), rt), False)]
        if name in ("bcmp", "memcmp", "strcmp", "strncmp", "strlen"):
            r = self.compare_bytes(st, name, [v for _, v, _ in args])
            if r is not None:
                return [(st, Lin.const(r), False)]
        if "memory(none)" in attrs:
            key = ("call", name, tuple(repr(v) for _, v, _ in args))
            v = self.mkval(st, key, rt) if rt != "void" else None
            return [(st, v, "nounwind" not in attrs)]
        if "memory(read)" in attrs or "memory(argmem: read)" in attrs:
            key = ("call", name, tuple(repr(v) for _, v, _ in args), str(st.memver))
            v = self.mkval(st, key, rt) if rt != "void" else None
            return [(st, v, "nounwind" not in attrs)]
        if name.startswith(("any_", "coin", "opaque_value")) and not args:
            return [(st, fresh(st, "call." + name[:30]), False)]
        thrown = self.m.only_throws(name)
        if (self.inside or self.m.recursive(name)) and not thrown and "noreturn" not in attrs:
            out = self.descend(st, name, [v for _, v, _ in args])
            if out is not None:
                return out
        for t, v, _ in args:
            if t == "ptr":
                self.escape(st, v)
        self.clobber(st)
        if thrown:
            if self.allow_throw is not None and not all(any(re.search(x, t) for x in self.allow_throw) for t in thrown):
                self.event(st, "throw", " ".join(thrown), ins)
            st.thrown = (thrown[0], None) if len(thrown) == 1 else None
            return [(st, None, "only")]
        if "noreturn" in attrs:
            self.event(st, "abort", name, ins)
            return []
        return [(st, fresh(st, "call." + name[:30]), "nounwind" not in attrs)]

    CONTEXT = ("f", "succs", "rpo", "preds", "loops", "latches", "_eventful", "_packing", "_defs", "left", "tag", "leaving", "MAX_PATHS", "inside")

    def descend(self, st, name, args):
        """The ways a call through a known pointer to a function of this module
        can end; None when the function is not followed."""
        f = self.m.funcs.get(name)
        if f is None or len(f.order) > 80 or len(self.inside) >= 3 or self.inside.count(name) > 1 or len(f.params) != len(args):
            return None
        saved = {k: getattr(self, k) for k in self.CONTEXT if hasattr(self, k)}
        counts = self.quiet
        s = st.fork()
        s.env = {p: v for (_, p), v in zip(f.params, args)}
        try:
            self.f = f
            if name not in self._contexts:
                self.cfg()
                self._contexts[name] = (self.succs, self.rpo, self.preds, self.loops, self.latches)
            self.succs, self.rpo, self.preds, self.loops, self.latches = self._contexts[name]
            self._eventful, self._packing = set(f.order), None
            if hasattr(self, "_defs"):
                del self._defs
            self.tag, self.leaving, self.left = "." + self.newatom("in"), [], 0
            self.inside += (name,)
            self.MAX_PATHS = min(self.MAX_PATHS, self.paths + 300)
            self.flow(self.rpo, f.order[0], [(s, None)])
            out = self.leaving
        except TooComplex:
            self.quiet = counts
            out = None
        finally:
            if hasattr(self, "_defs"):
                del self._defs
            for k, v in saved.items():
                setattr(self, k, v)
        for s, _, _ in out or ():
            s.env = dict(st.env)
        return out

    def known_bytes(self, st, addr, n):
        """the n bytes at an address when all of them are known constants"""
        if not isinstance(addr, Lin) or len(addr.c) != 1:
            return None
        b = self.root(addr)
        cells = self.m.constants(b[1:]) if b and b[0] == "@" else None
        key, out = self.cellkey(addr), []
        for i in range(n):
            if cells is not None:
                c = cells.get(addr.k + i)
                byte = int(c[2]) & 255 if c and c[1] == "i8" and re.match(r"-?\d+$", c[2]) else 0 if c and c[2] == "zeroinitializer" and c[1] == "i8" else None
            else:
                byte = self.compose(st, (key[0], key[1] + i), 1)
            if byte is None:
                return None
            out.append(byte)
        return bytes(out)

    def compare_bytes(self, st, name, a):
        def byte(addr, i):
            c = self.known_bytes(st, addr.plus(i), 1)
            return None if c is None else c[0]

        if name == "strlen":
            for i in range(256):
                if byte(a[0], i) in (0, None):
                    return i if byte(a[0], i) == 0 else None
            return None
        n = 256
        if name != "strcmp":
            if not a[2].is_const() or not 0 <= a[2].k <= 256:
                return None
            n = a[2].k
        for i in range(n):
            x, y = byte(a[0], i), byte(a[1], i)
            if x is None or y is None:
                return None
            if x != y:
                return 1 if x > y or name == "bcmp" else -1
            if x == 0 and name.startswith("str"):
                return 0
        return None if name == "strcmp" else 0

    @staticmethod
    def unit(st, d):
        if reals.UNIT in d.c:
            u = Lin({reals.UNIT: -1}, 1)
            if u not in st.cons:
                st.cons.append(u)
        for m in d.c:
            if m[0] == "m" and m[1] and all(n % 2 == 0 for _, n in m[1]):
                e = Lin({m: -1}, 0)  # an even power is not negative
                if e not in st.cons:
                    st.cons.append(e)
            elif m[0] == "m" and len(m[1]) > 1:  # the sign of a product is that of its factors
                sign = 1
                for x, n in m[1]:
                    if n % 2 == 0:
                        continue
                    known = [1 if e.c[("m", ((x, 1),))] < 0 else -1 for e in st.cons if len(e.c) == 1 and ("m", ((x, 1),)) in e.c and e.k >= 0]
                    sign = sign * known[0] if known else 0
                if sign:
                    e = Lin({m: -sign}, 0)
                    if e not in st.cons:
                        st.cons.append(e)

    def real_function(self, st, name, a):
        if name in ("fabs", "maxnum", "minnum", "maximum", "minimum", "fmax", "fmin"):
            x, y = (a[0], a[0].scale(-1)) if name == "fabs" else (a[0], a[1])
            d = reals.integral(y.sub(x) if "min" not in name else x.sub(y))  # x is the result when d <= 0
            self.unit(st, d)
            out = [(s.fork(), x, False) for s in self.assume(st, ("le", d))]
            return out + [(s.fork(), y, False) for s in self.assume(st, ("le", d.scale(-1).plus(1)))]
        if name in ("fmuladd", "fma"):
            return [(st, reals.mul(a[0], a[1]).add(a[2]), False)]
        if name == "sqrt":
            r = reals.sqrt(a[0])
            s = st.fork()
            s.cons.append(reals.integral(r).scale(-1))
            return [(s, r, False)]
        return None

    def intrinsic(self, st, ins, name, rt):
        base = name.split(".")[1]
        if name.startswith("llvm.eh.typeid.for"):
            m = re.search(r"\(ptr [^@]*(@[\w.$]+)", ins.text)
            if m:
                return [(st, self.typeid(m[1]), False)]
        if base in ("lifetime", "dbg", "experimental", "invariant", "launder", "prefetch", "donothing", "stacksave", "stackrestore", "var", "sideeffect"):
            if base == "launder":
                a = self.args(st, ins)
                return [(st, a[0][1], False)]
            return [(st, self.mkval(st, self.newatom("i"), rt) if rt != "void" else None, False)]
        if base in ("trap", "ubsantrap", "debugtrap"):
            self.event(st, "ub", "undefined behaviour (compiler instrumentation)", ins)
            return []
        if base == "assume":
            c = self.formula_of(self.args(st, ins)[0][1])
            return [(s.fork(), None, False) for s in self.assume(st, c)]
        if base in ("memcpy", "memmove", "memset"):
            a = self.args(st, ins)
            dst, n = a[0][1], a[2][1]
            if base == "memset" and n.is_const() and a[1][1].is_const() and a[1][1].k == 0:
                self.store(st, dst, f"[{n.k} x i8]", Lin.const(0))
                return [(st, None, False)]
            if base != "memset" and n.is_const():
                src = a[1][1]
                sk, dk = self.cellkey(src), self.cellkey(dst)
                copied = {}
                for (kb, ko), (sz, v) in list(st.mem.items()):
                    if kb == sk[0] and sk[1] <= ko and ko + sz <= sk[1] + n.k:
                        copied[(dk[0], dk[1] + ko - sk[1])] = (sz, v)
                ver = st.memver if self.base_of(src) is None or self.base_of(src) in st.escaped else st.lver
                text = self.known_bytes(st, src, n.k) if n.k <= 64 and self.root(src) and self.root(src)[0] == "@" else None
                if text is not None:
                    copied = {(dk[0], dk[1] + i): (1, Lin.const(c)) for i, c in enumerate(text)}
                part = any(kb == sk[0] and ko < sk[1] + n.k and sk[1] < ko + sz and not (sk[1] <= ko and ko + sz <= sk[1] + n.k)
                           for (kb, ko), (sz, _) in st.mem.items())
                self.store(st, dst, f"[{n.k} x i8]", Lin.atom(self.newatom("cpy")))
                del st.mem[dk]
                at = 0
                for (_, ko), (sz, v) in sorted(copied.items(), key=lambda c: c[0][1]) + [((None, dk[1] + n.k), (0, None))]:
                    if ko - dk[1] > at:
                        # bytes that were not read so far
                        v = Lin.atom(self.newatom("cpy") if part else ("cpyof", sk[0], sk[1] + at, ver))
                        st.mem[(dk[0], dk[1] + at)] = (ko - dk[1] - at, v)
                    at = max(at, ko - dk[1] + sz)
                st.mem.update(copied)
                if self.base_of(dst) is None or self.base_of(dst) in st.escaped:
                    for _, v in copied.values():
                        self.escape(st, v)
                return [(st, None, False)]
            self.escape(st, dst)
            self.clobber(st)
            return [(st, None, False)]
        a = self.args(st, ins)
        if base in ("smax", "smin", "umax", "umin"):
            x, y = a[0][1], a[1][1]
            bits = bits_of(a[0][0])
            out = []
            pred = {"smax": "sge", "smin": "sle", "umax": "uge", "umin": "ule"}[base]
            for s, f in self.icmp(st, pred, x, y, bits):
                for s2 in self.assume(s, f):
                    out.append((s2.fork(), x, False))
                for s2 in self.assume(s, self.neg(f)):
                    out.append((s2.fork(), y, False))
            return out
        if base == "abs":
            x = a[0][1]
            out = []
            for s in self.assume(st, ("le", x.scale(-1))):
                out.append((s.fork(), x, False))
            bits = bits_of(a[0][0])
            for s in self.assume(st, ("le", x.plus(1))):
                for s2, e in self.wrap(s, x.scale(-1), bits, a[1][2] in ("true", "1")):
                    out.append((s2.fork(), e, False))
            return out
        if base in ("sadd", "ssub", "uadd", "usub", "smul", "umul"):
            x, y = a[0][1], a[1][1]
            bits = bits_of(a[0][0])
            kind = name.split(".")[2]
            if kind == "with" and base in ("sadd", "ssub"):
                e = x.add(y) if base == "sadd" else x.sub(y)
                hi, lo = 2 ** (bits - 1) - 1, -(2 ** (bits - 1))
                out = []
                for f, d, o in (
                    (("and", ("le", e.plus(-hi)), ("le", e.scale(-1).plus(lo))), 0, "F"),
                    (("le", e.scale(-1).plus(hi + 1)), -(2 ** bits), "T"),
                    (("le", e.plus(-(lo - 1))), 2 ** bits, "T"),
                ):
                    for s in self.assume(st, f):
                        s = s.fork()
                        out.append((s, {(0,): e.plus(d), (1,): (o,)}, False))
                return out
            if kind == "with" and base in ("uadd", "usub"):
                out = []
                for s1, ux in self.unsigned(st, x, bits):
                    for s2, uy in self.unsigned(s1, y, bits):
                        e = ux.add(uy) if base == "uadd" else ux.sub(uy)
                        ok = ("le", e.plus(-(2 ** bits - 1))) if base == "uadd" else ("le", e.scale(-1))
                        for f, d, o in ((ok, 0, "F"), (self.neg(ok), -(2 ** bits) if base == "uadd" else 2 ** bits, "T")):
                            for s3 in self.assume(s2, f):
                                for s4, w in self.wrap(s3, e.plus(d), bits, False):
                                    out.append((s4.fork(), {(0,): w, (1,): (o,)}, False))
                return out
            if kind == "sat" and base in ("ssub", "sadd"):
                e = x.add(y) if base == "sadd" else x.sub(y)
                hi, lo = 2 ** (bits - 1) - 1, -(2 ** (bits - 1))
                out = []
                for f, r in (
                    (("and", ("le", e.plus(-hi)), ("le", e.scale(-1).plus(lo))), e),
                    (("le", e.scale(-1).plus(hi + 1)), Lin.const(hi)),
                    (("le", e.plus(-(lo - 1))), Lin.const(lo)),
                ):
                    for s in self.assume(st, f):
                        out.append((s.fork(), r, False))
                return out
            if kind == "sat" and base in ("usub", "uadd"):
                out = []
                for s1, ux in self.unsigned(st, x, bits):
                    for s2, uy in self.unsigned(s1, y, bits):
                        e = ux.add(uy) if base == "uadd" else ux.sub(uy)
                        if base == "usub":
                            alts = ((("le", e.scale(-1)), e), (("le", e.plus(1)), Lin.const(0)))
                        else:
                            alts = ((("le", e.plus(-(2 ** bits - 1))), e), (("le", e.scale(-1).plus(2 ** bits)), Lin.const(2 ** bits - 1)))
                        for f, r in alts:
                            for s3 in self.assume(s2, f):
                                for s4, w in self.wrap(s3, r, bits, False):
                                    out.append((s4.fork(), w, False))
                return out
            if kind == "with" and base in ("smul",) and (x.is_const() or y.is_const()):
                e = y.scale(x.k) if x.is_const() else x.scale(y.k)
                hi, lo = 2 ** (bits - 1) - 1, -(2 ** (bits - 1))
                out = []
                for s in self.assume(st, ("and", ("le", e.plus(-hi)), ("le", e.scale(-1).plus(lo)))):
                    out.append((s.fork(), {(0,): e, (1,): ("F",)}, False))
                for f in (("le", e.scale(-1).plus(hi + 1)), ("le", e.plus(-(lo - 1)))):
                    for s in self.assume(st, f):
                        s = s.fork()
                        out.append((s, {(0,): self.mkval(s, self.newatom("wrap"), a[0][0]), (1,): ("T",)}, False))
                return out
        if rt in REAL:
            r = self.real_function(st, base, [x[1] for x in a])
            if r is not None:
                return r
        if base == "ctpop" and isinstance(a[0][1], Lin) and a[0][1].is_const():
            return [(st, Lin.const(bin(a[0][1].k & (2 ** bits_of(rt) - 1)).count("1")), False)]
        if base in ("ctpop", "ctlz", "cttz", "bswap", "fshl", "fshr", "scmp", "ucmp", "is", "objectsize", "eh", "expect", "fabs", "threadlocal", "ptrmask", "vector", "fmuladd", "load", "type"):
            if base == "expect":
                return [(st, a[0][1], False)]
            key = ("intr", name, tuple(repr(x[1]) for x in a))
            return [(st, self.mkval(st, key, rt) if rt != "void" else None, False)]
        return [(st, self.mkval(st, ("intr", name, tuple(repr(x[1]) for x in a)), rt) if rt != "void" else None, False)]


def confirmed(ev):
    """Products of unknowns are separate dimensions of the polyhedra; an event that
    mentions them counts only when values of the factors lead to it."""
    import random

    def monos(c):
        return [m for m in c.c if isinstance(m, tuple) and m and m[0] == "m"]

    def base(m, acc):
        for x, _ in m[1]:
            if isinstance(x, tuple) and x and x[0] in ("sqrt", "inv"):
                lin = Lin(dict(x[1][0]), x[1][1])
                for q in monos(lin):
                    base(q, acc)
            else:
                acc.add(x)

    hard = [m for c in ev.cons for m in monos(c) if len(m[1]) > 1 or any(n != 1 or isinstance(x, tuple) and x and x[0] in ("sqrt", "inv") for x, n in m[1])]
    if not hard:
        return attained(ev)
    free = set()
    for m in hard:
        base(m, free)
    free = sorted(free, key=str)

    def value(m, at):
        v = Fraction(1)
        for x, n in m[1]:
            if x in at:
                b = at[x]
            else:
                lin = Lin(dict(x[1][0]), x[1][1])
                b = sum((Fraction(q) * value(y, at) for y, q in lin.c.items()), Fraction(0))
                if x[0] == "inv":
                    if b == 0:
                        return None
                    b = 1 / b
                else:
                    r = Fraction(round(float(b) ** 0.5 * 16), 16) if b >= 0 else None
                    if r is None or r * r != b:
                        return None
                    b = r
            if b == 0 and n < 0:
                return None
            v *= b ** n
        return v

    rnd = random.Random(1)
    vals = [Fraction(v) for v in (1, 2, -1, 3, -2, 0, 5, -3, 4)] + [Fraction(1, 2), Fraction(-1, 2)]
    for trial in range(3000):
        at = {x: rnd.choice(vals[:3 + trial // 100]) for x in free}
        out, bad = [], False
        for c in ev.cons:
            k, d = Fraction(0), {}
            for m, q in c.c.items():
                if isinstance(m, tuple) and m and m[0] == "m" and m[1] and (m in hard or m[1][0][0] in at):
                    v = value(m, at)
                    if v is None:
                        bad = True
                        break
                    d[reals.UNIT] = d.get(reals.UNIT, 0) + q * v
                else:
                    d[m] = d.get(m, 0) + q
            if bad:
                break
            e = Lin({m: q for m, q in d.items() if q}, c.k)
            if all(isinstance(m, tuple) and m and m[0] == "m" for m in e.c):
                e = reals.integral(e).plus(c.k)
            else:
                e = Lin({m: (int(q) if Fraction(q).denominator == 1 else q) for m, q in e.c.items()}, c.k)
                if any(not isinstance(q, int) for q in e.c.values()):
                    bad = True
                    break
            if set(e.c) == {reals.UNIT} and (e.c[reals.UNIT] > 0 or e.c[reals.UNIT] == 0 and e.k > 0) or not e.c and e.k > 0:
                bad = True
                break
            out.append(e)
        if not bad and not empty(out):
            return True
    return False


def derived(a):
    return isinstance(a, tuple) and a and a[0] in ("bw", "op", "shr", "ushr", "high", "cat")


def arguments(a):
    """linear forms a derived value is computed from"""
    if a[0] == "bw":
        return [Lin(dict(w[1][0]), w[1][1]) for w in a[2] if w[0] == "v"]
    if a[0] == "op":
        return [Lin(dict(k[0]), k[1]) for k in a[3:5]]
    if a[0] == "cat":
        return [Lin(dict(k[0]), k[1]) for _, k in a[1]]
    return [Lin(dict(a[-1][0]), a[-1][1])]


def compute(a, at):
    """value of a derived number, or None"""
    v = []
    for e in arguments(a):
        t = e.k
        for x, q in e.c.items():
            if x not in at:
                return None
            t += q * at[x]
        v.append(t)
    if a[0] == "cat":
        r = at8 = 0
        for (n, _), w in zip(a[1], v):
            r |= (w & (256 ** n - 1)) << at8
            at8 += 8 * n
        return r - 2 ** at8 if r >> (at8 - 1) else r
    bits = a[2] if a[0] == "op" else a[1]
    full = 2 ** bits - 1

    def signed(r):
        r &= full
        return r - 2 ** bits if r >> (bits - 1) else r

    if a[0] == "bw":
        words, it = [], iter(v)
        for w in a[2]:
            words.append(w[1] & full if w[0] == "k" else next(it) & full)
        r = 0
        for row in range(2 ** len(words)):
            if (a[3] >> row) & 1:
                m = full
                for i, w in enumerate(words):
                    m &= w if (row >> i) & 1 else ~w
                r |= m & full
        return signed(r)
    if a[0] == "shr":
        return v[0] >> a[2]
    if a[0] == "ushr":
        return (v[0] & full) >> a[2]
    if a[0] == "high":
        r = v[0] & full
        return (v[0] - signed(r)) >> bits
    x, y = v
    ux, uy = x & full, y & full
    if a[1] in ("mul", "and", "or", "xor"):
        return signed({"mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y}[a[1]])
    if a[1] == "shl":
        return signed(ux << uy) if uy < bits else None
    if a[1] == "lshr":
        return signed(ux >> uy) if uy < bits else None
    if a[1] == "ashr":
        return x >> uy if uy < bits else None
    if a[1] == "udiv":
        return signed(ux // uy) if uy else None
    if a[1] == "urem":
        return signed(ux % uy) if uy else None
    if y == 0:
        return None
    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
    return q if a[1] == "sdiv" else x - q * y if a[1] == "srem" else None


def attained(ev, trials=160):
    """Bitwise and other nonlinear results are separate dimensions; an event that
    mentions them counts only when values of the operands lead to it."""
    import random

    dep, todo = set(), [a for c in ev.cons for a in c.c if derived(a)]
    while todo:
        a = todo.pop()
        if a not in dep:
            dep.add(a)
            todo += [x for e in arguments(a) for x in e.c if derived(x)]
    if not any(a[0] in ("bw", "op", "cat") for a in dep):
        return True
    base = set()
    for e in list(ev.cons) + [e for a in dep for e in arguments(a)]:
        base |= {x for x in e.c if not derived(x)}
    base = sorted(base, key=str)
    if any(isinstance(x, tuple) and x and x[0] == "m" for x in base):
        return True
    rnd = random.Random(1)

    def fix(cons, a, v):
        out = []
        for e in cons:
            q = e.c.get(a)
            if q:
                c = dict(e.c)
                del c[a]
                e = Lin(c, e.k + q * v)
            if e.c:
                out.append(e)
            elif e.k > 0:
                return None
        return out

    def settle(cons, at):
        more = True
        while more:
            more = False
            for a in dep:
                if a not in at and all(x in at for e in arguments(a) for x in e.c):
                    v = compute(a, at)
                    if v is None:
                        return None
                    at[a] = v
                    cons = fix(cons, a, v)
                    if cons is None:
                        return None
                    more = True
        return cons

    few = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 64, 255, 256]
    for trial in range(trials):
        order = base[:]
        if trial:
            rnd.shuffle(order)
        at, cons = {}, settle(list(ev.cons), {})
        for a in order:
            if cons is None:
                break
            lo = hi = None
            for e in cons:
                if len(e.c) == 1 and a in e.c:
                    q = e.c[a]
                    if q > 0:
                        b = (-e.k) // q
                        hi = b if hi is None else min(hi, b)
                    else:
                        b = -((-e.k) // (-q))
                        lo = b if lo is None else max(lo, b)
            cand = [v for v in few if (lo is None or lo <= v) and (hi is None or v <= hi)]
            cand += [-v for v in few if (lo is None or lo <= -v) and (hi is None or -v <= hi)]
            if lo is not None:
                cand += [lo, lo + 1, lo + 2]
            if hi is not None:
                cand += [hi, hi - 1, hi - 2]
            if lo is not None and hi is not None and lo <= hi:
                cand += [rnd.randint(lo, hi) for _ in range(6)]
                cand += [v for v in (2 ** rnd.randrange(64) - rnd.randrange(2) for _ in range(6)) if lo <= v <= hi]
            rnd.shuffle(cand)
            done = False
            for v in cand[:8]:
                nx = fix(cons, a, v)
                if nx is not None and not empty(nx):
                    at[a] = v
                    cons = settle(nx, at)
                    done = True
                    break
            if not done:
                cons = None
        if cons is not None and not cons:
            return True
    return False


def describe(ev):
    """example point of the abstract state of an event, when one is found"""
    try:
        w = witness([c for c in ev.cons], None)
    except Exception:
        w = None
    if w is None:
        return None
    out = {}
    for k, v in w.items():
        if isinstance(k, str):
            out[k] = v
        elif k[0] == "m" and len(k[1]) == 1 and k[1][0][1] == 1 and isinstance(k[1][0][0], str):
            out[k[1][0][0]] = v
    return out
