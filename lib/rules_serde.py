"""C06: what the protobuf writer stores is what the reader restores."""
import re
from collections import defaultdict
import astq, fieldflow
from astq import walk
from common import Result

UNITS = ["src/haxorg/serde/SemOrgSerdeDefinitions.cpp", "src/haxorg/serde/SemOrgSerde.cpp"]
SET = ("mutable_", "set_", "add_")
PRE = SET + ("has_", "clear_", "release_")


def step(n, b):
    if n["k"] != "MCall":
        return None
    nm = n.get("fn", "").rsplit("::", 1)[-1]
    if b and b[0][0] == "P" and (n.get("cls", "").startswith("orgproto::") or n.get("dep") and nm not in fieldflow.THROUGH):
        for pre in PRE:
            if nm.startswith(pre):
                return (nm[len(pre):].lower(),)
        if nm.endswith("_case"):
            return ()
        return (nm.lower(),)
    if nm in ("for_field", "for_field_variant") and n.get("a"):
        a = n["a"][0]
        while a["k"] in ("Un", "Cast"):
            a = a["e"]
        if "name" not in a:
            return None
        e = (a["name"],)
        if nm == "for_field_variant":
            e += ("#" + re.sub(r"[uUlL]+$", "", n["targs"][0]),)
        return e
    return None


def norm(s):
    return s.replace("_", "").lower()


def root(p):
    return p[1] if len(p) > 1 else None


def presence(n, flow, env):
    """(polarity, paths) of a condition that only tests whether fields are there"""
    pol = True
    while n["k"] == "Un" and n["op"] == "!":
        pol, n = not pol, n["e"]
    while n["k"] in ("Cast", "Copy"):
        n = n["e"]
    if n["k"] == "MCall" and n.get("fn", "").rsplit("::", 1)[-1] in ("isNil", "empty", "isNull", "is_null"):
        pol = not pol
    if n["k"] in ("Bin", "Cond") or n["k"] == "Call" and "ce" not in n:
        return None
    return pol, n


class Side:
    """transfers of one direction"""

    def __init__(self, fns, fn, rec):
        self.fn = fn
        self.f = fieldflow.Flow(fns, step, lambda g: g.get("clsq") != "org::algo::proto_serde")
        self.envs = []
        self.f.run(fn, {0: "P", 1: "M"})
        self.rel = defaultdict(set)  # proto path -> member paths
        self.at = {}
        self.odd = []
        self.base = self.handed = False
        for l, n, ps, guards, cases in self.f.transfers:
            P = {p[1:] for p in ps if p[0] == "P"}
            M = {p[1:] for p in ps if p[0] == "M"}
            if () in P and () in M:
                if n["k"] == "Call" and "proto_serde" in n.get("fn", "") + str(n.get("ce", {}).get("nns", "")):
                    self.base = True
                else:
                    self.handed = True
                continue
            if len(P) == 1 and len(M) == 1:
                p, m = P.pop(), M.pop()
                if "()" in "".join(m[1:]):
                    m = m[:1] + m[1:[x.startswith("()") for x in m].index(True)]
                if p and m and not m[0].startswith("()"):
                    self.rel[p].add(m)
                    self.at.setdefault((p, m), (l, n, guards, cases))
                    continue
            if P or M:
                self.odd.append((l, P, M))
        self.members = {p[1] for p in self.f.mentions if p[0] == "M" and len(p) > 1}
        self.protos = {p[1] for p in self.f.mentions if p[0] == "P" and len(p) > 1}
        self.methods = {norm(m[2:]) for m in self.members if m.startswith("()")}
        # a parameter that is handed on as a whole may be read or filled there
        self.members |= {x["name"] for x in rec["fields"] if any(norm(x["name"]) in m for m in self.methods)} if rec else set()
        self.whole = any((p == ("M",)) for p in self.f.mentions) and not self.base or self.handed


def check(tier):
    res = Result("C06")
    res.level = "other"
    units = astq.facts(UNITS)
    pairs, recs, fns, errors = {}, {}, {}, 0
    for u, f in units.items():
        errors += f["errors"]
        off = {}
        for d in f["decls"]:
            if d["d"] == "rec":
                recs.setdefault(d["qual"], d)
            if d["d"] == "fn" and d.get("def") and "body" in d:
                fns.setdefault(u, {})[d["id"]] = d
                if d.get("clsq") == "org::algo::proto_serde" and d["name"] in ("read", "write") and len(d["params"]) == 2:
                    key = tuple(d.get("clsTargs") or ())
                    if len(key) == 2 and d["file"].endswith((".cpp", "SemOrgSerde.hpp")):
                        pairs.setdefault(key, {}).setdefault(d["name"], []).append((u, d))
    nt = ntransfers = undecided = 0
    seen = []

    def bad(fn, l, rule, what, key):
        res.violation(key, f"{fn['file']}:{l or fn['l']} ({fn['qual'][:120]})", rule, what)

    for key, sides in sorted(pairs.items()):
        if set(sides) != {"read", "write"} or any(len(v) > 1 and len({x[1]["file"] for x in v}) == 1 and len({x[1]["sig"] for x in v}) > 1 for v in sides.values()):
            continue
        T = key[1]
        rec = recs.get(T)
        w = Side(fns[sides["write"][0][0]], sides["write"][0][1], rec)
        r = Side(fns[sides["read"][0][0]], sides["read"][0][1], rec)
        if not rec or not rec.get("fields") and not w.rel and not r.rel:
            continue
        nt += 1
        seen.append(f"{T}: {len(w.rel)} fields")
        ntransfers += len(w.rel) + len(r.rel)
        fields = {f["name"] for f in rec["fields"] if not f.get("static")}
        for p in set(w.rel) & set(r.rel):
            if not (w.rel[p] & r.rel[p]):
                m1, m2 = sorted(w.rel[p])[0], sorted(r.rel[p])[0]
                l, *_ = r.at[(p, m2)]
                bad(r.fn, l, "same-field-both-ways",
                    f"message field {'.'.join(p)} is written from {T}::{'.'.join(m1)} but read into {'.'.join(m2)}", f"mismatch {T} {'.'.join(p)}")
        for m in {m for ms in w.rel.values() for m in ms} & {m for ms in r.rel.values() for m in ms}:
            pw, pr = {p for p in w.rel if m in w.rel[p]}, {p for p in r.rel if m in r.rel[p]}
            if not pw & pr:
                l, *_ = r.at[(min(pr), m)]
                bad(r.fn, l, "same-field-both-ways",
                    f"{T}::{'.'.join(m)} is written to message field {'.'.join(min(pw))} but read from {'.'.join(min(pr))}", f"mismatch {T} {'.'.join(m)}")
        for a, b, verb in ((w, r, "stored by write but never restored by read"), (r, w, "restored by read but never stored by write")):
            for p, ms in a.rel.items():
                for m in ms:
                    if m[0] not in b.members and not b.whole and m[0] in fields:
                        bad(b.fn, None, "field-in-both-directions", f"{T}::{m[0]} (message field {'.'.join(p)}) is {verb}", f"oneway {T} {m[0]}")
        for f in sorted(fields):
            if f not in w.members and f not in r.members and not w.whole and not r.whole and not f.startswith("_"):
                bad(w.fn, None, "every-field", f"{T}::{f} is neither stored nor restored", f"lost {T} {f}")
        for s, dirn in ((w, "write"), (r, "read")):
            undecided += len([o for o in s.odd if o[1] and o[2]])
            for (p, m), (l, n, guards, cases) in s.at.items():
                # presence tests have to be about the field that is transferred
                for c, taken in guards:
                    pr = presence(c, s.f, None)
                    if pr is None:
                        continue
                    pol, e = pr
                    gp = {q for _, q in [x for x in s.f.guardmentions if x[0] is c]}
                    gf = {(q[0], q[1:]) for q in gp if len(q) > 1}
                    if not gf:
                        continue
                    own = {("P", p), ("M", m)} | {("P", p[:i]) for i in range(1, len(p))} | {("M", m[:i]) for i in range(1, len(m))}
                    if not gf & own:
                        o = sorted(gf)[0]
                        if o[1][0] in (p[0], m[0]):
                            continue
                        bad(s.fn, l, "guard-tests-own-field", f"{dirn} of {T}::{'.'.join(m)} depends on the presence of {'.'.join(o[1])}", f"guard {T} {m[0]} {dirn}")
                    elif pol != taken:
                        bad(s.fn, l, "guard-polarity", f"{dirn} of {T}::{'.'.join(m)} happens only when the field is absent", f"polarity {T} {m[0]} {dirn}")
                for sw, sel, labels in cases:
                    if not labels or None in labels:
                        continue
                    if len(m) > 1 and m[1].startswith("#") and m[1][1:].isdigit() and any(q[0] == "M" and q[1:] == m[:1] for q in sel):
                        have = [x.get("cv") for x in labels]
                        if None not in have and have != [m[1][1:]]:
                            bad(s.fn, l, "alternative-of-its-case", f"{dirn} of alternative {m[1][1:]} of {T}::{m[0]} in the case of alternative(s) {', '.join(have)}", f"case {T} {m} {dirn}")
                    if any(q[0] == "P" and q[1:] == p[:len(q) - 1] for q in sel):
                        names = [x.get("name", "") for x in labels]
                        if all(x.startswith("k") for x in names) and norm(p[-1]) not in [norm(x[1:]) for x in names]:
                            bad(s.fn, l, "alternative-of-its-case", f"{dirn} of message field {'.'.join(p)} in the case of {', '.join(names)}", f"case {T} {p} {dirn}")
            for n in walk(s.fn["body"]):
                if n["k"] == "Switch":
                    fallthrough(s, n, bad, dirn, T)
        # every alternative of a variant
        wv = {(m[0], m[1]) for ms in w.rel.values() for m in ms if len(m) > 1 and m[1].startswith("#")}
        rv = {(m[0], m[1]) for ms in r.rel.values() for m in ms if len(m) > 1 and m[1].startswith("#")}
        for f in rec["fields"]:
            alts = variant_alts(f.get("ct") or f.get("t"))
            if alts and (f["name"] in {x[0] for x in wv} or f["name"] in {x[0] for x in rv}):
                for i in range(alts):
                    for side, have, dirn in ((w, wv, "write"), (r, rv, "read")):
                        if (f["name"], f"#{i}") not in have and not side.odd:
                            bad(side.fn, None, "every-alternative", f"alternative {i} of {T}::{f['name']} is not handled by {dirn}", f"alt {T} {f['name']} {i} {dirn}")
    if nt < 150:
        res.violation("anchor", UNITS[0], "anchor-present", f"only {nt} message classes with a reader and a writer were found, 150 expected")
    res.coverage = dict(explanation="field-transfer relation of every protobuf writer and reader, extracted from the type-checked AST", units_analysed=UNITS, rule="transfers of write and read are inverse relations over the fields of every message class",
                        classes=nt, transfers=ntransfers, not_understood=undecided, samples=seen[:12])
    res.extra["summary"] = f"{nt} classes, {ntransfers} field transfers, {undecided} not understood"
    return astq.settle(res, units)


def variant_alts(t):
    m = re.match(r"(?:const )?std::variant<(.*)>$", t or "")
    if not m:
        return 0
    depth, n = 0, 1
    for c in m[1]:
        depth += (c in "<(") - (c in ">)")
        n += c == "," and depth == 0
    return n


def fallthrough(s, n, bad, dirn, T):
    """a case that transfers an alternative must not run into the next one"""
    body = n["body"]["s"] if n["body"]["k"] == "Block" else [n["body"]]
    did = None
    for x in body:
        if x["k"] in ("Case", "Default"):
            if did is not None:
                if transfers_in(s, x):
                    bad(s.fn, x.get("l"), "case-ends", f"{dirn} of one alternative of {T} runs on into the next case", f"fall {T} {dirn}")
                did = None
            while x["k"] in ("Case", "Default"):
                x = x["s"]
        if x["k"] in ("Break", "Return", "Throw", "Continue") or x["k"] == "Block" and fieldflow.leaves(x, True):
            did = None
        elif transfers_in(s, x):
            did = x


def transfers_in(s, x):
    ids = {id(y) for y in walk(x)}
    return any(id(n) in ids for l, n, g, c in s.at.values())
