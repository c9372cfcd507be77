"""C08: the reflection data names every member, base and enumerator there is."""
import os, re
from collections import defaultdict
import astq
from astq import walk
from common import BUILD, REPO, Result

# need a layout library that is not installed
SKIP = re.compile(r"/(graph_avoid|graph_vpsc|graph_elk|graph_kiwi\w*|kiwi_ir|hstd_geometry_test|geometry_test\w*|kiwi\w*|avoid\w*|vpsc\w*|elk\w*)\.hpp$")

# Helper classes with members that are deliberately not reflected (callbacks,
# streams, caches, pointers into other objects). The document model itself has
# no exceptions except the source location and the wrapped JSON value.
PARTIAL = {
    "hstd::OperationsMsg": "level",
    "hstd::OperationsTracer": "activeLevel traceFile stream",
    "hstd::FuzzyMatcher::LinearScoreConfig": "isSeparator",
    "hstd::FuzzyMatcher": "isEqual matchScore",
    "hstd::log::record::ScopeState": "variables",
    **{"hstd::log::record::" + n: "args" for n in """ObjectCreatedEvent ObjectSnapshotEvent ObjectDestroyedEvent
        MetadataProcessNameEvent MetadataProcessLabelsEvent MetadataProcessSortIndexEvent MetadataThreadNameEvent
        MetadataThreadSortIndexEvent GenericMetadataEvent GlobalMemoryDumpEvent ProcessMemoryDumpEvent ClockSyncEvent LinkingIdEvent""".split()},
    "hstd::ext::Source::OffsetLine": "line",
    "hstd::ext::Source": "content",
    "hstd::ext::StrCache": "getFileSource",
    "hstd::ext::Config": "debug_report_info char_set",
    "hstd::ext::visual::VisElement": "custom",
    "hstd::ext::visual::VisGroup": "max_point original_id original_type",
    "hstd::log::log_record::log_data": "metadata",
    "org::sem::OrgJson": "value holds_value",
    "org::sem::Org": "loc",
    "org::parse::OrgParseParameters": "getFragments onBaseTokenizeDone onTokenizerDone onParseDone",
    "org::parse::OrgDirectoryParseParameters": "getParsedNode shouldProcessPath findIncludeTarget isDirectoryImpl isSymlinkImpl isRegularFileImpl resolveSymlinkImpl getDirectoryEntriesImpl",
    "org::parse::ParseContext": "source",
    "org::imm::ImmAstTrackingMapTransient": "oldCtx isTrackingParentImpl",
    "org::imm::ImmAstTrackingMap": "isTrackingParent",
    "org::imm::ImmAstContext": "debug",
    "org::AstTrackingGroup::RadioTarget": "target",
    "org::imm::OrgSelectorLink": "data",
    "org::imm::OrgSelectorCondition": "check isTarget debug link",
    "org::imm::OrgDocumentSelector": "debug",
    "org::graph::MapEdgeCollection": "edges",
    "org::graph::MapGraph": "nodes edges id_map",
    "org::graph::MapConfig": "impl",
    "org::graph::MapGraphState": "ast",
}
PARTIAL = {k: set(v.split()) for k, v in PARTIAL.items()}
# bases that are deliberately not reflected: tracing state, graph plumbing
PLUMBING = {"hstd::OperationsTracer", "hstd::ext::graph::IEdge", "hstd::ext::graph::IVertex", "hstd::ext::graph::EdgeIDBase"}
MACRO = re.compile(r"BOOST_DESCRIBE|DESC_FIELDS|DECL_FIELDS|SUB_VARIANTS|SUB_ENUM|DECL_ID")


def umbrella():
    """a unit that includes every header with reflected types"""
    hs = []
    for top in ("hstd", "haxorg"):
        for r, ds, fs in sorted(os.walk(os.path.join(REPO, "src", top))):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                if f.endswith(".hpp") and not SKIP.search(p):
                    with open(p, errors="replace") as fd:
                        if MACRO.search(fd.read()):
                            hs.append(os.path.relpath(p, os.path.join(REPO, "src")))
    # a header that others include in a certain order comes late
    late = [h for h in hs if "Adapter" in h]
    hs = [h for h in hs if h not in late] + late
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "umbrella-" + astq.tree_hash()[:16] + ".cpp")
    with open(out + ".tmp%d" % os.getpid(), "w") as f:
        f.write("".join(f"#include <{h}>\n" for h in hs))
    os.rename(out + ".tmp%d" % os.getpid(), out)
    return out


def member(fn):
    for n in walk(fn["body"]):
        if n["k"] in ("Ref", "DepRef") and n.get("name"):
            return n


def text(fn):
    for n in walk(fn["body"]):
        if n["k"] == "Str":
            return n["v"]


def check(tier):
    res = Result("C08")
    res.level = "other"
    f = astq.facts1(umbrella())
    recs, enums, descs, bases, protected = {}, {}, {}, {}, {}
    mem, ev = defaultdict(list), defaultdict(list)
    for d in f["decls"]:
        if d["d"] == "rec" and "fields" in d:
            if d["qual"] not in recs or len(d["fields"]) > len(recs[d["qual"]]["fields"]):
                recs[d["qual"]] = d
        elif d["d"] == "enum":
            enums.setdefault(d["qual"], d)
        elif d["d"] == "fn":
            nm = d["name"]
            if nm == "boost_base_descriptor_fn":
                c = d["params"][0]["ct"].removesuffix(" **")
                descs[c] = d
                bases[c] = d["cret"]
            elif "_boost_desc::" in d["qual"] and "body" in d and not d.get("dep"):
                if "enum_descriptor_fn" in d["qual"]:
                    if nm == "value":
                        ev[d["cret"]].append((member(d), d))
                elif nm == "pointer":
                    m = member(d)
                    if m and m.get("qual"):
                        mem[m["qual"].rsplit("::", 1)[0]].append((m["name"], d))
    nfields = nclasses = nbases = nenum = 0
    # the two functions of one descriptor follow each other
    last = None
    for d in f["decls"]:
        if d["d"] == "fn" and "_boost_desc::" in d["qual"] and "body" in d:
            if d["name"] in ("pointer", "value"):
                last = d
            elif d["name"] == "name" and last is not None:
                m, t = member(last), text(d)
                if m and t and m["name"] != t:
                    res.violation(f"name {last['qual']} {t}", f"{d['file']}:{d['l']}", "reflected-name",
                                  f"{m.get('qual', m['name'])} is reflected under the name \"{t}\"")
                last = None
    for c, d in sorted(descs.items()):
        r = recs.get(c)
        if r is None:
            continue
        nclasses += 1
        where = f"{d['file']}:{d['l']} ({c})"
        got = [n for n, _ in mem.get(c, [])]
        fields = [x for x in r["fields"] if x.get("acc", 0) == 0 and x["name"] and not x.get("static")]
        nfields += len(fields)
        miss = [x for x in fields if x["name"] not in got]
        if any(m.get("dep") for m in (r,)) or any(x["k"] == "DepRef" for n, dd in mem.get(c, []) for x in walk(dd["body"])):
            continue
        if miss and not (PARTIAL.get(c, set()) >= {x["name"] for x in miss} or {x["name"] for x in miss} in PARTIAL.values() and c not in PARTIAL):
            for x in miss:
                if x["name"] not in PARTIAL.get(c, ()):
                    res.violation(f"member {c} {x['name']}", where, "every-member-reflected",
                                  f"{c}::{x['name']} (line {x['l']}) is a public member that the reflection data of {c} does not list")
        got = [n for n, dd in mem.get(c, []) if dd["l"] == d["l"]]
        for n in sorted({n for n in got if got.count(n) > 1}):
            res.violation(f"twice {c} {n}", where, "member-reflected-once", f"{c}::{n} is listed {got.count(n)} times")
        listed = re.findall(r"base_descriptor<(.*?)>(?=[,>])", bases[c])
        for b in r["bases"]:
            if b.get("acc", 0) == 0 and b["ct"] in descs and b["ct"] in recs and b["ct"] not in PLUMBING:
                nbases += 1
                if not any(x.endswith(", " + b["ct"]) for x in listed):
                    res.violation(f"base {c} {b['ct']}", where, "every-base-reflected",
                                  f"{c} derives from {b['ct']}, whose members are therefore missing from the reflection data of {c}")
    for e, vs in sorted(ev.items()):
        d = enums.get(e)
        if d is None:
            continue
        nenum += 1
        got = [m["name"] for m, _ in vs]
        where = f"{vs[0][1]['file']}:{vs[0][1]['l']} ({e})"
        for n, _ in d["c"]:
            if n not in got:
                res.violation(f"enumerator {e} {n}", where, "every-enumerator-reflected", f"{e}::{n} has no entry in the reflection data of {e}")
        for n in sorted({n for n in got if got.count(n) > 1}):
            res.violation(f"twice {e} {n}", where, "enumerator-reflected-once", f"{e}::{n} is listed {got.count(n)} times")
    res.coverage = dict(analysed=dict(classes=nclasses, members=nfields, bases=nbases, enums=nenum, enumerators=sum(map(len, ev.values()))),
                        explanation="every header of src/hstd and src/haxorg with reflected types is type-checked in one unit; for each described class the public members, "
                        "direct described bases and for each described enumeration the enumerators are compared with the descriptor lists")
    if nclasses < 300 or nfields < 600 or nenum < 40:
        res.violation("anchor", "src", "anchor-present", f"only {nclasses} described classes, {nfields} members and {nenum} enumerations found")
    res.extra["summary"] = f"{nclasses} classes, {nfields} members, {nbases} bases, {nenum} enumerations"
    return astq.settle(res, {"umbrella": f})
