"""Driver of the wire-format analyses: which generated units are analysed for a property, and which rule violations belong to it."""
import importlib, multiprocessing as mp, os, resource, time, traceback
from . import gen, schema as SC
from .result import Result

MODS = dict(go="lang_go", csharp="lang_cs", typescript="lang_ts", assemblyscript="lang_ts", rust="lang_rust", c="lang_c", zig="lang_zig", swift="lang_swift")
def languages():
    here = os.path.dirname(__file__)
    return [l for l in gen.LANGS if os.path.exists(os.path.join(here, MODS[l] + ".py"))]
PER_MSG = ("reader", "writer", "size", "default", "cleanup", "alloc")
WHOLE = ("decls", "tags", "stream", "unpack", "pack", "packsize", "listcleanup", "listalloc")
COMMON = ["core", "nometa", "e256", "names", "empties", "one", "simpleonly", "nest", "wide"]
def find_schema(name):
    if name.startswith("sz_"):
        _, l, s = name.split("_"); return SC.sized(l, s)
    for v in vars(SC).values():
        if isinstance(v, SC.Schema) and v.name == name: return v
    raise KeyError(name)
SZ = SC.SIZE_TYPES
DIAG = [(a, SZ[(i + 3) % len(SZ)]) for i, a in enumerate(SZ)]
PAIRS = [(a, b) for a in SZ for b in SZ]
def szs(pairs): return ["sz_%s_%s" % p for p in pairs]
#            tasks, schemas (quick), schemas added when thorough, categories, languages
PLAN = {
 "C01": (("reader", "writer"), COMMON, szs(DIAG), {"read", "reject", "write", "write-err"}, None),
 "C02": (("reader", "writer"), COMMON, szs(DIAG), {"read", "reject", "write", "write-err"}, None),
 "C03": (("writer", "size", "pack", "packsize"), COMMON + szs(DIAG), szs([p for p in PAIRS if p not in DIAG]), {"size", "packsize"}, None),
 "C04": (("reader", "writer", "size"), szs(DIAG) + ["nometa"], szs([p for p in PAIRS if p not in DIAG]), {"prefix"}, None),
 "C05": (("writer", "tags", "stream"), ["core", "many", "one", "names", "empties"], [], {"tag"}, None),
 "C06": (("stream",), ["core", "many", "one", "simpleonly", "empties", "names"], [], {"stream"}, None),
 "C07": (("pack", "packsize"), ["core", "many", "one", "simpleonly", "empties"], [], {"pack", "packsize7"}, None),
 "C08": (("unpack",), ["core", "many", "one", "simpleonly", "empties"], [], {"unpack"}, None),
 "C09": (("reader", "stream", "unpack"), COMMON + szs(DIAG), szs([p for p in PAIRS if p not in DIAG]), {"C09"}, None),
 "C10": (("writer", "pack"), COMMON + szs(DIAG), szs([p for p in PAIRS if p not in DIAG]), {"C10", "write-err"}, ("c", "assemblyscript")),
 "C11": (("reader",), COMMON, [], {"C11"}, None),
 "C12": (("decls", "reader", "writer", "size"), ["core", "e256", "names"], [], {"enumdef", "enum"}, None),
 "C13": (("default",), COMMON, [], {"default"}, None),
 "C14": (("cleanup", "listcleanup"), COMMON + szs(DIAG[:2]), szs([p for p in PAIRS if p not in DIAG[:2]]), {"C14"}, ("c", "zig")),
 "C15": (("alloc", "listalloc"), COMMON + szs(DIAG), szs([p for p in PAIRS if p not in DIAG]), {"C15"}, ("c",)),
 "C16": (("listalloc",), COMMON, szs(DIAG[:3]), {"C16"}, ("c", "zig")),
 "C17": (("decls",), COMMON + ["many"] + szs(DIAG), szs(PAIRS), {"decl"}, None),
}
_built = {}
def build(lang, sname, text, S=None):
    key = (lang, sname)
    if key not in _built:
        from .core import reset_syms
        _built.clear(); reset_syms()
        mod = importlib.import_module("sa." + MODS[lang])
        S = S or find_schema(sname)
        _built[key] = mod.build(text, S, True) if lang == "assemblyscript" else mod.build(text, S)
    return _built[key]
def run_unit(u):
    lang, sname, text, T, tasks, S = u
    from . import model
    from .core import AnalysisError, Budget
    t0 = time.time(); out = dict(lang=lang, schema=sname, T=T, findings=[], stats={}, broken=[], tasks=[])
    try:
        m = build(lang, sname, text, S)
        rep = model.Report(lang, m.schema)
        todo = []
        for t in tasks:
            if T is not None:
                if t == "reader": todo.append((t, model.check_reader, (m, rep, T)))
                elif t == "writer": todo += [(t, model.check_writer, (m, rep, T, False)), (t, model.check_writer, (m, rep, T, True))]
                elif t == "size": todo.append((t, model.check_size, (m, rep, T)))
                elif t == "default": todo.append((t, model.check_default, (m, rep, T)))
                elif t == "alloc" and hasattr(m, "check_alloc"): todo.append((t, m.check_alloc, (rep, T)))
                elif t == "cleanup" and hasattr(m, "check_cleanup"): todo.append((t, m.check_cleanup, (rep, T)))
            else:
                f = {"decls": model.check_decls, "tags": model.check_tags, "stream": model.check_stream, "unpack": model.check_unpack, "pack": model.check_pack, "packsize": model.check_packed_size}.get(t)
                if f: todo.append((t, f, (m, rep)))
                elif t == "listalloc" and hasattr(m, "check_alloc"): todo.append((t, m.check_alloc, (rep, None)))
                elif t == "listcleanup" and hasattr(m, "check_list_cleanup"): todo.append((t, m.check_list_cleanup, (rep,)))
        for t, f, a in todo:
            try: f(*a)
            except (AnalysisError, Budget, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError) as e:
                why = "%s %s/%s %s: %s %s" % (t, lang, sname, T or "", type(e).__name__, e)
                if not isinstance(e, (AnalysisError, Budget)): why += " @ " + traceback.format_exc().strip().splitlines()[-3].strip()
                out["broken"].append(why)
            out["tasks"].append(t)
        out["findings"] = [(f.cat, f.construct, f.msg, tuple(map(str, f.path))) for f in rep.f]
        out["stats"] = rep.stats; out["broken"] += rep.broken
    except Exception as e:
        out["broken"].append("%s/%s: %s %s" % (lang, sname, type(e).__name__, e))
    out["t"] = time.time() - t0
    return out
def _init():
    try: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
def heavy(u):
    """longest first"""
    lang, sname, text, T, tasks, S = u
    w = len(text)
    if T is not None:
        S = S or find_schema(sname); w = 1000 * weight(S, ("struct", T))
        if lang in ("zig", "c"): w *= 2
    if "stream" in tasks or "unpack" in tasks: w += 60 * len(text) if sname == "many" else 2 * len(text)
    return -w
def weight(S, k, d=0):
    if k[0] == "list": return 3 * weight(S, k[1], d + 1) + 2
    if k[0] == "struct": return 1 + sum(weight(S, m, d) for n, m in S.members(k[1]))
    return 1
def sources(langs, names, schemas=None, opts=()):
    jobs = [(l, n) for l in langs for n in names]
    js = [gen.Job((schemas or {}).get(n, None) and schemas[n].toml() or find_schema(n).toml(), l, opts) for l, n in jobs]
    gen.run(js)
    return {k: j for k, j in zip(jobs, js)}
def analyse(units):
    units.sort(key=heavy)
    n = min(8, os.cpu_count() or 4)
    with mp.get_context("fork").Pool(n, _init, maxtasksperchild=40) as p:
        return p.map(run_unit, units, chunksize=1)
def make_units(src, tasks, schemas=None):
    units = []; per = [t for t in tasks if t in PER_MSG]; whole = [t for t in tasks if t in WHOLE]
    for (l, n), j in src.items():
        if j.code != 0 or not j.out: continue
        S = (schemas or {}).get(n) or find_schema(n)
        if per and n != "many":
            for T in S.messages: units.append((l, n, j.out, T, per, (schemas or {}).get(n)))
            # structs that no message of the schema uses are analysed through their own default/decl only
        elif per and n == "many":
            for T in list(S.messages)[:8] + list(S.messages)[250:]: units.append((l, n, j.out, T, per, None))
        grouped = [t for t in whole if t in ("pack", "packsize")]
        if grouped: units.append((l, n, j.out, None, grouped, (schemas or {}).get(n)))
        for t in whole:
            if t not in grouped: units.append((l, n, j.out, None, [t], (schemas or {}).get(n)))
    return units
def select(pid, cats, o):
    """findings of a unit result that belong to the property"""
    fs = o["findings"]; out = []
    if pid == "C01":
        rd = {f[3][:1] + f[3][1:] for f in fs if f[0] == "read"}; wr = {f[3] for f in fs if f[0] == "write"}
        for f in fs:
            if f[0] in ("read", "write") and f[3] and f[3] in rd and f[3] in wr: continue      # wrong in the same way on both sides: mirrored
            if f[0] in cats: out.append(f)
        return out
    if pid == "C04":
        return [f for f in fs if (f[0] in ("read", "write") and f[3] and f[3][0] == "prefix") or (f[0] == "size") or f[0] == "reject" or (f[0] == "read" and f[3] and f[3][0] in ("end", "length"))]
    if pid == "C12":
        return [f for f in fs if f[0] == "enumdef" or (f[0] in ("read", "write") and f[3] and f[3][0] == "enum")]
    return [f for f in fs if f[0] in cats]
RULES = {
 "C01": "abstract reader result equals the documented decoding and abstract writer output equals the documented encoding, member by member, for every message of the family",
 "C02": "every language's emitted byte layout and accepted byte layout equal the one documented layout",
 "C03": "symbolic size result equals the symbolic sum of the bytes the writer emits; packed size equals the bytes packing emits",
 "C04": "every prefix is read, written and measured with the configured type, list and string type varied independently",
 "C05": "type constants, tag written, self-reported type and stream dispatch agree with the 1-based declaration position",
 "C06": "every path through one generic stream iteration decodes exactly the announced message right after its tag; every exit is justified by exhaustion, maximum, or zero tag; unknown tags reach the error exit",
 "C07": "events emitted by packing equal header, count, tagged messages in order, terminator; packed size equals their sum",
 "C08": "every returning path verified the header, saw the whole count, and returns exactly count messages",
 "C09": "every read is dominated by a bounds check that covers it, its failure leads to the error exit of every enclosing function",
 "C10": "every store is dominated by a check that it fits, whose failure leads to the error exit of every enclosing function",
 "C11": "on every accepting path each enum value is confined to the declared set",
 "C12": "generated enumerators equal the declared table; storage width equals the smallest documented type everywhere",
 "C13": "abstract result of every creation entry equals the documented defaults recursively",
 "C14": "allocations on each successful path are released exactly once by the generated release function, and nothing else",
 "C15": "every allocation result is tested before use and is at least as large as what is stored through it",
 "C16": "on failing paths nothing uninitialised is returned or released, and (Zig) every allocation made is released",
 "C17": "declarations parsed from the generated source match the schema one to one",
}
def check(pid, thorough):
    tasks, quick, more, cats, langs = PLAN[pid]
    res = Result(level="other"); res.level = "other"
    have = languages(); langs = [l for l in (langs or gen.LANGS) if l in have]
    names = quick + (more if thorough else [])
    src = sources(langs, names)
    rej = ["%s/%s" % k for k, j in src.items() if j.code != 0 or not j.out]
    outs = analyse(make_units(src, tasks))
    stats = {}; bylang = {l: dict(units=0, paths=0) for l in langs}
    for o in outs:
        b = bylang[o["lang"]]; b["units"] += 1
        for k, v in o["stats"].items():
            stats[k] = stats.get(k, 0) + v
            if "paths" in k: b["paths"] += v
        for cat, construct, msg, path in select(pid, cats, o):
            res.add("%s %s" % (cat, construct), "%s output for schema %s" % (o["lang"], o["schema"]), msg)
        res.gaps += o["broken"]
        b["whole"] = b.get("whole", 0) + (not o["broken"])
    dead = []
    for l in langs:
        if not bylang[l]["units"]: res.gaps.append("nothing generated for " + l)
        if not bylang[l].get("whole"): dead.append(l)
    # a gap is reported, not hidden; the verdict stands for what was analysed unless most languages are gone
    if dead and 2 * len(dead) > len(langs): res.broken.append("no unit of %s could be analysed completely" % ", ".join(dead)); res.broken += res.gaps[:6]
    res.coverage.update(languages=bylang, schemas=names, units=len(outs), obligations=stats, not_generated=rej, rule=RULES[pid],
        explanation="generated sources of %d (language, schema) pairs parsed and interpreted abstractly over all inputs; %d units (message or stream routine), %d symbolic paths" % (len(src) - len(rej), len(outs), sum(b["paths"] for b in bylang.values())))
    slow = sorted(outs, key=lambda o: -o["t"])[:3]
    res.summary.append("%s: %d units over %s; slowest %s" % (pid, len(outs), ",".join(langs), ", ".join("%s/%s/%s %.1fs" % (o["lang"], o["schema"], o["T"] or o["tasks"], o["t"]) for o in slow)))
    return res
