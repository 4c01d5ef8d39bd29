"""C21: the names the generator introduces (locals, parameters, loop variables), collected from its own output, are used as
member names; the resulting sources are type-checked and interpreted like every other schema.  A finding counts only when the
same message under neutral names does not have it, so what is reported is the clash and nothing else."""
import re
from . import gen, schema as SC, wire, compilecheck
from .result import Result

TYPES = ["byte", "string", "[string]", "[Inner]", "Inner", "Kind"]
NEUTRAL = ["qanum", "qastr", "qaslist", "qarows", "qarow", "qakind"]
ENUMS = [("Kind", ["Aa", "Bb", "Cc"])]
INNER = ("Inner", [("qafirst", "int16"), ("qasecond", "string")])
NEUTRALS = NEUTRAL + ["qafirst", "qasecond"]
TYPENAMES = ["Flat", "Outer", "Inner", "Plain", "Held", "Void"]
ID = r"[A-Za-z_]\w*"
DECL = dict(
 c=[r"\b%s[\s*]+(%s)\s*(?=[=;,)\[])" % (ID, ID)],
 csharp=[r"[\w>\]?][\s]+(%s)\s*(?=[=;,)]|in\b)" % ID],
 go=[r"((?:%s, *)*%s) *:=" % (ID, ID), r"\bvar +(%s)" % ID, r"[(,] *(%s) +[*\[\]\w.]+ *(?=[,)])" % ID],
 rust=[r"\blet +(?:mut +)?(%s)" % ID, r"\bfor +(%s) +in\b" % ID, r"(%s) *:[^:]" % ID, r"\| *&?(%s) *\|" % ID, r"\((%s)\) *=>" % ID],
 swift=[r"\b(?:let|var|for|inout)\s+(%s)" % ID, r"(%s) *:\s" % ID],
 typescript=[r"\b(?:let|const|var)\s+(%s)" % ID, r"(%s)\?? *:\s" % ID, r"\((%s)\) *=>" % ID],
 zig=[r"\b(?:const|var)\s+(%s)" % ID, r"\| *\*?(%s) *(?:, *%s)?\|" % (ID, ID), r"\| *\*?%s *, *(%s)\|" % (ID, ID), r"(%s) *:[^:]" % ID],
)
DECL["assemblyscript"] = DECL["typescript"]
NOT = set("self this Self return else case default in of let var const mut static public private new ref out goto break continue if for while true false null nil undefined type struct enum union void".split())

def strip(lang, text):
    """source without comments and string literals"""
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S) if lang != "zig" else text
    text = re.sub(r'"(?:\\.|[^"\\\n])*"', '""', text)
    return re.sub(r"//[^\n]*", "", text)
def temporaries(lang, text):
    """-> (plain names, templates derived from a member's name) the generated source declares"""
    text = strip(lang, text)
    plain = {}; derived = {}
    for p in DECL[lang]:
        for m in re.finditer(p, text):
            for n in re.split(r"[,\s]+", m.group(1)):
                if not n.strip("_") or n in NOT or not re.fullmatch(ID, n): continue
                for T in TYPENAMES:
                    if n.startswith(T + "_"): n = n[len(T) + 1:]
                    elif n.startswith("_" + T + "_"): n = n[len(T) + 2:]
                low = n.lower(); hit = [q for q in NEUTRALS if q in low]
                if hit:
                    q = max(hit, key=len); i = low.index(q)
                    t = (n[:i], n[i + len(q):])
                    if t != ("", "") and n[0] != "_": derived[t] = derived.get(t, 0) + 1
                elif n[0].islower(): plain[n] = plain.get(n, 0) + 1
    return sorted(plain), sorted(derived)

def base():
    return SC.Schema("tmp_base", enums=ENUMS, structs=[INNER, ("Flat", [("qafirst", "uint32")]), ("Outer", list(zip(NEUTRAL, TYPES)))],
        messages=[("Plain", list(zip(NEUTRAL, TYPES))), ("Held", [("qarow", "Outer"), ("qarows", "[Outer]")]), ("Void", [])])
def sample(name, rows, held):
    """one message (or one struct with the message holding it) per row of member names"""
    structs = [INNER]; messages = []
    for k, (names, types) in enumerate(rows):
        if held:
            structs.append(("S%d" % k, list(zip(names, types))))
            messages.append(("M%d" % k, [("qahold", "S%d" % k)]))
        else: messages.append(("M%d" % k, list(zip(names, types))))
    return SC.Schema(name, enums=ENUMS, structs=structs, messages=messages)
def rot(l, n): n %= len(l); return l[n:] + l[:n]
def key(n): return n.lower().replace("_", "")

def accepted(names):
    js = [gen.Job('[[messages]]\n_name = "M"\n%s = "byte"\n' % n, "c") for n in names]
    gen.run(js)
    return {n for n, j in zip(names, js) if j.code == 0 and j.out}

def plan(lang, plain, derived, thorough):
    """rows of (names, types) for the adversarial messages, and the neutral rows they are compared with"""
    rows = []; n = len(TYPES)
    pad = ["zq%s" % "abcdefghij"[i] for i in range(n)]
    chunks = []
    todo = list(plain)
    while todo:                     # names that a renaming generator would merge do not share a message
        c = []; seen = set()
        for x in list(todo):
            if key(x) not in seen: c.append(x); seen.add(key(x)); todo.remove(x)
            if len(c) == n: break
        chunks.append(c + pad[len(c):])
    for c in chunks:
        for r in range(n) if thorough else (0, 2, 4): rows.append((rot(c, r), TYPES))
    drows = []
    for pre, suf in derived:
        for i, t in enumerate(TYPES):
            if i == 0 and not thorough: continue
            m = "qaval"; d = pre + m + suf
            for other in ("byte", "string") if thorough else (("byte",) if i % 2 else ("string",)):
                drows.append(([m, d], [t, other])); drows.append(([d, m], [other, t]))
    return rows, drows
PER = ("reader", "writer", "size", "default", "cleanup")
CATS = {"read", "reject", "write", "write-err", "size", "prefix", "default", "C14", "C09", "C10", "C11", "decl"}
NEUT = ["zn%s" % c for c in "abcdefghij"]

class Batch:
    """schemas of one pass; each with its neutrally named twin"""
    def __init__(self): self.schemas = {}; self.meta = {}
    def add(self, nm, lang, rows, held, what):
        neutral = {}; nrows = []
        for names, types in rows:
            t = tuple(types)
            if t not in neutral: neutral[t] = len(nrows); nrows.append((NEUT[:len(types)], types))
        self.schemas[nm] = sample(nm, rows, held); self.schemas[nm + "_twin"] = sample(nm + "_twin", nrows, held)
        self.meta[nm] = (lang, rows, [neutral[tuple(t)] for n, t in rows], what)
    def run(self, gaps):
        """-> [(what, schema, rule, where, message)], units analysed, comparisons per language"""
        jobs = [gen.Job(self.schemas[n].toml(), self.meta[n[:-5] if n.endswith("_twin") else n][0], key=n) for n in self.schemas]
        gen.run(jobs)
        src = {}; units = []; rejected = set()
        for j in jobs:
            if j.code != 0 or not j.out: rejected.add(j.key); gaps.append("%s: not generated: %s" % (j.key, (j.err or "").strip()[-120:])); continue
            src[(j.lang, j.key)] = j
            if j.lang != "swift": units.append(compilecheck.Unit(j.key, j.lang, j.out, None))
        compilecheck.typecheck(units)
        diags = {u.key: u.diags for u in units}
        outs = wire.analyse(wire.make_units(src, PER + ("decls",), self.schemas))
        by = {(o["schema"], o["T"]): o for o in outs}
        fs = []; per = {}
        for nm, (l, rows, tw, what) in self.meta.items():
            if nm in rejected or nm + "_twin" in rejected: continue
            if diags.get(nm) and not diags.get(nm + "_twin"):
                for d in diags[nm][:2]: fs.append((what, nm, "compiler", "type check", d))
            tested = [("M%d" % k, "M%d" % tw[k], rows[k]) for k in range(len(rows))] + [(None, None, None)]
            for T, N, row in tested:
                a = by.get((nm, T)); b = by.get((nm + "_twin", N))
                if not a or not b: continue
                per[l] = per.get(l, 0) + 1
                noise = {f[0] for f in b["findings"]}
                for cat, construct, msg, path in a["findings"]:
                    if cat in CATS and cat not in noise:
                        fs.append((what, nm, cat, "%s, members %s" % (construct, ", ".join("%s: %s" % x for x in zip(*row)) if row else "of every message"), msg))
                if a["broken"] and not b["broken"]: gaps.append(a["broken"][0])
        return fs, outs, per, len(units)

def check(thorough):
    res = Result("other")
    langs = wire.languages()
    bs = base(); js = [gen.Job(bs.toml(), l, key=l) for l in langs]; gen.run(js)
    found = {}
    for l, j in zip(langs, js):
        if j.code != 0 or not j.out: res.gaps.append("%s: nothing generated" % l); continue
        found[l] = temporaries(l, j.out)
        if not found[l][0]: res.gaps.append("%s: no temporaries recognised" % l)
    every = sorted({n for p, d in found.values() for n in p} | {pre + "qaval" + suf for p, d in found.values() for pre, suf in d})
    ok = accepted(every)
    first = Batch()
    for l in found:
        plain = [n for n in found[l][0] if n in ok]; derived = [d for d in found[l][1] if d[0] + "qaval" + d[1] in ok]
        found[l] = (plain, derived)
        rows, drows = plan(l, plain, derived, thorough)
        for held in (False, True):
            for tag, rr in (("plain", rows), ("derived", drows)):
                if not rr or (held and tag == "derived" and not thorough): continue
                if held and not thorough: rr = rr[::3]
                first.add("%s_%s_%s" % (l, tag, "held" if held else "own"), l, rr, held, None)
    fs, outs, per, ntc = first.run(res.gaps)
    # languages with a finding: every name on its own, so that the finding names the member that clashes
    sus = sorted({first.meta[f[1]][0] for f in fs})
    named = []
    if sus:
        second = Batch(); n = len(TYPES)
        for l in sus:
            plain, derived = found[l]
            for x in plain:
                rows = [([x if i == r else NEUT[i] for i in range(n)], TYPES) for r in range(n)]
                for held in (False, True): second.add("%s_one_%s_%s" % (l, x, "held" if held else "own"), l, rows, held, (l, x))
            for d in derived:
                rows, drows = plan(l, [], [d], True)
                for held in (False, True): second.add("%s_der_%sX%s_%s" % (l, d[0], d[1], "held" if held else "own"), l, drows, held, (l, "%s<member>%s" % d))
        g = []
        named, outs2, per2, ntc2 = second.run(g)
        outs = outs + outs2; ntc += ntc2; res.gaps += [x for x in g if x not in res.gaps]
        for l, k in per2.items(): per[l] = per.get(l, 0) + k
    blamed = {f[0][0] for f in named}
    for what, nm, rule, where, msg in named: res.add("clash %s %s" % what, "%s: %s: %s" % (what[0], rule, where), msg)
    for what, nm, rule, where, msg in fs:
        l = first.meta[nm][0]
        if l not in blamed: res.add("clash %s several members: %s" % (l, rule), "%s: %s: %s" % (l, rule, where), msg)
    nob = sum(per.values())
    res.coverage.update(languages=per, temporaries={l: dict(names=p, derived=["%s<member>%s" % d for d in ds]) for l, (p, ds) in found.items()}, units=len(outs), sources_type_checked=ntc, obligations=nob,
        rule="names declared by generated code are used as member names; such a message has no finding (compiler front end, reading, writing, measuring, defaults, releasing, declarations) that its neutrally named twin does not have",
        explanation="%d messages compared with their neutral twin; %d names collected from the generated sources" % (nob, sum(len(p) + len(d) for p, d in found.values())))
    res.summary.append("C21: %d comparisons over %s" % (nob, ", ".join("%s %d+%d names" % (l, len(p), len(d)) for l, (p, d) in found.items())))
    dead = [l for l in found if not per.get(l)]
    if 2 * len(dead) > len(langs): res.broken.append("nothing compared for " + ", ".join(dead)); res.broken += res.gaps[:6]
    return res
