"""C19 / C20: translation-style comparison of generated sources under the command-line options (token and line level, comments removed)."""
import re
from . import gen, schema as S
from .result import Result

LANGS = gen.LANGS
# what ends a line comment
EOL = {None: re.compile("\n"), "csharp": re.compile("[\r\n\u0085\u2028\u2029]"), "typescript": re.compile("[\r\n\u2028\u2029]"), "assemblyscript": re.compile("[\r\n\u2028\u2029]")}
NESTED = {"rust", "swift"}
def splice(lang, text):
    if lang == "c": text = text.replace("??/", "\\")
    if lang == "c": text = re.sub(r"\\[ \t]*\n", "", text)
    return text
def strip_comments(lang, text):
    """-> (code with comments removed, list of comment texts)"""
    s = splice(lang, text); out = []; com = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            m = EOL.get(lang, EOL[None]).search(s, i); j = m.start() if m else n
            if lang == "zig" and re.search("[\u0085\u2028\u2029]", s[i:j]): raise ValueError("character that Zig does not allow in a comment")
            com.append(s[i+2:j]); i = j; continue
        if lang != "zig" and s.startswith("/*", i):
            j = i + 2; d = 1
            while d and j < n:
                if lang in NESTED and s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            if d: raise ValueError("unterminated comment")
            com.append(s[i+2:j-2]); out.append(" "); i = j; continue
        if c == '"' or (c == "`" and lang in ("typescript", "assemblyscript", "go")):
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" and c == '"' else 1
            out.append(s[i:j+1]); i = j + 1; continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^'\\\n]*)'").match(s, i) if lang in ("typescript", "assemblyscript") else re.compile(r"'(\\[^']+|[^'\\])'").match(s, i)
            if m: out.append(m.group()); i = m.end(); continue
        out.append(c); i += 1
    return "".join(out), com
def lines(lang, text):
    code, com = strip_comments(lang, text)
    return [l.rstrip() for l in code.split("\n") if l.strip()], com
TOK = re.compile(r'"(?:\\.|[^"\\])*"|[A-Za-z_$\u0080-\uffff][\w$\u0080-\uffff]*|\d+(?:\.\d+)?\w*|\S')
def toks(lang, text): return TOK.findall(strip_comments(lang, text)[0])
def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i, x, y
    i = min(len(a), len(b))
    return i, a[i] if i < len(a) else "<end>", b[i] if i < len(b) else "<end>"
def job(sc, lang, opts=(), text=None, key=""): return gen.Job(text if text is not None else sc.toml(), lang, list(opts), key=key or sc.name)

NASTY = '''# */ int broken; /*
# /* nested
# **/ x *//* y /*/ z */*/ ** // /** */
# non-ascii: \u00e9\u2603 ends with a backslash \\
# \u2028*/\u2029 \u0085 x */ / * ' ` " \\" \\' ${x} %d %s {} {# LIST_SIZE_TYPE #} {# NAMESPACE #}
[extra]
note = """
*\\
/ int spliced;
*??/
/ int spliced2;
ends with star *
/ starts with slash
*
/
/*
// */ } ) ; \\" ' ` \\\\ #define X 1
#endif
#}
"""
other = \'\'\'
*\\
/*/
\\
/
\\
*/ \'\'\'
'''
HEAD = "# first line\n\n   # indented   \n\t# tab\n"
def texts(sc, thorough):
    t = sc.toml()
    out = [("plain", t), ("comment", HEAD + t), ("nasty", NASTY + t), ("nasty-tail", t + "\n" + NASTY + "# */"), ("crlf", (HEAD + t).replace("\n", "\r\n"))]
    out += [("frag%d" % i, "# %s\n%s\n# %s" % (x, t, x)) for i, x in enumerate(["*/", "/*", "*/*", "/*/", "**/", "//", "*//", "/**/*/", "/*/*", "*\\", "*/ */ */"])]
    # two fragments on adjacent lines, for line splicing
    out += [("pair%d" % i, t + "\n[zz]\ns = '''\n%s\n%s\n'''\n" % p) for i, p in enumerate([("*", "/"), ("*\\", "/"), ("*\\", "\\\n/"), ("/\\", "*"), ("*??/", "/"), ("* \\ ", "/ /"), ("**", "//")])]
    return out
def c20(thorough):
    res = Result(); fam = [S.CORE, S.NOMETA] + ([S.sized("byte", "uint16"), S.E256, S.EMPTYS, S.NAMES, S.ONEMSG] if thorough else [])
    jobs = []; plan = []
    for sc in fam:
        for tn, t in (texts(sc, thorough) if sc in (S.CORE, S.NOMETA) else texts(sc, False)[:3]):
            for l in LANGS:
                a = job(sc, l, [], t, sc.name + "/" + tn); b = job(sc, l, ["--embed-protocol"], t, sc.name + "/" + tn)
                jobs += [a, b]; plan.append((sc, tn, t, l, a, b))
    gen.run(jobs); n = {}
    for sc, tn, t, l, a, b in plan:
        if a.out is None: continue
        where = "%s/%s/%s" % (l, sc.name, tn)
        if b.out is None: res.add("embed %s %s fails" % (l, tn), where, "generation fails with the protocol embedded: " + b.err[-200:]); continue
        n[l] = n.get(l, 0) + 1
        try: la, ca = lines(l, a.out); lb, cb = lines(l, b.out)
        except ValueError as e: res.add("embed %s code differs" % l, where, "with the protocol embedded: %s" % e); continue
        if la != lb:
            i, x, y = first_diff(la, lb)
            res.add("embed %s code differs" % l, where, "code line %d: %r without, %r with the protocol embedded (protocol text %r)" % (i, x[:80], y[:80], tn)); continue
        want = re.findall(r"\w+", splice(l, t.replace("\r\n", "\n"))) if l != "c" else re.findall(r"\w+", t.replace("\r\n", "\n"))
        got = re.findall(r"\w+", "\n".join(cb))
        if l == "c":       # splicing may join words
            ok = "".join(re.findall(r"\w+", t)) in "".join(got)
        else: ok = "\x00".join(want) in "\x00".join(got)
        if not ok: res.add("embed %s text missing" % l, where, "the embedded comment does not carry the protocol text")
        if "".join(re.findall(r"\w+", t)) in "".join(re.findall(r"\w+", "\n".join(ca))): res.add("embed %s unconditional" % l, where, "protocol text embedded without the option")
    res.coverage.update(comparisons=n, rule="code outside comments is identical with and without --embed-protocol; the comment carries the protocol's words in order",
        explanation="generated sources with comments removed (nesting rules, C line splicing and trigraphs applied) compared for %d protocol texts x schema x language pairs, including every arrangement of comment delimiters within and across lines" % len(plan))
    res.summary.append("C20: comparisons per language %s" % n)
    for l in LANGS:
        if n.get(l, 0) < 10: res.broken.append("only %d comparisons for %s" % (n.get(l, 0), l))
    # expected-zero rule: the comparison notices an escape
    if lines("c", "a /* x */ b */")[0] == lines("c", "a  b")[0] or lines("go", "/* a\n*/\nq\n*/")[0] == lines("go", "q")[0]: res.broken.append("comment comparison is blind")
    return res

def fold(x): return x.replace("_", "").lower()
def alpha(a, b):
    """equal token sequences up to the number at the end of local variable names"""
    return len(a) == len(b) and all(x == y or (re.fullmatch(r"[a-z_]\w*?\d+", x) and re.fullmatch(r"[a-z_]\w*?\d+", y) and x.rstrip("0123456789") == y.rstrip("0123456789")) for x, y in zip(a, b))
def lead(l): return len(l) - len(l.lstrip(" \t"))
def c19(thorough):
    res = Result(); n = {}
    fam = [S.CORE, S.NOMETA, S.NAMES, S.E256, S.sized("int16", "byte")] + ([S.EMPTYS, S.ONEMSG, S.SIMPLEONLY, S.MANY] if thorough else [S.EMPTYS])
    tabs = ["\t", " ", "  ", "        ", "   "] if thorough else ["\t", "  ", "   "]
    jobs = []; P = []
    def mk(kind, sc, l, a, b, *x): jobs.extend([a, b]); P.append((kind, sc, l, a, b) + x)
    flags = {"go": "--go-no-rename", "rust": "--rust-no-rename"}
    for sc in fam:
        for l in LANGS:
            base = job(sc, l); jobs.append(base)
            for t in tabs: mk("indent", sc, l, base, job(sc, l, ["--indent", t]), t)
            ns = S.Schema(sc.name, ns="Zed_1", list_size=sc.ls, string_size=sc.ss, structs=sc.structs, messages=sc.messages, enums=[(e, v) for e, v in sc.enum_decl.items()])
            mk("namespace", sc, l, job(ns, l), job(sc, l, ["--namespace", "Zed_1"]))
            mk("embed", sc, l, base, job(sc, l, ["--embed-protocol"]))
            mk("embed+namespace+indent", sc, l, job(ns, l, ["--indent", "  "]), job(sc, l, ["--embed-protocol", "--namespace", "Zed_1", "--indent", "  "]))
            for ol, f in sorted(flags.items()):
                if l == ol: mk("rename", sc, l, base, job(sc, l, [f]))
                elif sc is S.NAMES or thorough: mk("other-language-option", sc, l, base, job(sc, l, [f]), f)
            if l != "typescript": mk("other-language-option", sc, l, base, job(sc, l, ["--typescript-use-namespace"]), "--typescript-use-namespace")
            else: mk("ts-namespace", sc, l, base, job(sc, l, ["--typescript-use-namespace"]))
    gen.run(jobs)
    seen = set()
    for j in jobs:
        if j.out is None or id(j) in seen: continue
        seen.add(id(j))
        code = strip_comments(j.lang, j.out)[0] if "--embed-protocol" in j.opts else j.out
        m = re.search(r"\{#.*?#\}", code)
        if m: res.add("placeholder %s %s" % (j.lang, m.group()), "%s/%s %s" % (j.lang, j.key, " ".join(j.opts)), "unresolved template placeholder %s in generated source" % m.group())
    known_opts = {}
    for p in P:
        kind, sc, l, a, b = p[:5]; where = "%s/%s %s" % (l, sc.name, " ".join(b.opts))
        if a.out is None: continue
        if b.out is None:
            if b.code == 2 and kind in ("other-language-option",): continue    # option not known to the command line at all: nothing to compare
            res.add("option %s %s fails" % (kind, l), where, "generation fails with the option: " + b.err[-200:]); continue
        n[kind] = n.get(kind, 0) + 1
        if kind == "indent":
            la = a.out.split("\n"); lb = b.out.split("\n")
            xa = [x.lstrip(" \t") for x in la]; xb = [x.lstrip(" \t") for x in lb]
            if xa != xb:
                i, x, y = first_diff(xa, xb)
                res.add("indent %s changes more than leading whitespace" % l, where, "line %d: %r becomes %r" % (i + 1, x[:80], y[:80]))
        elif kind in ("namespace", "other-language-option"):
            if a.out != b.out:
                i, x, y = first_diff(a.out.split("\n"), b.out.split("\n"))
                res.add("%s %s differs" % (kind, l), where, "line %d: %r expected, %r generated" % (i + 1, x[:80], y[:80]))
        elif kind.startswith("embed"):
            la = lines(l, a.out)[0]; lb = lines(l, b.out)[0]
            if la != lb:
                i, x, y = first_diff(la, lb)
                res.add("%s %s differs" % (kind, l), where, "code line %d: %r expected, %r generated" % (i, x[:80], y[:80]))
        elif kind == "rename":
            ta = toks(l, a.out); tb = toks(l, b.out); fwd = {}; bad = None
            if len(ta) != len(tb): i, x, y = first_diff(ta, tb); bad = "token %d: %r vs %r (%d vs %d tokens)" % (i, x, y, len(ta), len(tb))
            else:
                for x, y in zip(ta, tb):
                    if x == y: continue
                    if not (re.match(r"[A-Za-z_]", x) and re.match(r"[A-Za-z_]", y)) and not (x[0] == y[0] == '"'): bad = "%r vs %r" % (x, y); break
                    # one spelling without renaming may stand for several with it, but identifiers must correspond up to case and underscores
                    if fold(x) != fold(y): bad = "identifier %r vs %r" % (x, y); break
                    fwd.setdefault(x, set()).add(y)
            if bad: res.add("rename %s changes more than spelling" % l, where, bad)
            names = {m for t in list(sc.structs) + list(sc.messages) for m, _ in sc.members(t)} | set(sc.structs) | set(sc.messages)
            miss = [x for x in sorted(names) if x not in set(tb)]
            if miss: res.add("no-rename %s alters names" % l, where, "declared names not used verbatim: %s" % miss[:5])
        elif kind == "ts-namespace":
            ta = toks(l, a.out); tb = toks(l, b.out); name = sc.ns
            # exactly one wrapper 'namespace <ns> { ... }' around the same tokens
            try:
                k = tb.index("namespace")
                pre = 1 if k and tb[k-1] == "export" else 0
                inner = tb[:k-pre] + tb[k+3:]
                last = len(inner) - 1 - inner[::-1].index("}")
                inner = inner[:last] + inner[last+1:]
                ok = alpha(ta, inner) and (name is None or tb[k+1] == name)
            except ValueError:
                ok = ta == tb and not name; inner = tb
            if not ok:
                i, x, y = first_diff(ta, inner)
                res.add("ts-namespace changes more than the wrapper", where, "token %d: %r vs %r" % (i, x, y))
    res.coverage.update(comparisons=n, rule="indent: equal after stripping leading whitespace; namespace: identical to declaring it; embed: identical outside comments; rename: same tokens up to identifier spelling; options of another language: identical; no {# #} left",
        explanation="%d generated-source pairs compared line by line / token by token over %d schemas x 8 languages" % (len(P), len(fam)))
    res.summary.append("C19: comparisons %s" % n)
    for k in ("indent", "namespace", "embed", "rename"):
        if n.get(k, 0) < 5: res.broken.append("only %d comparisons of kind %s" % (n.get(k, 0), k))
    return res
