"""C30, C31, C32: abstract interpretation of the protocol reader over abstract documents."""
import os, time
from .core import AnalysisError, Lin, sym, Ctx, PathEnd, INF, Budget
from . import pyabs, pysrc
from .pyabs import *
from .result import Result

WORDS = ["byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "string", "list"]
SIZES = ["byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
BASES = WORDS[:-1]
class PI(Interp):
    reserved = frozenset(WORDS)
    doc = None
    def open_file(self, a, k):
        return Inst("file", {})
    def stub_attr(self, v, name, n):
        if v.cls == "file":
            if name == "read": return Host("read", lambda it, a, k: anytext(("file",)))
            if name in ("close", "flush"): return Host(name, lambda it, a, k: None)
        if v.cls == "path":
            if name in ("read_text", "read_bytes"): return Host(name, lambda it, a, k: anytext(("file",)))
            if name == "open": return Host(name, lambda it, a, k: Inst("file", {}))
            if name in ("exists", "is_file"): return Host(name, lambda it, a, k: True)
            if name in ("resolve", "absolute", "expanduser"): return Host(name, lambda it, a, k: v)
        return Interp.stub_attr(self, v, name, n)
    def leave(self, m, exc, n):
        if isinstance(m, Inst) and m.cls == "file": return False
        return Interp.leave(self, m, exc, n)
    def opaque_attr(self, v, name, n):
        if v.name == "encoded text" and name == "decode": return Host("decode", lambda it, a, k: anytext(("file",)))
        return Opaque(v.name + "." + name)
    def opaque_call(self, f, args, kw, n): return Opaque(f.name + "()")
    def host_module(self, name):
        if name in ("tomllib", "tomli"):
            return Module(name, {"loads": Host("loads", lambda it, a, k: it.doc), "load": Host("load", lambda it, a, k: it.doc), "TOMLDecodeError": ValueError})
        if name == "pathlib": return Module(name, {x: Host(x, lambda it, a, k: Inst("path", {})) for x in ("Path", "PurePath")})
        if name == "os": return Module(name, {"path": Opaque("os.path"), "PathLike": Opaque("os.PathLike"), "fspath": Host("fspath", lambda it, a, k: a[0])})
        if name in ("sys", "logging", "warnings", "textwrap", "io"): return Module(name, {x: Opaque(name + "." + x) for x in ("stderr", "stdout", "getLogger", "warn", "warning", "error", "info", "debug", "dedent", "StringIO", "maxsize")})
        return None
# ---------------------------------------------------------------- documents
def N(*k): return name_chunk("-".join(map(str, k)))
def tup(d): return [[k, v] for k, v in d]
def D(*pairs): return ("D", pairs)
def L(*items): return ("L", items)
def S(item, key, lo=1, hi=100): return ("S", item, key, lo, hi)
def I(key, lo, hi): return ("I", key, lo, hi)
def make(it, x):
    if isinstance(x, tuple) and x and x[0] == "D": return VDict([make(it, p) if p[0] == "S" else [make(it, p[0]), make(it, p[1])] for p in x[1]])
    if isinstance(x, tuple) and x and x[0] == "L": return VList([make(it, p) for p in x[1]])
    if isinstance(x, tuple) and x and x[0] == "S":
        i = x[1]
        v = [make(it, i[1]), make(it, i[2])] if isinstance(i, tuple) and i[0] == "P" else make(it, i)
        return Seg(v, Lin.of(sym(("many", x[2]), x[3], x[4])))
    if isinstance(x, tuple) and x and x[0] == "I": return Lin.of(sym(("int",) + tuple(x[1:]), x[2], x[3]))
    return x
def lst(t): return mkstr(["[", t, "]"])
def struct(key, *members): return D(("_name", N(key)), *members)
def around(x, pre, post, mk, wide=True):
    """x with other valid items before and after it"""
    a = [mk("before")] + ([S(mk("earlier"), "earlier")] if wide else [mk("earlier")]) if pre else []
    b = ([S(mk("later"), "later")] if wide else [mk("later")]) + [mk("after")] if post else []
    return a + [x] + b
def mk_struct(k): return struct(k, (N(k, "m1"), "byte"), (N(k, "m2"), lst("float")))
def mk_enum(k): return D(("_name", N("enum-" + k)), ("_values", L(N("ev1-" + k), N("ev2-" + k))))
def mk_msg(k): return struct("msg-" + k, (N(k, "m1"), "string"), (N(k, "m2"), N("used")))
USED = struct("used", (N("used", "m"), "int32"))
def document(structs=(), messages=(), enums=(), meta=None):
    d = []
    if meta is not None: d.append(("meta", D(*meta)))
    if structs is not None: d.append(("structs", L(*structs)))
    if messages: d.append(("messages", L(*messages)))
    if enums: d.append(("enums", L(*enums)))
    return D(*d)
POS = [("alone", 0, 0), ("first", 0, 1), ("last", 1, 0), ("between others", 1, 1)]
def ws_names(key):
    w = charset(("ws", key), WS)
    p, q = name_chunk(key + "-p"), name_chunk(key + "-q")
    return [("with whitespace inside", mkstr([p, w, q])), ("with leading whitespace", mkstr([w, q])), ("with trailing whitespace", mkstr([p, w]))]
def bad_names(key, reserved=True):
    out = ws_names(key) + [("that is empty", ""), ("that is a single whitespace", charset(("w1", key), WS))]
    if reserved: out += [("that is the reserved word %s" % w, casevar(w, (key,))) for w in WORDS]
    return out
def invalid(wide):
    """(label, document)"""
    M0 = [mk_msg("m0")]
    def place(kind, x, pre, post):
        if kind == "struct": return document([USED] + around(x, pre, post, mk_struct, wide), M0)
        if kind == "message": return document([USED], around(x, pre, post, mk_msg, wide))
        return document([USED], M0, around(x, pre, post, mk_enum, wide))
    def body(kind, name, extra=()):
        nm = (("_name", name),) if name is not None else ()
        if kind == "enum": return D(*nm, ("_values", L(N("va"), N("vb"))))
        return D(*nm, (N("x", "m1"), "byte"), *extra)
    for lab, nm in ws_names("ns"): yield "namespace %s" % lab, document([USED], M0, (), [("namespace", nm)])
    for opt in ("list_size_type", "string_size_type"):
        for t in ["float", "double", "bool", "string", "list", N("odd"), N("used"), "", 4, True, D(), L("byte")]:
            yield "%s that is %s" % (opt, show(t)), document([USED], M0, (), [(opt, t)])
            if t == "float": yield "%s that is %s, with everything else given" % (opt, show(t)), document([USED], M0, (), [("namespace", N("ns")), ("list_size_type", "byte")] [:1 if opt == "list_size_type" else 2] + [(opt, t)])
    for kind in ("struct", "message", "enum"):
        for pl, pre, post in POS:
            for lab, nm in bad_names("x") if pl == "between others" else bad_names("x")[:5]: yield "%s name %s, %s" % (kind, lab, pl), place(kind, body(kind, nm), pre, post)
            yield "%s without _name, %s" % (kind, pl), place(kind, body(kind, None), pre, post)
            # duplicates
            for gap in (0, 1):
                mk = {"struct": mk_struct, "message": mk_msg, "enum": mk_enum}[kind]
                mid = [mk("mid")] if gap else []
                mid = ([S(mk("mids"), "mids")] if wide else []) + mid if gap else []
                a = around(body(kind, N("dup")), pre, 0, mk, wide) + mid + around(body(kind, N("dup")), 0, post, mk, wide)
                if kind == "enum":
                    b2 = D(("_name", N("dup")), ("_values", L(N("vc"))))
                    a = around(body(kind, N("dup")), pre, 0, mk, wide) + mid + around(b2, 0, post, mk, wide)
                dd = {"struct": lambda: document([USED] + a, M0), "message": lambda: document([USED], a), "enum": lambda: document([USED], M0, a)}[kind]()
                yield "two %ss of the same name%s, %s" % (kind, " with others between them" if gap else "", pl), dd
    # members
    for kind in ("struct", "message"):
        mk = lambda k: (N("x", "mm", k), "uint16")
        def mems(x, pre, post):
            a = [mk("b")] + ([S(("P",) + mk("e"), "mem-earlier")] if wide else [mk("e")]) if pre else []
            b = ([S(("P",) + mk("l"), "mem-later")] if wide else [mk("l")]) + [mk("a")] if post else []
            return a + [x] + b
        def host(x, pre, post, spre=1, spost=1):
            return place(kind, D(("_name", N("x")), *mems(x, pre, post)), spre, spost)
        types = [("an unknown type", N("unknown")), ("a list of an unknown type", lst(N("unknown"))), ("a list of lists", lst(lst("float"))), ("a list of lists of a struct", lst(lst(N("used")))), ("the type list", "list"),
                 ("a message", N("msg-other")), ("a list of a message", lst(N("msg-other"))), ("an empty type", ""), ("a number as type", 5), ("a boolean as type", True), ("a table as type", D(("_name", N("q")))), ("an array as type", L("byte")), ("a base type with a space", "byte "), ("a base type in capitals", "Byte"),
                 ("an unclosed list", mkstr(["[", "byte"])), ("an unopened list", "byte]"), ("an empty list type", "[]")]
        for pl, pre, post in POS:
            for lab, nm in bad_names("mem"):
                if "reserved" in lab and pl not in ("between others", "last"): continue
                yield "%s member name %s, %s" % (kind, lab, pl), host((nm, "byte"), pre, post)
            yield "%s member name reserved for a list member, %s" % (kind, pl), host((casevar("list", ("m",)), lst("byte")), pre, post)
            for lab, t in types:
                d = host((N("x", "off"), t), pre, post)
                if "message" in lab:
                    dd = dict((p[0], p[1]) for p in d[1])
                    for at in (0, 1):
                        ms = list(dd["messages"][1]); ms.insert(0 if at == 0 else len(ms), mk_msg("other"))
                        d2 = D(*[(k, v) for k, v in d[1] if k != "messages"], ("messages", L(*ms)))
                        yield "%s member that is %s (declared %s), %s" % (kind, lab, "earlier" if at == 0 else "later", pl), d2
                else: yield "%s member that is %s, %s" % (kind, lab, pl), d
        if kind == "message": yield "message that contains itself", place(kind, D(("_name", N("x")), (N("x", "m"), N("x"))), 1, 1)
        for pl, pre, post in POS:
            for lab, t in types[:3]: yield "%s (%s) with a member that is %s" % (kind, pl, lab), host((N("x", "off"), t), 0, 0, pre, post)
    # shadowing
    x = N("same")
    for pl, pre, post in POS:
        st = around(D(("_name", x), (N("s"), "byte")), pre, post, mk_struct, wide); me = around(D(("_name", x), (N("s"), "byte")), pre, post, mk_msg, wide); en = around(D(("_name", x), ("_values", L(N("va")))), pre, post, mk_enum, wide)
        yield "message named like a struct, %s" % pl, document([USED] + st, me)
        yield "enum named like a struct, %s" % pl, document([USED] + st, M0, en)
        yield "enum named like a message, %s" % pl, document([USED], me, en)
        for form in ("plain", "numbered"):
            vals = around(x if form == "plain" else D(("_name", x), ("_value", I("sh", -(1 << 31), (1 << 31) - 1))), pre, post, (lambda k: N("val", k)) if form == "plain" else (lambda k: D(("_name", N("val", k)), ("_value", RANGES[k]))), wide)
            e = around(D(("_name", N("en")), ("_values", L(*vals))), 1, 1, mk_enum, wide)
            yield "%s enum value named like a struct, %s" % (form, pl), document([USED] + st, M0, e)
            yield "%s enum value named like a message, %s" % (form, pl), document([USED], me, e)
    # enum values
    def enum(vals, pre=1, post=1): return place("enum", D(("_name", N("x")), ("_values", vals)), pre, post)
    yield "enum without _values, alone", place("enum", D(("_name", N("x"))), 0, 0)
    for pl, pre, post in POS:
        yield "enum without _values, %s" % pl, place("enum", D(("_name", N("x"))), pre, post)
        yield "enum with an empty list of values, %s" % pl, enum(L(), pre, post)
        for lab, v in (("a text", "abc"), ("an empty text", ""), ("a table", D(("_name", N("v")), ("_value", 1))), ("a number", 3), ("a table of numbers", D((N("v1"), 1), (N("v2"), 2)))):
            yield "enum whose _values is %s, %s" % (lab, pl), enum(v, pre, post)
    def plain(k): return N("val", k)
    def numbered(k): return D(("_name", N("val", k)), ("_value", RANGES[k]))
    for form, mk in (("plain", plain), ("numbered", numbered)):
        for pl, pre, post in POS:
            for lab, nm in ws_names("val") + [("that is empty", "")]:
                v = nm if form == "plain" else D(("_name", nm), ("_value", I("w", -(1 << 31), (1 << 31) - 1)))
                yield "%s enum value name %s, %s" % (form, lab, pl), enum(L(*around(v, pre, post, mk, wide)))
            for gap in (0, 1):
                a = N("dupv") if form == "plain" else D(("_name", N("dupv")), ("_value", I("d1", -(1 << 31), 9))); b = N("dupv") if form == "plain" else D(("_name", N("dupv")), ("_value", I("d2", 10, (1 << 31) - 1)))
                mid = (([S(mk("mids"), "mids")] if wide else []) + [mk("mid")]) if gap else []
                yield "two %s enum values of the same name%s, %s" % (form, " with others between them" if gap else "", pl), enum(L(*(around(a, pre, 0, mk, wide) + mid + around(b, 0, post, mk, wide))))
    for pl, pre, post in POS:
        for gap in (0, 1):
            same = I("same", -(1 << 31), (1 << 31) - 1)
            a = D(("_name", N("n1")), ("_value", same)); b = D(("_name", N("n2")), ("_value", same))
            mid = (([S(numbered("mids"), "mids")] if wide else []) + [numbered("mid")]) if gap else []
            yield "two enum values of the same number%s, %s" % (" with others between them" if gap else "", pl), enum(L(*(around(a, pre, 0, numbered, wide) + mid + around(b, 0, post, numbered, wide))))
        for lab, v in (("too large", I("big", 1 << 31, INF)), ("too small", I("small", -INF, -(1 << 31) - 1))):
            yield "enum number %s, %s" % (lab, pl), enum(L(*around(D(("_name", N("n")), ("_value", v)), pre, post, numbered, wide)))
        bads = [("without _name", D(("_value", I("b", -(1 << 31), (1 << 31) - 1)))), ("without _value", D(("_name", N("n")))), ("whose _name is a number", D(("_name", 4), ("_value", I("b", -(1 << 31), (1 << 31) - 1)))), ("whose _value is a text", D(("_name", N("n")), ("_value", "4"))), ("whose _value is a fraction", D(("_name", N("n")), ("_value", 1.5))),
                ("whose _value is a boolean", D(("_name", N("n")), ("_value", True))), ("that is a number", 7), ("that is an array", L(N("n"))), ("that is an empty table", D())]
        for lab, v in bads:
            yield "enum entry %s, %s" % (lab, pl), enum(L(*around(v, pre, post, numbered, wide)))
        for lab, v in [("that is a table among texts", numbered("odd")), ("that is a number among texts", 7), ("that is an array among texts", L(N("n")))]:
            if pl != "alone": yield "enum entry %s, %s" % (lab, pl), enum(L(*around(v, pre, post, plain, wide)))
        if pl != "alone": yield "enum entry that is a text among tables, %s" % pl, enum(L(*around(N("odd"), pre, post, numbered, wide)))
    if wide:
        yield "more than 255 messages", document([USED], [S(mk_msg("m"), "m256", 256, INF)])
        yield "more than 255 messages, listed one by one at the ends", document([USED], [mk_msg("a"), S(mk_msg("m"), "m254", 254, INF), mk_msg("b")])
RANGES = {"before": ("I", "r1", 20, 29), "earlier": ("I", "r2", 30, 39), "later": ("I", "r3", 60, 69), "after": ("I", "r4", 70, 79), "mid": ("I", "r5", 80, 89), "mids": ("I", "r6", 90, 99), "odd": ("I", "r7", 100, 109)}
def show(t):
    if isinstance(t, tuple): return {"D": "a table", "L": "an array"}.get(t[0], "?")
    if isinstance(t, AStr): return "not a type" if "odd" in repr(t) else "a struct"
    return repr(t)
# ---------------------------------------------------------------- valid documents: (label, document, expected)
def V(name, ty, is_list=False): return (name, ty, is_list)
def valid(wide):
    ns, lt, st = None, "uint32", "uint32"
    def exp(structs=(), messages=(), enums=(), ns=None, lt="uint32", st="uint32"): return dict(structs=structs, messages=messages, enums=enums, ns=ns, lt=lt, st=st)
    yield "empty protocol", D(), exp()
    yield "empty meta section", D(("meta", D())), exp()
    M = lambda *a: a
    u = (N("used"), [V(N("used", "m"), "int32")]); m0 = (N("msg-m0"), [V(N("m0", "m1"), "string"), V(N("m0", "m2"), N("used"))])
    for t in SIZES:
        yield "list size type %s" % t, document([USED], [mk_msg("m0")], (), [("list_size_type", t)]), exp([u], [m0], lt=t)
        yield "string size type %s" % t, document([USED], [mk_msg("m0")], (), [("string_size_type", t)]), exp([u], [m0], st=t)
    yield "full meta section", document([USED], [mk_msg("m0")], (), [("namespace", N("ns")), ("list_size_type", "byte"), ("string_size_type", "uint16")]), exp([u], [m0], ns=N("ns"), lt="byte", st="uint16")
    yield "namespace only", document([USED], [mk_msg("m0")], (), [("namespace", N("ns"))]), exp([u], [m0], ns=N("ns"))
    for kind in ("struct", "message"):
        for pl, pre, post in POS:
            mems = [(N("f", i), t) for i, t in enumerate(BASES)] + [(N("l", i), lst(t)) for i, t in enumerate(BASES)] + [(N("s"), N("used")), (N("sl"), lst(N("used"))), (N("e"), N("enum-before")), (N("el"), lst(N("enum-before"))), (N("later"), N("late")), (N("laterl"), lst(N("late")))]
            x = D(("_name", N("x")), *mems); ex = (N("x"), [V(N("f", i), t) for i, t in enumerate(BASES)] + [V(N("l", i), t, True) for i, t in enumerate(BASES)] + [V(N("s"), N("used")), V(N("sl"), N("used"), True), V(N("e"), N("enum-before")), V(N("el"), N("enum-before"), True), V(N("later"), N("late")), V(N("laterl"), N("late"), True)])
            mk = mk_struct if kind == "struct" else mk_msg
            items = around(x, pre, post, mk, wide); late = struct("late", (N("late", "m"), "bool")); el = (N("late"), [V(N("late", "m"), "bool")])
            def es(k): return (N(k), [V(N(k, "m1"), "byte"), V(N(k, "m2"), "float", True)])
            def em(k): return (N("msg-" + k), [V(N(k, "m1"), "string"), V(N(k, "m2"), N("used"))])
            f = es if kind == "struct" else em
            eitems = around(ex, pre, post, f, wide)
            en = [(N("enum-before"), [(N("ev1-before"), 0), (N("ev2-before"), 1)], "byte")]
            if kind == "struct": yield "struct with every kind of member, %s" % pl, document([USED] + items + [late], [mk_msg("m0")], [mk_enum("before")]), exp([u] + eitems + [el], [m0], en)
            else: yield "message with every kind of member, %s" % pl, document([USED, late], items, [mk_enum("before")]), exp([u, el], eitems, en)
    yield "structs and messages without members", document([struct("s0")], [struct("msg-0")]), exp([(N("s0"), [])], [(N("msg-0"), [])])
    if wide: 
        yield "1 to 255 messages", document([USED], [S(mk_msg("m"), "mv", 1, 255)]), exp([u], [S((N("msg-m"), [V(N("m", "m1"), "string"), V(N("m", "m2"), N("used"))]), "mv", 1, 255)])
        yield "many structs and enums", document([S(mk_struct("many"), "sv", 300, INF)], (), [S(mk_enum("many"), "evv", 300, INF)]), exp([S((N("many"), [V(N("many", "m1"), "byte"), V(N("many", "m2"), "float", True)]), "sv", 300, INF)], [], [S((N("enum-many"), [(N("ev1-many"), 0), (N("ev2-many"), 1)], "byte"), "evv", 300, INF)])
    # names that occur twice, where that is allowed
    yield "members of the same name in different definitions", document([struct("a", (N("same"), "byte")), struct("b", (N("same"), "string"))], [struct("msg-a", (N("same"), "byte")), struct("msg-b", (N("same"), N("a")))]), exp([(N("a"), [V(N("same"), "byte")]), (N("b"), [V(N("same"), "string")])], [(N("msg-a"), [V(N("same"), "byte")]), (N("msg-b"), [V(N("same"), N("a"))])])
    yield "enum values of the same name in different enums", document([], [], [D(("_name", N("e1")), ("_values", L(N("v1"), N("v2")))), D(("_name", N("e2")), ("_values", L(N("v2"), N("v1"))))]), exp([], [], [(N("e1"), [(N("v1"), 0), (N("v2"), 1)], "byte"), (N("e2"), [(N("v2"), 0), (N("v1"), 1)], "byte")])
    # enum numbers
    cls = {"byte": (0, 255), "int16 above": (256, 32767), "int16 below": (-32768, -1), "int32 above": (32768, (1 << 31) - 1), "int32 below": (-(1 << 31), -32769)}
    rank = lambda c: 0 if c == "byte" else 1 if "16" in c else 2
    for a in cls:
        for b in cls:
            enc = ["byte", "int16", "int32"][max(rank(a), rank(b))]
            la, ha = cls[a]; lb, hb = cls[b]
            if a == b:
                mid = (la + ha) // 2; ha = mid; lb = mid + 1
            va, vb = I("va", la, ha), I("vb", lb, hb)
            yield "enum with numbers in the %s and %s ranges" % (a, b), document([], [], [D(("_name", N("e")), ("_values", L(D(("_name", N("a")), ("_value", va)), D(("_name", N("b")), ("_value", vb)))))]), exp([], [], [(N("e"), [(N("a"), va), (N("b"), vb)], enc)])
        yield "enum with one number in the %s range" % a, document([], [], [D(("_name", N("e")), ("_values", L(D(("_name", N("a")), ("_value", I("va",) + (cls[a][0], cls[a][1]) if False else ("I", "va") + cls[a])))))]), exp([], [], [(N("e"), [(N("a"), ("I", "va") + cls[a])], ["byte", "int16", "int32"][rank(a)])])
    for n_ in (1, 2, 5): yield "enum of %d plain values" % n_, document([], [], [D(("_name", N("e")), ("_values", L(*[N("v", i) for i in range(n_)])))]), exp([], [], [(N("e"), [(N("v", i), i) for i in range(n_)], "byte")])
    # shared use
    def unlist(t):
        x = segs_of(t); return mkstr([x[0][1:]] + list(x[1:-1]) + [x[-1][:-1]]) if len(x) > 1 else x[0][1:-1]
    s = lambda k, *r: struct(k, *[(N(k, i), t) for i, t in enumerate(r)])
    e = lambda k, *r: (N(k), [V(N(k, i), unlist(t) if str(segs_of(t)[0])[:1] == "[" else t, str(segs_of(t)[0])[:1] == "[") for i, t in enumerate(r)])
    shapes = [("diamond", [("a", N("b"), N("c")), ("b", N("d")), ("c", N("d")), ("d", "byte")]), ("diamond through lists", [("a", lst(N("b")), lst(N("c"))), ("b", lst(N("d"))), ("c", N("d")), ("d", "byte")]), ("the same struct twice", [("a", N("b"), N("b"), lst(N("b"))), ("b", "byte")]),
              ("chain written backwards", [("d", "byte"), ("c", N("d")), ("b", N("c")), ("a", N("b"), N("d"))]), ("chain", [("a", N("b")), ("b", N("c")), ("c", N("d")), ("d", lst("string"))])]
    for lab, sh in shapes: yield "structs: " + lab, document([s(*x) for x in sh], [s("msg-x", N("a"), lst(N("d" if "twice" not in lab else "b")))]), exp([e(*x) for x in sh], [e("msg-x", N("a"), lst(N("d" if "twice" not in lab else "b")))])
# ---------------------------------------------------------------- reference graphs
def graphs(thorough):
    """(label, number of structs, member slots per struct, list markers, message slots)"""
    yield "three structs with two members each", [2, 2, 2], (), 1
    yield "five structs with one member each", [1, 1, 1, 1, 1], (), 0
    yield "four structs, two of them with two members", [1, 2, 1, 2], (), 0
    yield "three structs with two members each, the second ones lists", [2, 2, 2], (1,), 0
    yield "three structs with two members each, all lists", [2, 2, 2], (0, 1), 0
    if thorough:
        yield "six structs with one member each", [1] * 6, (), 0
        yield "four structs with two members each", [2, 2, 2, 2], (), 0
        yield "three structs with three members each", [3, 3, 3], (1,), 0
def graph_doc(slots, lists, msgs):
    n = len(slots); names = [N("G", i) for i in range(n)]; refs = {}
    opts = ["byte"] + names
    out = []
    for i, k in enumerate(slots):
        mem = []
        for j in range(k):
            t = oneof("t%d-%d" % (i, j), opts); refs[i, j] = t
            mem.append((N("G", i, j), lst(t) if j in lists else t))
        out.append(struct("G-%d" % i, *mem))
    return document(out, [struct("msg-g", *[(N("mg", i), names[i % n]) for i in range(max(msgs, 0))])]), refs, names
def cyclic(edges, n):
    """is there a cycle"""
    succ = {i: {b for a, b in edges if a == i} for i in range(n)}; done = set()
    while True:
        new = {i for i in range(n) if i not in done and succ[i] <= done}
        if not new: return len(done) < n
        done |= new
# ---------------------------------------------------------------- runs
def load(world, docspec, limit=2500, steps=60000):
    """outcomes (kind, value, ctx): accepted / rejected / endless"""
    def run(ctx):
        it = PI(world, ctx); it.LIMIT = steps
        mod = it.module("beschi.protocol")
        cls = mod.attrs.get("Protocol")
        if not isinstance(cls, Class): raise AnalysisError("class Protocol vanished from beschi.protocol")
        it.doc = make(it, docspec); it.steps = 0
        try: v = it.call(cls, ["protocol.toml"], {}, None)
        except PyExc as p: return ("rejected", p.v, it)
        except NonTerm: return ("endless", None, it)
        return ("accepted", v, it)
    vec = []; n = 0; t0 = time.time(); chain = {}; known = {}
    while True:
        n += 1
        if n > limit or time.time() - t0 > 300: raise Budget("more than %d paths" % (n - 1))
        ctx = Ctx(vec); ctx.shared = {}; ctx.chain = chain; ctx.known = known
        try: ctx.outcome = run(ctx)
        except PathEnd: ctx.outcome = None
        if ctx.outcome is not None: yield ctx
        t = ctx.taken
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return
        vec = [o for o, _ in t[:-1]] + [t[-1][0] + 1]
def describe(it, v, spec):
    """differences between the protocol object and what was written; None when equal"""
    def at(o, n):
        try: return it.getattr(o, n, None)
        except PyExc: raise AnalysisError("protocol objects have no attribute %s any more" % n)
    if not it.eq(at(v, "namespace"), spec["ns"]): return "namespace is %r" % (at(v, "namespace"),)
    for a, k in (("list_size_type", "lt"), ("string_size_type", "st")):
        if not it.eq(at(v, a), spec[k]): return "%s is %r" % (a, at(v, a))
    def items(d):
        if not isinstance(d, VDict): raise AnalysisError("protocol table is %r" % (d,))
        return d.items
    for tab, msg in (("structs", False), ("messages", True)):
        got = items(at(v, tab)); want = spec[tab]
        if len(got) != len(want): return "%d %s instead of %d" % (len(got), tab, len(want))
        for g, w in zip(got, want):
            if isinstance(g, Seg) != (isinstance(w, tuple) and w[0] == "S"): return "%s are in another order" % tab
            if isinstance(g, Seg):
                if not it.eq(g.k, Lin.of(sym(("many", w[2]), w[3], w[4]))): return "the number of %s is another one" % tab
                g = g.v; w = w[1]
            if not it.eq(g[0], w[0]): return "%r is listed where %r was declared" % (g[0], w[0])
            o = g[1]
            if not it.eq(at(o, "name"), w[0]): return "%r is stored under the name %r" % (at(o, "name"), w[0])
            if it.truth(at(o, "is_message")) != msg: return "%r is %sa message" % (w[0], "" if not msg else "not ")
            ms = at(o, "members")
            if len(ms.items) != len(w[1]): return "%r has %d members instead of %d" % (w[0], len(ms.items), len(w[1]))
            for x, (n, t, l) in zip(ms.items, w[1]):
                if isinstance(x, Seg): return "members of %r" % (w[0],)
                if not it.eq(at(x, "name"), n): return "member %r of %r is listed as %r" % (n, w[0], at(x, "name"))
                if not it.eq(at(x, "vartype"), t): return "type of %r.%r is %r" % (w[0], n, at(x, "vartype"))
                if it.truth(at(x, "is_list")) != l: return "list marker of %r.%r is %r" % (w[0], n, at(x, "is_list"))
    got = items(at(v, "enums")); want = spec["enums"]
    if len(got) != len(want): return "%d enums instead of %d" % (len(got), len(want))
    for g, w in zip(got, want):
        if isinstance(g, Seg) != (isinstance(w, tuple) and w[0] == "S"): return "enums are in another order"
        if isinstance(g, Seg): g = g.v; w = w[1]
        if not it.eq(g[0], w[0]) or not it.eq(at(g[1], "name"), w[0]): return "%r is listed where enum %r was declared" % (g[0], w[0])
        vals = items(at(g[1], "values"))
        if len(vals) != len(w[1]): return "enum %r has %d values instead of %d" % (w[0], len(vals), len(w[1]))
        for x, (n, num) in zip(vals, w[1]):
            if isinstance(x, Seg) or not it.eq(x[0], n): return "enum %r has its values in another order" % (w[0],)
            num = make(it, num)
            if not it.eq(x[1], num): return "value of %r.%r is %r" % (w[0], n, x[1])
        if at(g[1], "encoding") != w[2]: return "enum %r is stored as %r instead of %s" % (w[0], at(g[1], "encoding"), w[2])
    return None
def one(task):
    """one document: list of findings, number of paths, error"""
    world, kind, label, spec, extra, plainspec = task
    for d in ([spec, plainspec] if plainspec is not None else [spec]):
        try: return judge(world, kind, label, d, extra)
        except AnalysisError as e: err = str(e)
        except Budget as e: err = str(e)
        except RecursionError: err = "analysis too deep"
    return [], 0, "%s: %s" % (label, err)
def judge(world, kind, label, spec, extra):
    out = []
    if kind == "graph":
        doc, refs, names = graph_doc(*spec); n = len(names); paths = load(world, doc, 60000, 20000)
        acc = rej = seen = 0
        for c in paths:
            k, v, it = c.outcome; seen += 1
            if len(out) >= 8: break
            opts = {ij: [names.index(o) if o in names else None for o in it.options(t)] for ij, t in refs.items()}
            fixed = {(i, o[0]) for (i, j), o in opts.items() if len(o) == 1 and o[0] is not None}
            may = {(i, x) for (i, j), o in opts.items() for x in o if x is not None}
            free = {(i, j): o for (i, j), o in opts.items() if len(o) > 1}
            pick = lambda es: ", ".join("%d->%d" % e for e in sorted(es)) or "none"
            if k == "endless": out.append(("C31", "references %s" % pick(fixed), "loading does not end when the structs refer to each other like this")); continue
            if k == "accepted":
                acc += 1
                if cyclic(may, n):
                    # some completion of what was never looked at has a cycle (a cycle needs one choice per slot: check slot by slot)
                    if cyclic(fixed, n) or any_cycle(fixed, free, n): out.append(("C31", "references %s" % pick(fixed), "accepted although structs contain themselves"))
            else:
                rej += 1
                if not cyclic(fixed, n) and not all_cycle(fixed, free, n): out.append(("C32", "references %s" % pick(fixed), "rejected (%r) although no struct contains itself" % (v,)))
        best = {}
        for p, k, m in out: best.setdefault((p, m.split("(")[0]), []).append((len(k), k, m))
        out = []
        for (p, _), l in best.items():
            _, k, m = min(l); out.append((p, "%s: %s" % (label, k), m))
        return out, seen, None if out or acc and rej else "%s: only %d accepted and %d rejected shapes" % (label, acc, rej)
    seen = 0
    for c in load(world, spec):
        k, v, it = c.outcome; seen += 1
        if len(out) >= 4: break
        if k == "endless": out.append(("C31", label, "loading does not end")); continue
        if kind == "invalid":
            if k == "accepted": out.append(("C30", label, "accepted"))
        else:
            if k == "rejected": out.append(("C32", label, "rejected: %r" % (v,))); continue
            d = describe(it, v, extra)
            if d: out.append(("C32", label, d))
    if not seen: return out, 0, "%s: no path reaches a verdict" % label
    return sorted(set(out)), seen, None
def any_cycle(fixed, free, n):
    if not free: return cyclic(fixed, n)
    (ij, o), rest = next(iter(free.items())), dict(list(free.items())[1:])
    return any(any_cycle(fixed | ({(ij[0], x)} if x is not None else set()), rest, n) for x in o)
def all_cycle(fixed, free, n):
    if not free: return cyclic(fixed, n)
    (ij, o), rest = next(iter(free.items())), dict(list(free.items())[1:])
    return all(all_cycle(fixed | ({(ij[0], x)} if x is not None else set()), rest, n) for x in o)
WORLD = None
def _init():
    global WORLD
    import resource
    WORLD = pysrc.load()
def _one(t): return one((WORLD,) + t)
def tasks(pid, thorough):
    out = []
    if pid == "C30":
        plain = dict(invalid(False))
        out = [("invalid", l, d, None, plain.get(l)) for l, d in invalid(True)]
    else:
        if pid == "C32":
            plain = {l: (d, e) for l, d, e in valid(False)}
            out = [("valid", l, d, e, None) for l, d, e in valid(True)]
        out += [("graph", g[0], g[1:], None, None) for g in graphs(thorough)]
    return out
def check(pid, thorough):
    import multiprocessing as mp
    res = Result(); ts = tasks(pid, thorough)
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 2), _init) as pool:
        order = sorted(range(len(ts)), key=lambda i: ts[i][0] != "graph")
        got = pool.map(_one, [ts[i] for i in order], chunksize=1 if pid == "C31" else 2)
    paths = 0; errs = []; done = 0
    for f, n, e in got:
        paths += n
        if e: errs.append(e)
        else: done += 1
        for p, key, msg in f:
            if p == pid: res.add(key, "beschi/protocol.py (Protocol)", "%s: %s" % (key, msg))
    kinds = {}
    for t in ts: kinds[t[0]] = kinds.get(t[0], 0) + 1
    res.coverage.update(documents=len(ts), decided=done, paths=paths, kinds=kinds, undecided=errs[:20], rule={"C30": "every path of the reader over a document breaking a rule ends in an exception", "C31": "every path over a cyclic reference graph ends in an exception; no path runs on", "C32": "every path over a valid document ends with exactly what was written"}[pid],
                        explanation="%d abstract documents, %d of them decided on %d paths" % (len(ts), done, paths))
    res.summary.append("%s: %d abstract documents (%s), %d decided, %d paths" % (pid, len(ts), ", ".join("%d %s" % (v, k) for k, v in sorted(kinds.items())), done, paths))
    for e in errs[:5]: res.summary.append("  NOT DECIDED %s" % e)
    if done * 2 < len(ts): res.broken.append("only %d of %d documents could be decided: %s" % (done, len(ts), errs[:3]))
    return res
