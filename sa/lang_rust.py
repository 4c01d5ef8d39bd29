"""Rust: abstract semantics of the generated module (core/alloc types modelled)."""
import re
from .model import *
from . import parse_rust

RINT = {k: k for k in INTS}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "usize": 8, "isize": 8}
UNIT = Tup([])
class Ref(V):
    """&mut of a scalar place"""
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return "&mut"
class Range(V):
    def __init__(self, lo, hi, incl): self.lo = lo; self.hi = hi; self.incl = incl
class It(V):
    """iterator over a list"""
    def __init__(self, l, enum=False, rng=None): self.l = l; self.enum = enum
def ok(v): return Variant("Ok", [v], "Result")
def er(v): return Variant("Err", [v], "Result")
def some(v): return Variant("Some", [v], "Option")
NONE = Variant("None", [], "Option")
def tname(ty):
    while ty is not None and ty[0] == "ref": ty = ty[1]
    return ty[1].split("::")[-1] if ty is not None and ty[0] in ("name", "gen") else None
PREL = {"Ok", "Err", "Some"}

class Rust(Model):
    lang = "rust"; rename = True
    def index(self, decls, prefix=""):
        if not hasattr(self, "methods"):
            self.structs_all = []; self.methods = {}; self.traits = {}; self.impls = {}; self.assoc = {}
        for d in decls:
            if d.k == "mod": self.index(d.decls, prefix)
            elif d.k == "fn": self.funcs.setdefault(d.name, d)
            elif d.k == "struct": self.structs_all.append(d.name); self.structs.setdefault(d.name, d)
            elif d.k == "enum": self.enums.setdefault(d.name, d)
            elif d.k == "var": self.globals_ast.setdefault(d.name, d)
            elif d.k == "trait":
                self.traits[d.name] = d
                for m in d.methods: m.cls = d.name; m.trait = d.name
            elif d.k == "impl":
                n = tname(d.ty); tr = tname(d.trait) if d.trait else None
                if n is None: raise AnalysisError("rust: impl for %r" % (d.ty,))
                if tr: self.impls.setdefault(n, []).append(tr)
                for m in d.methods:
                    if m.k == "var": self.assoc[(n, m.name)] = m; continue
                    m.cls = n; m.trait = tr
                    # conversions are distinguished by the type they convert from
                    key = (n, m.name)
                    if tr in ("From", "TryFrom") and d.trait[0] == "gen":
                        self.methods.setdefault((n, m.name, tname(d.trait[2][0])), m)
                    if tr is None: self.methods[key] = m          # inherent items come first
                    else: self.methods.setdefault(key, m)
    # ---- names
    def type_name(self, T):
        for n in self.structs:
            if norm(n) == norm(T): return n
        raise AnalysisError("rust: no struct for " + T)
    def fn(self, name):
        for n, d in self.funcs.items():
            if norm(n) == norm(name): return d
        raise AnalysisError("rust: no function " + name)
    def field_name(self, T, m):
        for n, ty in self.structs[self.type_name(T)].fields:
            if norm(n) == norm(m): return n
        raise AnalysisError("rust: no field %s.%s" % (T, m))
    def new_obj(self, T): return Obj(self.ctx, self.type_name(T), {}, "val")
    def method(self, cls, name):
        m = self.methods.get((cls, name))
        if m is not None: return m
        for tr in self.impls.get(cls, ()):
            for m in (self.traits[tr].methods if tr in self.traits else ()):
                if m.name == name and m.body is not None: return m
        return None
    # ---- types
    def resolve(self, ty, sc=None):
        while ty is not None and ty[0] == "ref": ty = ty[1]
        if ty is not None and ty[0] == "name" and ty[1] in self.enums_typedefs(): return self.resolve(self.enums_typedefs()[ty[1]])
        return ty
    def enums_typedefs(self):
        if not hasattr(self, "_td"): self._td = {d.name: d.ty for d in self.decls if d.k == "typedef"}
        return self._td
    def prim(self, ty):
        ty = self.resolve(ty)
        if ty is not None and ty[0] == "name" and (ty[1] in INTS or ty[1] in ("f32", "f64")): return ty[1]
        return None
    def coerce(self, v, ty, n):
        p = self.prim(ty)
        if p and isinstance(v, Num) and v.ty in ("int", "float"): return self.conv(v, p)
        if isinstance(v, ListV) and getattr(v, "ty", None) is None:
            t = self.resolve(ty)
            if t is not None: v.ty = t
        return v
    def copyval(self, v): return v
    def storage_of(self, en):
        for a in self.enums[en].attrs:
            m = re.match(r"repr\((\w+)\)", a)
            if m and m.group(1) in INTS: return m.group(1)
        return "isize"
    def enum_table(self, en):
        memo = self.__dict__.setdefault("_et", {})
        if en not in memo:
            tab = {}; prev = -1
            for n, x in self.enums[en].values:
                prev = prev + 1 if x is None else self.num(self.ev(x, self.gscope)).c
                tab[n] = prev
            memo[en] = tab
        return memo[en]
    def suffix_type(self, e): return e.suf if getattr(e, "suf", "") in WIDTH else "int"
    def default_value(self, ty, n):
        t = self.resolve(ty)
        p = self.prim(t)
        if p: return Num(0, p)
        if t[0] == "name" and t[1] == "bool": return Bool(F)
        nm = tname(t)
        if nm == "String" or nm == "str": return Str("lit", "")
        if nm in ("Vec",): return self.mklist((), t)
        if nm == "Option": return NONE
        if t[0] == "arr":
            return self.mklist((("fill", self.num(self.ev(t[1], self.gscope)), self.default_value(t[2], n)),), t)
        m = self.method(nm, "default")
        if m is not None: return self.invoke(m, [])
        d = self.structs.get(nm)
        if d is not None and self.derives(d, "Default"): return Obj(self.ctx, nm, {f: self.default_value(x, n) for f, x in d.fields}, "val")
        d = self.enums.get(nm)
        if d is not None and self.derives(d, "Default"):
            for v, e in d.values:
                if "default" in d.vattrs.get(v, ()): return EnumV(nm, self.enum_table(nm)[v])
        self.err(n, "default of %r" % (ty,))
    def derives(self, d, what): return any(a.startswith("derive(") and what in re.split(r"[(),]", a) for a in d.attrs)
    def mklist(self, segs, ty=None):
        l = ListV(self.ctx, segs); l.ty = ty; return l
    # ---- panics
    def panic(self, why): raise PathEnd("panic", why)
    def index_oob(self, l, i, e): self.panic("index %r not proven inside a list of %r elements" % (i, l.length()))
    strict = False       # arithmetic on values read from the input must not overflow
    def fits(self, lin, ty, e):
        lo, hi = int_range(ty); ctx = self.ctx
        a, b = ctx.bounds(lin)
        if (a >= lo or ctx.entails_ge(lin - lo)) and (b <= hi or ctx.entails_ge(lin.scale(-1) + hi)): return True
        return False
    def arith(self, op, a, b, e):
        if isinstance(a, (Str, Opq)) and op == "+": return Opq("text")
        r = Model.arith(self, op, a, b, e)
        if op in ("+", "-", "*") and isinstance(r, Num) and r.ty in INTS and not self.fits(r.lin, r.ty, e):
            lo, hi = int_range(r.ty); ctx = self.ctx
            if op == "-" and lo == 0 and not ctx.branch(c_ge(r.lin)): self.panic("subtraction below zero")
            if INTS[r.ty][0] < 64:
                if not ctx.branch(c_ge(r.lin.scale(-1) + hi)): self.panic("arithmetic overflow in %s" % r.ty)
                if lo < 0 and not ctx.branch(c_ge(r.lin - lo)): self.panic("arithmetic overflow in %s" % r.ty)
            elif self.strict and ctx.decide(c_ge(r.lin.scale(-1) + hi)) is not True and ctx.bounds(r.lin)[1] != INF: self.panic("arithmetic overflow in %s" % r.ty)
        return r
    def arith_shift(self): pass
    # ---- statements
    def s_let(self, n, sc):
        if n.init is None:
            if n.pat.k == "pbind": return self.declare(sc, n.pat.id, UNINIT)
            self.err(n, "let without initialiser")
        v = self.ev_as(n.init, n.ty, sc)
        if n.ty is not None: v = self.coerce(v, n.ty, n)
        if n.els is not None:
            s2 = Scope(self.ctx, sc)
            if not self.ctx.branch(self.pat_cond(n.pat, v, n, s2)):
                self.ev(n.els, sc); self.err(n, "let-else falls through")
            for k, x in s2.f.items(): self.declare(sc, k, x)
            return
        if self.pat_cond(n.pat, v, n, sc).k != "t": self.err(n, "refutable pattern in let")
    def s_blockx(self, n, sc): self.ev(n, sc)
    def s_foreach(self, n, sc):
        it = self.unref(self.ev(n.iter, sc), n)
        if isinstance(it, Range):
            lo, hi = self.num(it.lo), self.num(it.hi)
            if it.incl: hi = hi + 1
            ty = it.lo.ty if it.lo.ty != "int" else it.hi.ty
            def bind(s, ix): self.pat_cond(n.var, Num(lo + ix, ty), n, s)
            N = hi - lo
            if self.ctx.bounds(N)[0] < 0 and not self.ctx.entails_ge(N):
                if not self.ctx.branch(c_ge(N)): return self.negative_count(n, N)
            return self.foreach(n, sc, N, bind)
        enum = False
        if isinstance(it, It): enum = it.enum; it = it.l
        if isinstance(it, Bytes): it = self.bytes_list(it, n)
        if not isinstance(it, ListV): self.err(n, "iteration over %r" % (it,))
        def bind(s, ix):
            v = self.list_get(it, ix, n)
            self.pat_cond(n.var, Tup([Num(ix, "usize"), v]) if enum else v, n, s)
        self.foreach(n, sc, it.length(), bind)
    def bytes_list(self, b, n):
        if b.src[0] == "lit": return self.mklist(tuple(("one", Num(x, "u8")) for x in b.src[1]))
        if b.src[0] == "buf": return self.mklist((("bulk", b.ln, b.src[2], 1, "u"),))
        self.err(n, "iteration over %r" % (b,))
    # ---- patterns
    def pat_cond(self, p, v, e, sc):
        """condition under which a pattern matches; names are bound in sc"""
        v = self.unref(v, e) if not (p.k == "pbind" and p.sub is None) else v
        k = p.k
        if k == "pwild" or k == "prest": return T
        if k == "pbind":
            if p.sub is None and isinstance(v, Variant) and p.id == "None": return T if v.tag == "None" else F
            if p.sub is not None:
                c = self.pat_cond(p.sub, v, e, sc)
                self.declare(sc, p.id, v); return c
            if p.id in self.globals_ast: return self.equal(v, self.global_name(p.id, e, sc), e)
            self.declare(sc, p.id, v); return T
        if k == "por":
            c = F
            for a in p.alts: c = c_or(c, self.pat_cond(a, v, e, sc))
            return c
        if k == "plit":
            x = self.ev(p.e, sc)
            if isinstance(v, Bytes) and isinstance(x, Str): x = Bytes(("lit", x.val.encode()), len(x.val.encode()))
            return self.equal(v, x, e)
        if k == "prange":
            l = self.num(v, e); c = T
            if p.lo is not None: c = c_and(c, c_ge(l - self.num(self.ev(p.lo, sc))))
            if p.hi is not None: c = c_and(c, c_ge(self.num(self.ev(p.hi, sc)) - l - (0 if p.incl else 1)))
            return c
        if k == "ptuple":
            if isinstance(v, Tup) and len(v.els) == len(p.elems):
                c = T
                for q, x in zip(p.elems, v.els): c = c_and(c, self.pat_cond(q, x, e, sc))
                return c
        if k == "pslice" and isinstance(v, Bytes) and v.src[0] == "buf" and not any(q.k == "prest" for q in p.elems):
            c = c_eq(v.ln - len(p.elems))
            for i, q in enumerate(p.elems): c = c_and(c, self.pat_cond(q, self.rd(v.src[2] + i, 1, "u"), e, sc))
            return c
        if k in ("ppath", "ptstruct", "pstruct"):
            path = [self.self_name(x, sc) for x in p.path]
            tag = path[-1]
            if len(path) == 1 and k == "ppath" and tag not in PREL and tag != "None": return self.equal(v, self.global_name(tag, e, sc), e)
            if isinstance(v, Opq) and v.tag == "result":       # a reader's outcome that has not been looked at
                self.err(e, "pattern on %r" % (v,))
            if isinstance(v, AbsMsg) and v.known is None:
                T_ = next((T for T in self.schema.messages if norm(T) == norm(tag)), None)
                if T_ is None: self.err(e, "variant %s" % tag)
                c = c_in(v.which, IntSet.of([self.schema.tag(T_)]))
                for q in getattr(p, "elems", ()) or ():
                    if q.k == "pbind": self.declare(sc, q.id, AbsMsg(v.path, self.schema, T_))
                    elif q.k not in ("pwild", "prest"): self.err(e, "pattern")
                return c
            if isinstance(v, Variant):
                if v.tag != tag: return F
                c = T
                el = list(getattr(p, "elems", ()) or ())
                if el and el[-1].k == "prest": el = []
                for q, x in zip(el, v.args): c = c_and(c, self.pat_cond(q, x, e, sc))
                return c
            if isinstance(v, EnumV) or isinstance(v, Num):
                en = path[-2]
                if en in self.enums and tag in self.enum_table(en): return c_eq(self.num(v) - self.enum_table(en)[tag])
                if (en, tag) in self.assoc: return self.equal(v, self.e_path(N("path", e.line, path=path, targs=None), sc), e)
            if k == "pstruct" and isinstance(v, Obj):
                c = T
                for f in p.fields:
                    nm, q = f[0], f[1]
                    c = c_and(c, self.pat_cond(q, self.read_cell(v.f, nm, e), e, sc))
                return c
        self.err(e, "pattern %s on %r" % (k, v))
    def equal(self, a, b, n):
        a = self.unref(a, n); b = self.unref(b, n)
        if isinstance(a, ListV) and not isinstance(b, ListV) and all(s[0] == "one" for s in a.segs): a = Bytes(("lit", bytes(self.num(s[1]).c for s in a.segs)), len(a.segs))
        if isinstance(b, ListV) and not isinstance(a, ListV) and all(s[0] == "one" for s in b.segs): b = Bytes(("lit", bytes(self.num(s[1]).c for s in b.segs)), len(b.segs))
        if isinstance(a, Variant) and isinstance(b, Variant) and (a.args or b.args): self.err(n, "equality of %r" % (a,))
        return Model.equal(self, a, b, n)
    # ---- expressions
    def unref(self, v, e):
        while isinstance(v, Ref): v = self.load(v.loc, e)
        return v
    def num(self, v, n=None): return Model.num(self, self.unref(v, n), n)
    def truth(self, v, n=None): return Model.truth(self, self.unref(v, n), n)
    def binop(self, op, a, b, e): return Model.binop(self, op, self.unref(a, e), self.unref(b, e), e)
    def cond(self, e, sc):
        if e.k == "letcond": return self.pat_cond(e.pat, self.ev(e.e, sc), e, sc)
        if e.k == "un" and e.op == "~!":
            return c_not(self.cond(e.e, sc))
        return Model.cond(self, e, sc)
    def e_letcond(self, e, sc): return Bool(self.cond(e, sc))
    def e_blockx(self, e, sc):
        s2 = Scope(self.ctx, sc)
        for s in e.body: self.stmt(s, s2)
        return UNIT if e.tail is None else self.ev(e.tail, s2)
    def run_block(self, n, sc):
        if n is not None and n.k == "blockx": self.ev(n, sc); return
        return Model.run_block(self, n, sc)
    def e_ifx(self, e, sc):
        s2 = Scope(self.ctx, sc)
        c = self.cond(e.c, s2)
        if self.ctx.branch(c): return self.flag_value(c, self.ev(e.a, s2))
        if e.b is not None: return self.flag_value(c, self.ev(e.b, sc))
        return UNIT
    def e_while(self, e, sc):
        s2 = Scope(self.ctx, sc)
        if getattr(e, "isloop", False):
            try: self.s_while(e, s2)
            except BrkX as x:
                if x.label is not None and x.label != getattr(e, "label", None): raise
                return x.v if x.v is not None else UNIT
            return UNIT
        self.s_while(e, s2); return UNIT
    def e_foreach(self, e, sc): self.s_foreach(e, sc); return UNIT
    def e_retx(self, e, sc): raise RetX(UNIT if e.e is None else self.ev(e.e, sc))
    def e_brkx(self, e, sc): raise BrkX(e.label, None if e.e is None else self.ev(e.e, sc))
    def e_contx(self, e, sc): raise ContX(e.label)
    def const_arm(self, p, b, sc):
        """a literal pattern whose arm just names an enumerator, possibly inside Ok/Some: (pattern value, enum, enumerator value, wrapper)"""
        if p.k != "plit": return None
        w = None
        while b.k == "blockx" and not b.body and b.tail is not None: b = b.tail
        if b.k == "call" and b.f.k == "name" and b.f.id in PREL and len(b.args) == 1: w = b.f.id; b = b.args[0][1]
        if b.k != "path" or len(b.path) < 2: return None
        en = self.self_name(b.path[-2], sc)
        if en not in self.enums or self.enums[en].has_payload: return None
        c = self.enum_table(en).get(b.path[-1])
        x = self.ev(p.e, sc)
        return None if c is None or not isinstance(x, Num) or not x.lin.is_const() else (x.lin.c, en, c, w)
    def guard_const(self, p, g, sc):
        """x if x == CONST: the constant pattern it amounts to"""
        if p.k != "pbind" or p.sub is not None or g is None or g.k != "bin" or g.op != "==": return None
        nm = p.id
        for a, b in ((g.l, g.r), (g.r, g.l)):
            if a.k == "name" and a.id == nm:
                x = b
                while x.k in ("cast", "paren"): x = x.e
                if x.k in ("path", "lit"): return N("plit", p.line, e=b)
        return None
    def e_match(self, e, sc):
        v = self.ev(e.e, sc)
        arms = e.arms; i = 0
        v0 = self.unref(v, e)
        if isinstance(v0, Num) and v0.lin.one() and v0.lin.one()[1] == 1:
            run = []; seen = set()
            while i < len(arms):
                lp = arms[i][0] if arms[i][1] is None else self.guard_const(arms[i][0], arms[i][1], sc)
                if lp is None: break
                a = self.const_arm(lp, arms[i][2], sc)
                if a is None or a[0] != a[2] or (run and (a[1], a[3]) != run[0][1:]) : break
                run.append((a[0], a[1], a[3])); i += 1
            if len(run) > 1 or run:
                s, _, k = v0.lin.one()
                if self.ctx.branch(c_in(s, IntSet.of([r[0] - k for r in run]))):
                    x = EnumV(run[0][1], v0.lin)       # the enumerator with the value matched
                    return x if run[0][2] is None else Variant(run[0][2], [x])
        for p, g, b in arms[i:]:
            s2 = Scope(self.ctx, sc)
            if not self.ctx.branch(self.pat_cond(p, v, e, s2)): continue
            if g is not None and not self.ctx.branch(self.cond(g, s2)): continue
            return self.ev(b, s2)
        self.err(e, "no arm matches %r" % (v,))
    def s_decls(self, n, sc):
        for d in n.decls:
            if d.k == "var" and d.init is not None: self.declare(sc, d.name, self.ev(d.init, sc))
            elif d.k == "fn": self.declare(sc, d.name, FnV(d))
            else: self.err(n, "local declarations")
    def e_try(self, e, sc):
        v = self.unref(self.ev(e.e, sc), e)
        if isinstance(v, Variant):
            if v.tag in ("Ok", "Some"): return v.args[0] if v.args else UNIT
            if v.tag == "None": raise RetX(NONE)
            if v.tag == "Err": raise RetX(er(v.args[0]))
        self.err(e, "? on %r" % (v,))
    def e_tuple(self, e, sc): return Tup([self.ev(x, sc) for x in e.elems])
    def e_rangex(self, e, sc):
        if e.lo is None or e.hi is None: return Range(None if e.lo is None else self.unref(self.ev(e.lo, sc), e), None if e.hi is None else self.unref(self.ev(e.hi, sc), e), e.incl)
        return Range(self.unref(self.ev(e.lo, sc), e), self.unref(self.ev(e.hi, sc), e), e.incl)
    def e_cast(self, e, sc):
        v = self.unref(self.ev(e.e, sc), e)
        p = self.prim(e.ty)
        if p is None: return v
        if isinstance(v, (Num, Bool, EnumV)):
            src = v
            if isinstance(v, EnumV): v = Num(v.lin, "int")
            r = self.conv(v, p)
            if isinstance(v, Num) and p in ("i32", "u32") and r.lin != v.lin and self.stream is not None: self.ctx.flags["wide"] = True
            return r
        self.err(e, "cast of %r" % (v,))
    def e_lit(self, e, sc):
        if e.t == "int" and getattr(e, "suf", "") in ("f32", "f64"): return Num(e.v, e.suf)
        return Model.e_lit(self, e, sc)
    def e_macro(self, e, sc):
        n = e.name
        if n == "vec":
            a = e.args
            if not a: return self.mklist(())
            if len(a) == 1 and a[0].k == "arrrep": return self.e_arrrep(a[0], sc)
            return self.mklist(tuple(("one", self.ev(x, sc)) for x in a))
        if n in ("format",): return Opq("text")
        if n in ("println", "print", "eprintln", "eprint", "write", "writeln", "debug_assert", "debug_assert_eq"): return UNIT
        if n in ("panic", "unreachable", "todo", "unimplemented"): self.panic(n + "!")
        if n == "assert":
            if not self.ctx.branch(self.cond(e.args[0], sc)): self.panic("assertion")
            return UNIT
        if n == "matches": self.err(e, "matches!")
        self.err(e, "macro " + n)
    def e_arrrep(self, e, sc):
        v = self.ev(e.e, sc); n = self.num(self.ev(e.n, sc), e)
        return self.mklist((("fill", n, v),))
    def e_alit(self, e, sc): return self.mklist(tuple(("one", self.ev(x, sc)) for x in e.elems))
    def e_slit(self, e, sc):
        n = self.self_name(e.ty[1].split("::")[-1], sc)
        d = self.structs.get(n)
        if d is None: self.err(e, "literal of " + n)
        ft = dict(d.fields); o = Obj(self.ctx, n, {}, "val")
        if e.base is not None:
            if e.base.k == "call" and e.base.f.k == "path" and e.base.f.path[-1] == "default": b = self.default_value(("name", n), e)
            else: b = self.unref(self.ev(e.base, sc), e)
            o.f.update(b.f)
        for k, x in e.fields:
            if k not in ft: self.err(e, "field %s of %s" % (k, n))
            o.f[k] = self.coerce(self.ev_as(x, ft[k], sc), ft[k], e)
        return o
    def ev_as(self, e, ty, sc):
        if ty is not None and e.k == "call" and e.f.k == "path" and e.f.path[-2:] == ["Default", "default"]: return self.default_value(ty, e)
        if ty is not None and e.k == "call" and e.f.k == "mem" and e.f.f in ("try_into", "into", "parse", "unwrap", "unwrap_or"):
            x = e
            chain = []
            while x.k == "call" and x.f.k == "mem": chain.append(x.f.f); x = x.f.o
            if "try_into" in chain or "into" in chain:
                v = self.ev(e, sc)
                p = self.prim(ty)
                if isinstance(v, Num) and p and v.ty != p: self.err(e, "conversion by inference")
                return v
        return self.ev(e, sc)
    def self_name(self, n, sc):
        if n == "Self":
            s = sc.find("$cls"); return s.f["$cls"]
        return n
    def bind_this(self, s, fn, this):
        if this is not None: s.f["self"] = this
        if getattr(fn, "cls", None):
            c = fn.cls
            if c in self.traits and isinstance(this, Obj): c = this.cls
            s.f["$cls"] = c
    def bind_params(self, s, fn, args):
        for i, p in enumerate(fn.params):
            v = args[i]
            if isinstance(p[0], str): s.f[p[0]] = self.coerce(v, p[1], fn) if p[1] is not None else v
            else: self.pat_cond(p[0], v, fn, s)
    def run_body(self, fn, s): raise RetX(self.ev(fn.body, s))
    def ret_value(self, fn, r, s):
        ret = getattr(fn, "ret", None)
        return self.coerce(r, ret, fn) if ret is not None and r is not None else r
    def e_name(self, e, sc):
        s = sc.find(e.id)
        if s is not None:
            v = s.f[e.id]
            if v is UNINIT: self.err(e, "use of unassigned " + e.id)
            return v
        return self.global_name(e.id, e, sc)
    def global_name(self, name, e, sc):
        if name in self.globals_ast: return self.global_cell(name, e, sc).f[name]
        if name in self.funcs: return FnV(self.funcs[name])
        if name == "None": return NONE
        if name in PREL: return Opq("ctor", name)
        if name in self.structs or name in self.enums or name == "Self": return TypeV(("name", self.self_name(name, sc)))
        self.err(e, "unknown name " + name)
    def global_cell(self, name, e, sc):
        d = self.globals_ast[name]
        if name not in self.gscope.f:
            if name in self.genv_busy: self.err(e, "cyclic constant")
            self.genv_busy.add(name)
            self.gscope.f[name] = self.coerce(self.ev(d.init, self.gscope), d.ty, e)
            self.genv_busy.discard(name)
        return self.gscope
    def e_path(self, e, sc):
        path = [self.self_name(x, sc) for x in e.path]
        while path[0] in ("crate", "self", "super", "std", "core", "alloc") and len(path) > 1: path = path[1:]
        if len(path) == 1: return self.global_name(path[0], e, sc)
        t, n = path[-2], path[-1]
        if t in self.enums:
            if self.enums[t].has_payload:
                p = self.enums[t].payload
                if n in p: return Variant(n, [], t) if p[n] is None else Opq("ctor", n, t)
            elif n in self.enum_table(t): return EnumV(t, self.enum_table(t)[n])
        if (t, n) in self.assoc: d = self.assoc[(t, n)]; return self.coerce(self.ev(d.init, self.gscope), d.ty, e)
        if t in INTS and n in ("MAX", "MIN"): return Num(int_range(t)[0 if n == "MIN" else 1], t)
        if t in self.structs or t in self.enums or t in self.traits: return Opq("tmethod", t, n)
        if n in self.funcs and t not in ("String", "Vec"): return FnV(self.funcs[n])
        return Opq("pkg", t, n)
    # ---- places
    def e_un(self, e, sc):
        if e.op == "&":
            if getattr(e, "mut", False) and e.e.k in ("name", "mem", "idx"):
                loc = self.loc(e.e, sc); v = self.load(loc, e)
                if isinstance(v, (Num, Bool, Str, EnumV, Tup)): return Ref(loc)
                return v
            return self.ev(e.e, sc)
        if e.op == "*": return self.unref(self.ev(e.e, sc), e)
        if e.op == "~!":
            v = self.unref(self.ev(e.e, sc), e)
            if isinstance(v, Bool): return Bool(c_not(v.c))
            return Num(Lin(-1) - v.lin, v.ty) if v.ty[0] == "i" else Num(sym(("not", v.lin.key), 0, int_range(v.ty)[1]), v.ty)
        if e.op == "-":
            v = self.unref(self.ev(e.e, sc), e); return Num(v.lin.scale(-1), v.ty)
        return Model.e_un(self, e, sc)
    def l_un(self, e, sc):
        if e.op == "*":
            v = self.ev(e.e, sc)
            if isinstance(v, Ref): return v.loc
            if isinstance(v, Obj): return ("whole", v)
        self.err(e, "assignment target")
    def l_name(self, e, sc):
        s = sc.find(e.id)
        if s is None:
            if e.id == "_": return ("drop",)
            s = self.global_cell(e.id, e, sc)
        v = s.f.get(e.id)
        return ("cell", s.f, e.id)
    def l_path(self, e, sc): self.err(e, "assignment to a path")
    def l_mem(self, e, sc):
        o = self.unref(self.ev_place(e.o, sc), e)
        if isinstance(o, Obj): return ("cell", o.f, e.f)
        if isinstance(o, Tup): return ("tup", o, int(e.f))
        self.err(e, "field of %r" % (o,))
    def l_idx(self, e, sc):
        l = self.unref(self.ev_place(e.o, sc), e); i = self.ev(e.i, sc)
        if isinstance(l, ListV) and isinstance(i, Num): return ("elem", l, i.lin)
        self.err(e, "index into %r" % (l,))
    def l_call(self, e, sc): return ("val", self.ev(e, sc))
    def ev_place(self, e, sc):
        if e.k == "idx": return self.load(self.loc(e, sc), e)
        return self.ev(e, sc)
    def load(self, t, e):
        if t[0] == "tup": return t[1].els[t[2]]
        if t[0] == "whole": return t[1]
        return Model.load(self, t, e)
    def store(self, t, v, e):
        if t[0] == "whole":
            for k, x in v.f.items(): self.ctx.set(t[1].f, k, x)
            return
        if t[0] == "cell":
            old = t[1].get(t[2], KeyError)
            if isinstance(t[1].owner, Obj) and t[1].owner.cls in self.structs:
                ty = dict(self.structs[t[1].owner.cls].fields).get(t[2])
                if ty is None: self.err(e, "no field %s" % t[2])
                v = self.coerce(v, ty, e)
            elif isinstance(old, Num) and isinstance(v, Num) and v.ty in ("int", "float") and old.ty != v.ty: v = self.conv(v, old.ty)
            self.ctx.set(t[1], t[2], v); return
        return Model.store(self, t, v, e)
    def e_asg(self, e, sc):
        if e.op == "=" and e.l.k == "name" and e.l.id == "_": self.ev(e.r, sc); return UNIT
        Model.e_asg(self, e, sc); return UNIT
    def e_mem(self, e, sc):
        o = self.unref(self.ev_place(e.o, sc), e)
        if isinstance(o, Obj): return self.read_cell(o.f, e.f, e)
        if isinstance(o, Tup) and e.f.isdigit(): return o.els[int(e.f)]
        self.err(e, "field %s of %r" % (e.f, o))
    def e_idx(self, e, sc):
        l = self.unref(self.ev(e.o, sc), e); i = self.unref(self.ev(e.i, sc), e); ctx = self.ctx
        if isinstance(l, Bytes):
            if isinstance(i, Range):
                lo = Lin(0) if i.lo is None else self.num(i.lo); hi = l.ln if i.hi is None else self.num(i.hi) + (1 if i.incl else 0)
                ctx.count("bounds")
                if not (ctx.entails_ge(lo) and ctx.entails_ge(hi - lo) and ctx.entails_ge(l.ln - hi)): self.panic("slice %r..%r not proven inside %r bytes" % (lo, hi, l.ln))
                if l.src[0] == "buf": return Bytes(("buf", l.src[1], l.src[2] + lo), hi - lo)
                if l.src[0] == "lit" and lo.is_const() and hi.is_const(): return Bytes(("lit", l.src[1][lo.c:hi.c]), hi - lo)
                self.err(e, "slice of %r" % (l,))
            i = self.num(i); ctx.count("bounds")
            if not (ctx.entails_ge(i) and ctx.entails_ge(l.ln - i - 1)): self.panic("index %r not proven inside %r bytes" % (i, l.ln))
            if l.src[0] == "buf": return self.rd(l.src[2] + i, 1, "u")
            if l.src[0] == "lit" and i.is_const(): return Num(l.src[1][i.c], "u8")
        if isinstance(l, ListV):
            if isinstance(i, Range):
                lo = Lin(0) if i.lo is None else self.num(i.lo); hi = l.length() if i.hi is None else self.num(i.hi)
                if lo == Lin(0) and hi == l.length(): return l
                self.err(e, "slice of a list")
            return self.list_get(l, self.num(i), e)
        self.err(e, "index into %r" % (l,))
    # ---- calls
    def e_lam(self, e, sc):
        b = e.body
        return FnV(N("fn", e.line, name="closure", params=[(p[0] if isinstance(p, tuple) else p, None) for p in e.params], body=b, ret=None, cls=None), None, sc)
    def e_call(self, e, sc):
        f = e.f
        if f.k == "mem":
            o = self.unref(self.ev_place(f.o, sc), e) if f.f not in () else None
            if isinstance(o, Obj) and f.f in o.f and self.method(o.cls, f.f) is None: self.err(e, "call of a field")
            # methods changing a scalar in place are not part of the generated code
            return self.call_method(o, f.f, [self.ev(a, sc) for _, a in e.args], e, sc)
        c = self.ev(f, sc)
        args = [self.ev(a, sc) for _, a in e.args]
        return self.apply(c, args, e, sc)
    def apply(self, c, args, e, sc):
        if isinstance(c, FnV): return self.invoke(c.fn, args, c.this, c.env)
        if isinstance(c, Opq) and c.tag == "ctor": return Variant(c.a[0], args, c.a[1] if len(c.a) > 1 else None)
        if isinstance(c, Opq) and c.tag == "tmethod": return self.static_call(c.a[0], c.a[1], args, e, sc)
        if isinstance(c, Opq) and c.tag == "pkg": return self.pkg_call(c.a[0], c.a[1], args, e, sc)
        if isinstance(c, TypeV) and c.ty[1] in self.structs:
            d = self.structs[c.ty[1]]
            return Obj(self.ctx, c.ty[1], {n: self.coerce(v, t, e) for (n, t), v in zip(d.fields, args)}, "val")
        self.err(e, "call of %r" % (c,))
    def static_call(self, t, n, args, e, sc):
        if t in self.traits:
            if not args: self.err(e, "trait function without receiver")
            return self.call_method(self.unref(args[0], e), n, args[1:], e, sc)
        if n in ("try_from", "from") and args:
            a = self.unref(args[0], e)
            m = self.methods.get((t, n, a.ty)) if isinstance(a, Num) else None
            if m is not None: return self.invoke(m, args)
            if isinstance(a, Num) and a.ty != "int" and any(k[:2] == (t, n) and len(k) == 3 for k in self.methods): self.err(e, "no conversion of %s to %s" % (a.ty, t))
        m = self.method(t, n)
        if m is None:
            if n == "default" and (t in self.structs or t in self.enums): return self.default_value(("name", t), e)
            self.err(e, "no function %s::%s" % (t, n))
        if m.slf is not None: return self.invoke(m, args[1:], self.unref(args[0], e))
        return self.invoke(m, args)
    def le_bytes(self, v, e, kind="i"):
        w = WIDTH.get(v.ty)
        if w is None: self.err(e, "to_le_bytes of %r" % (v,))
        return Bytes((kind, w, "f" if v.ty[0] == "f" else "i", v.lin), w)
    def call_method(self, o, n, args, e, sc):
        ctx = self.ctx
        if isinstance(o, Obj):
            m = self.method(o.cls, n)
            if m is not None: return self.invoke(m, args, o)
            if n in ("borrow", "as_ref", "as_mut", "borrow_mut"): return o
            if n == "clone" and self.derives(self.structs[o.cls], "Clone"): return o
        if isinstance(o, AbsMsg): return self.abs_method(o, n, args, e)
        if isinstance(o, Variant):
            if o.enum in self.enums:
                m = self.method(o.enum, n)
                if m is not None: return self.invoke(m, args, o)
            return self.variant_method(o, n, args, e)
        if isinstance(o, EnumV):
            m = self.method(o.enum, n)
            if m is not None: return self.invoke(m, args, o)
            if n in ("clone", "to_owned"): return o
            if n == "into": self.err(e, "into")
        if isinstance(o, MsgV) and n in ("into", "clone"): return o
        if isinstance(o, Opq) and o.tag == "writer": return self.writer_method(n, args, e)
        if isinstance(o, Num):
            if n == "to_le_bytes": return self.le_bytes(o, e)
            if n == "to_be_bytes": return self.le_bytes(o, e, "be" if WIDTH[o.ty] > 1 else "i")
            if n == "to_ne_bytes": return self.le_bytes(o, e, "ne" if WIDTH[o.ty] > 1 else "i")
            if n == "to_bits": return o
            if n in ("to_le", "clone", "to_owned"): return o
            if n == "to_string": return Opq("text")
            if n in ("saturating_sub", "checked_sub", "wrapping_sub", "saturating_add", "checked_add", "wrapping_add", "saturating_mul", "checked_mul"):
                b = self.num(args[0], e); op = n.split("_")[1]; a = o.lin
                r = a + b if op == "add" else a - b if op == "sub" else Model.arith(self, "*", o, self.unref(args[0], e), e).lin
                lo, hi = int_range(o.ty); mode = n.split("_")[0]
                if mode == "wrapping": return self.conv(Num(r, "int"), o.ty)
                if not ctx.entails_ge(r - lo) and not ctx.branch(c_ge(r - lo)): return Num(lo, o.ty) if mode == "saturating" else NONE
                if not (ctx.bounds(r)[1] <= hi or ctx.entails_ge(r.scale(-1) + hi)) and ctx.bounds(r)[1] != INF and not ctx.branch(c_ge(r.scale(-1) + hi)): return Num(hi, o.ty) if mode == "saturating" else NONE
                return Num(r, o.ty) if mode == "saturating" else some(Num(r, o.ty))
            if n in ("min", "max"):
                b = self.num(args[0], e)
                return Num(o.lin if ctx.branch(c_ge(b - o.lin if n == "min" else o.lin - b)) else b, o.ty)
            if n in ("into", "try_into"): return ok(o) if n == "try_into" else o
            if n in ("eq", "ne"): return Bool(self.equal(o, args[0], e) if n == "eq" else c_not(self.equal(o, args[0], e)))
        if isinstance(o, Bool):
            if n == "clone": return o
            if n == "then" : pass
        if isinstance(o, Str):
            if n == "len": return Num(self.str_ulen(o), "usize")
            if n in ("as_bytes", "into_bytes"): return Bytes(("utf8", o), self.str_ulen(o))
            if n in ("as_str", "to_string", "to_owned", "clone", "into", "as_ref", "into_boxed_str", "borrow"): return o
            if n == "is_empty": return Bool(c_eq(self.str_ulen(o)))
            if n in ("chars", "char_indices"): return Opq("chars", o)
            if n in ("bytes",): return Bytes(("utf8", o), self.str_ulen(o))
            t = self.text_op(o, n, args)
            if t is not None: return t
        if isinstance(o, Opq) and o.tag == "chars" and n == "count": return Num(self.str_clen(o.a[0]), "usize")
        if isinstance(o, Bytes):
            if n == "len": return Num(o.ln, "usize")
            if n in ("to_vec", "to_owned", "clone", "as_ref", "as_slice", "into_iter", "iter", "copied", "cloned", "into_boxed_slice", "into"): return o
            if n == "try_into": return ok(o)
            if n == "is_empty": return Bool(c_eq(o.ln))
            if n == "get":
                i = self.unref(args[0], e)
                if isinstance(i, Range):
                    lo = Lin(0) if i.lo is None else self.num(i.lo); hi = o.ln if i.hi is None else self.num(i.hi) + (1 if i.incl else 0)
                    if not ctx.branch(c_ge(hi - lo)) or not ctx.branch(c_ge(o.ln - hi)): return NONE
                    return some(Bytes(("buf", o.src[1], o.src[2] + lo), hi - lo))
                if not ctx.branch(c_ge(o.ln - self.num(i) - 1)): return NONE
                return some(self.rd(o.src[2] + self.num(i), 1, "u"))
            if n in ("starts_with",) and o.src[0] == "buf":
                b = args[0]
                if isinstance(b, Bytes) and b.src[0] == "lit":
                    c = c_ge(o.ln - b.ln)
                    for i, x in enumerate(b.src[1]): c = c_and(c, c_eq(self.rd(o.src[2] + i, 1, "u").lin - x))
                    return Bool(c)
        if isinstance(o, ListV):
            if n == "len": return Num(o.length(), "usize")
            if n == "is_empty": return Bool(c_eq(o.length()))
            if n == "push": self.list_push(o, args[0]); return UNIT
            if n in ("iter", "iter_mut", "into_iter"): return It(o)
            if n in ("as_slice", "as_ref", "clone", "to_vec", "as_mut", "into_boxed_slice"): return o
            if n in ("reserve", "reserve_exact", "shrink_to_fit"): return UNIT
            if n == "clear": ctx.set(o.f, "segs", ()); return UNIT
            if n in ("extend", "append", "extend_from_slice"):
                a = args[0]
                if isinstance(a, Bytes): a = self.bytes_list(a, e)
                if isinstance(a, It): a = a.l
                if isinstance(a, ListV): self.list_concat(o, a); return UNIT
            if n in ("copy_from_slice", "clone_from_slice"):
                a = args[0]; ln = a.ln if isinstance(a, Bytes) else a.length() if isinstance(a, ListV) else self.err(e, "copy from %r" % (a,))
                if ctx.decide(c_eq(o.length() - ln)) is not True and not ctx.branch(c_eq(o.length() - ln)): self.panic("copy_from_slice with another length")
                if isinstance(a, Bytes): a = self.bytes_list(a, e)
                ctx.set(o.f, "segs", a.segs); return UNIT
            if n == "get":
                i = self.num(args[0])
                if not ctx.branch(c_ge(o.length() - i - 1)): return NONE
                return some(self.list_get(o, i, e))
        if isinstance(o, It):
            if n == "enumerate": return It(o.l, True)
            if n in ("by_ref", "cloned", "copied", "iter", "into_iter"): return o
            if n == "map" and isinstance(args[0], FnV): return Opq("map", o, args[0])
            if n == "for_each": return self.each(o, args[0], e, sc)
            if n in ("count", "len"): return Num(o.l.length(), "usize")
            if n == "fold": return self.fold(o, args[0], lambda acc, x: self.invoke(args[1].fn, [acc, x], args[1].this, args[1].env), e, sc)
        if isinstance(o, Opq) and o.tag == "map" and n == "sum":
            it, f = o.a
            return self.fold(it, Num(0, "usize"), lambda acc, x: self.arith("+", acc, self.unref(self.invoke(f.fn, [x], f.this, f.env), e), e), e, sc)
        if isinstance(o, Opq) and o.tag == "map" and n == "for_each": self.err(e, "for_each over map")
        if isinstance(o, Opq) and o.tag == "text": return o if n in ("clone", "to_string", "into") else self.err(e, "text method " + n)
        if isinstance(o, Range):
            if n in ("into_iter", "iter"): return o
            if n == "contains": return Bool(c_and(c_ge(self.num(args[0]) - self.num(o.lo)), c_ge(self.num(o.hi) - self.num(args[0]) - (0 if o.incl else 1))))
            if n == "for_each":
                lo, hi = self.num(o.lo), self.num(o.hi) + (1 if o.incl else 0); f = args[0]
                N_ = hi - lo
                if self.ctx.bounds(N_)[0] < 0 and not self.ctx.entails_ge(N_) and not self.ctx.branch(c_ge(N_)): return self.negative_count(e, N_)
                self.foreach(e, sc, N_, lambda s, ix: self.declare(s, "$x", Num(lo + ix, o.hi.ty)), lambda s: self.invoke(f.fn, [s.f["$x"]], f.this, f.env)); return UNIT
        self.err(e, "method %s of %r" % (n, o))
    def each(self, it, f, e, sc):
        def bind(s, ix): s.f["$x"] = self.list_get(it.l, ix, e)
        self.foreach(e, sc, it.l.length(), bind, lambda s: self.invoke(f.fn, [s.f["$x"]], f.this, f.env)); return UNIT
    def fold(self, it, init, f, e, sc):
        s0 = Scope(self.ctx, sc); s0.f["$acc"] = init
        def bind(s, ix): s.f["$x"] = self.list_get(it.l, ix, e)
        def body(s): self.ctx.set(s0.f, "$acc", f(s0.f["$acc"], s.f["$x"]))
        self.foreach(e, s0, it.l.length(), bind, body)
        return s0.f["$acc"]
    def variant_method(self, o, n, args, e):
        good = o.tag in ("Ok", "Some")
        if n in ("unwrap", "expect"):
            if good: return o.args[0]
            self.panic("%s on %s" % (n, o.tag))
        if n in ("is_ok", "is_some"): return self.mk_bool(good)
        if n in ("is_err", "is_none"): return self.mk_bool(not good)
        if n in ("map_err",):
            return o if good else er(self.call_fn(args[0], [o.args[0]], e))
        if n in ("ok",): return some(o.args[0]) if good else NONE
        if n == "err": return NONE if good else some(o.args[0])
        if n == "ok_or": return ok(o.args[0]) if good else er(args[0])
        if n == "ok_or_else": return ok(o.args[0]) if good else er(self.call_fn(args[0], [], e))
        if n == "map": return Variant(o.tag, [self.call_fn(args[0], [o.args[0]], e)], o.enum) if good else o
        if n == "and_then": return self.call_fn(args[0], [o.args[0]], e) if good else o
        if n == "map_or": return self.call_fn(args[1], [o.args[0]], e) if good else args[0]
        if n == "map_or_else": return self.call_fn(args[1], [o.args[0]], e) if good else self.call_fn(args[0], o.args[:1] if o.tag == "Err" else [], e)
        if n in ("is_some_and", "is_ok_and"): return self.call_fn(args[0], [o.args[0]], e) if good else self.mk_bool(False)
        if n == "filter": return o if good and self.ctx.branch(self.truth(self.call_fn(args[0], [o.args[0]], e), e)) else NONE
        if n == "or" : return o if good else args[0]
        if n == "or_else": return o if good else self.call_fn(args[0], o.args[:1] if o.tag == "Err" else [], e)
        if n == "unwrap_or": return o.args[0] if good else args[0]
        if n == "unwrap_or_else": return o.args[0] if good else self.call_fn(args[0], o.args[:1] if o.tag == "Err" else [], e)
        if n in ("as_ref", "as_mut", "copied", "cloned"): return o
        self.err(e, "method %s of %r" % (n, o))
    def call_fn(self, f, args, e): return self.apply(f, args, e, self.gscope)
    # ---- output
    def put(self, width, kind, lin):
        out = self.io["out"].lin
        self.emit(out, width, kind, lin)
        self.ctx.set(self.io, "out", Num(out + width))
    def put_bytes(self, b, e):
        b = self.unref(b, e)
        if isinstance(b, It): b = b.l
        if isinstance(b, Bytes):
            k = b.src[0]
            if k in ("i", "be", "ne"): return self.put(b.src[1], b.src[2] if k == "i" else k, b.src[3])
            if k == "lit":
                for x in b.src[1]: self.put(1, "i", Lin(x))
                return
            if k == "utf8":
                out = self.io["out"].lin; self.emit_text(out, b.src[1])
                self.ctx.set(self.io, "out", Num(out + self.str_ulen(b.src[1]))); return
        if isinstance(b, ListV):
            if all(s[0] == "one" for s in b.segs):
                for s in b.segs: self.put(1, "i", self.num(s[1]))
                return
            def bind(s, ix): s.f["$x"] = self.list_get(b, ix, e)
            return self.foreach(e, self.gscope, b.length(), bind, lambda s: self.put(1, "i", self.num(s.f["$x"])))
        self.err(e, "bytes %r" % (b,))
    def writer_method(self, n, args, e):
        if n == "push":
            v = self.unref(args[0], e)
            self.put(1, "i", self.num(v, e)); return UNIT
        if n in ("extend", "extend_from_slice", "write_all"): self.put_bytes(args[0], e); return ok(UNIT) if n == "write_all" else UNIT
        if n == "append": self.put_bytes(args[0], e); return UNIT
        if n in ("reserve", "reserve_exact"): return UNIT
        if n == "len": return Num(self.io["out"].lin, "usize")
        self.err(e, "writer method " + n)
    # ---- library
    def pkg_call(self, t, n, args, e, sc):
        ctx = self.ctx
        args = [self.unref(a, e) for a in args]
        if n in ("from_le_bytes", "from_be_bytes", "from_ne_bytes") and t in WIDTH:
            b = args[0]; w = WIDTH[t]
            if isinstance(b, ListV) and len(b.segs) == 1 and b.segs[0][0] == "bulk" and b.segs[0][3] == 1: b = Bytes(("buf", None, b.segs[0][2]), b.segs[0][1])
            if isinstance(b, ListV) and all(s[0] == "one" for s in b.segs) and len(b.segs) == w: 
                r = Lin(0)
                for i, s in enumerate(b.segs if n == "from_le_bytes" else b.segs[::-1]): r = r + self.num(s[1]).scale(1 << (8 * i))
                o = b.segs[0][1].lin.one()
                if o and o[0].key[0] == "rd" and o[1:] == (1, 0):
                    off = Lin(o[0].key[1][0], dict(o[0].key[1][1]))
                    if all(s[1].lin == self.rd(off + i, 1, "u").lin for i, s in enumerate(b.segs)): b = Bytes(("buf", None, off), w)
            if isinstance(b, Bytes) and b.src[0] == "buf":
                if ctx.decide(c_eq(b.ln - w)) is not True: self.panic("%d bytes expected, %r taken" % (w, b.ln))
                if n != "from_le_bytes" and w > 1: return Num(sym(("bigendian", b.src[2].key, t), *((-INF, INF) if t[0] == "f" else int_range(t))), t)
                k = "f" if t[0] == "f" else "u" if t[0] == "u" else "s"
                return Num(self.rd(b.src[2], w, k).lin, t)
            self.err(e, "%s of %r" % (n, b))
        if t == "String" or t == "str":
            if n in ("from_utf8", "from_utf8_lossy", "from_utf8_unchecked"):
                b = args[0]
                if isinstance(b, Bytes) and b.src[0] == "buf":
                    s = Str("rd", None, b.src[2], b.ln)
                    if n == "from_utf8_unchecked": self.note("C09", "text is used without being validated"); return s
                    if n == "from_utf8_lossy": return s
                    if ctx.choose(2) == 0: return ok(s)
                    ctx.flags["badtext"] = True
                    return er(Opq("utf8error"))
                self.err(e, "text from %r" % (b,))
            if n == "new": return Str("lit", "")
            if n in ("from", "with_capacity"): return args[0] if n == "from" else Str("lit", "")
        if t == "Vec":
            if n == "new": return self.mklist(())
            if n == "with_capacity":
                k = self.num(args[0], e)
                if ctx.bounds(k)[1] > (1 << 59): self.panic("capacity %r may overflow" % k)
                return self.mklist(())
            if n == "from": return args[0]
        if t in ("Box", "Rc", "Arc") and n in ("new", "leak", "from"): return args[0]
        if t in INTS and n in ("from", "try_from"):
            a = args[0]
            if n == "from": return self.conv(a, t) if isinstance(a, (Num, Bool)) else Num(self.num(a), t)
            lo, hi = int_range(t); l = self.num(a)
            if not (ctx.bounds(l)[0] >= lo) and not ctx.branch(c_ge(l - lo)): return er(Opq("range"))
            if not (ctx.bounds(l)[1] <= hi) and not ctx.branch(c_ge(l.scale(-1) + hi)): return er(Opq("range"))
            return ok(Num(l, t))
        if t in ("f32", "f64") and n == "from_bits": return args[0]
        if t == "mem" and n == "size_of": self.err(e, "size_of")
        if t in ("cmp",) and n in ("min", "max"): return self.call_method(args[0], n, args[1:], e, sc)
        if t == "Default" and n == "default": self.err(e, "default by inference")
        self.err(e, "library call %s::%s" % (t, n))
    # ---- messages of unknown type
    def abs_method(self, m, n, args, e):
        if m.known is None:
            f = self.method("Message", n)
            if f is None: self.err(e, "method %s of Message" % n)
            return self.invoke(f, args, m)
        k = norm(n)
        if k == "getsizeinbytes": return Num(m.size(), "usize")
        if k == "writebytes":
            t = args[1]; out = self.io["out"].lin
            tag = self.ctx.decide(t.c) if isinstance(t, Bool) else None
            self.ctx.events.append(("msg", out, m.path, tag, m.size()))
            self.ctx.set(self.io, "out", Num(out + m.size() + (1 if tag else 0)))
            return UNIT
        self.err(e, "method %s of a message" % n)
    # ---- tasks
    def start(self, ctx):
        Interp.start(self, ctx); self.io = Cells(ctx, {"out": Num(W0)})
        self.strict = False
    def guard(self, f):
        try: return f()
        except PathEnd as p:
            if p.why == "panic": return ("err", "panic: " + str(p.detail), str(p.detail))
            raise
    def reader(self):
        d = self.structs.get("BufferReader")
        if d is None: raise AnalysisError("rust: no BufferReader")
        self.buf = Buf("input", LEN)
        r = self.invoke(self.method("BufferReader", "new"), [Bytes(("buf", self.buf, Lin(0)), LEN)])
        p = next((n for n, t in d.fields if t == ("name", "usize")), None)
        if p is None: raise AnalysisError("rust: BufferReader keeps no position")
        self.posf = p
        r.f[p] = Num(P0, "usize"); self.strict = True
        return r
    def at(self, r): return r.f[self.posf].lin
    def outcome(self, r, v, text=""):
        if not isinstance(v, Variant) or v.tag not in ("Ok", "Err"): raise AnalysisError("rust: Result expected, got %r" % (v,))
        if v.tag == "Err": return ("err", "clean", repr(v.args[0]))
        return ("ok", v.args[0])
    def run_reader(self, ctx, T):
        m = self.method(self.type_name(T), "from_bytes")
        if m is None: raise AnalysisError("rust: no reader of " + T)
        def go():
            r = self.reader()
            o = self.outcome(r, self.invoke(m, [r]))
            return o if o[0] == "err" else ("ok", o[1], self.at(r))
        return self.guard(go)
    def run_writer(self, ctx, T, tagged):
        m = self.method(self.type_name(T), "write_bytes")
        def go():
            self.invoke(m, [Opq("writer"), Bool(T_ if tagged else F_)][:len(m.params)], self.in_value(("struct", T), (T,)))
            return ("ok", self.io["out"].lin)
        return self.guard(go)
    def run_size(self, ctx, T):
        m = self.method(self.type_name(T), "get_size_in_bytes")
        return self.guard(lambda: ("ok", self.num(self.invoke(m, [], self.in_value(("struct", T), (T,))))))
    def reader_of(self, fn):
        if not hasattr(self, "_rd"): self._rd = {id(self.method(self.type_name(T), "from_bytes")): T for T in self.schema.messages}
        return self._rd.get(id(fn))
    def err_enum(self):
        for (c, n), m in ((k, m) for k, m in self.methods.items() if len(k) == 2):
            if n == "from_bytes" and m.ret is not None and m.ret[0] == "gen" and len(m.ret[2]) == 2 and tname(m.ret[2][1]) in self.enums: return tname(m.ret[2][1])
        raise AnalysisError("rust: no error type")
    def reader_errors(self):
        """error values that code reached by the message readers can produce"""
        if not hasattr(self, "_re"):
            en = self.err_enum(); out = set()
            def walk(x):
                if isinstance(x, N):
                    if x.k == "path" and len(x.path) >= 2 and x.path[-2] == en: out.add(x.path[-1])
                    for v in vars(x).values(): walk(v)
                elif isinstance(x, (list, tuple)):
                    for v in x: walk(v)
                elif isinstance(x, dict):
                    for v in x.values(): walk(v)
            for k, m in self.methods.items():
                if k[0] == "Message" or m.body is None: continue
                if k[0] == "BufferReader" or k[1] in ("from_bytes", "try_from", "from"): walk(m.body)
            for n, f in self.funcs.items():
                if norm(n) not in ("processrawbytes", "unpackmessages", "packmessages", "getpackedsize") and f.body is not None: walk(f.body)
            tab = self.enum_table(en)
            self._re = IntSet.of(sorted(tab[x] for x in out if x in tab)) if out else IntSet.of(list(tab.values()))
        return self._re
    def summary_call(self, T, fn, args, this):
        r = self.unref(args[0], None); pos = self.at(r)
        okk, end = self.read_summary(T, pos)
        if not okk:
            s = sym(("readerror", T, pos.key), 0, 1 << 16, self.reader_errors())
            return er(EnumV(self.err_enum(), Lin.of(s)))
        self.ctx.set(r.f, self.posf, Num(end, "usize"))
        return ok(MsgV(T, pos))
    def message_of(self, v):
        if isinstance(v, Variant) and v.enum == "Message" and len(v.args) == 1 and isinstance(v.args[0], MsgV):
            p = self.enums["Message"].payload.get(v.tag)
            if p and norm(tname(p[0])) == norm(v.args[0].T) and norm(v.tag) == norm(v.args[0].T): return v.args[0]
        return v
    def run_process(self, ctx, mx):
        return self.guard(lambda: self.outcome(None, self.invoke(self.fn("process_raw_bytes"), [self.reader(), Num(mx, "i32")])))
    def run_unpack(self, ctx):
        return self.guard(lambda: self.outcome(None, self.invoke(self.fn("unpack_messages"), [self.reader()])))
    def msgs(self, ctx):
        N_, mk = msg_list(self, ctx)
        return self.mklist((("in", ("msgs",), N_, mk),))
    def run_pack(self, ctx):
        def go():
            self.invoke(self.fn("pack_messages"), [self.msgs(ctx), Opq("writer")]); return ("ok", self.io["out"].lin)
        return self.guard(go)
    def run_packed_size(self, ctx): return self.guard(lambda: ("ok", self.num(self.invoke(self.fn("get_packed_size"), [self.msgs(ctx)]))))
    def run_type(self, ctx, T):
        m = self.method(self.type_name(T), "get_message_type")
        o = self.in_value(("struct", T), (T,))
        a = self.num(self.invoke(m, [], o))
        w = next(v for v in self.enums["Message"].payload if norm(v) == norm(T))
        b = self.num(self.invoke(self.method("Message", "get_message_type"), [], Variant(w, [o], "Message")))
        return ("ok", a + 1 if a == b else b + 1)
    def type_constants(self):
        self.start(Ctx())
        return {norm(n): v + 1 for n, v in self.enum_table("MessageType").items()}
    # ---- declarations
    def fields(self, T): return [(n, ty) for n, ty in self.structs[self.type_name(T)].fields]
    def name_ok(self, declared, got):
        if not self.rename: return declared == got
        return re.fullmatch(r"(r#)?[a-z0-9_]+", got) is not None and (declared != declared.lower() or got.replace("r#", "") in (declared, declared + "_"))
    def type_ok(self, ty, k):
        if k[0] == "list": return ty[0] == "gen" and ty[1] == "Vec" and self.type_ok(ty[2][0], k[1])
        if ty[0] != "name": return False
        if k[0] == "str": return ty[1] == "String"
        if k[0] == "num": return ty[1] == "bool" if k[1] == "bool" else ty[1] == self.native(k[1])
        if k[0] == "enum": return ty[1] in self.enums and norm(ty[1]) == norm(k[1])
        return ty[1] in self.structs and norm(ty[1]) == norm(k[1])
    def enum_decl(self, e):
        en = next((n for n in self.enums if norm(n) == norm(e)), None)
        if en is None: return None, None
        self.start(Ctx())
        return list(self.enum_table(en).items()), self.storage_of(en)
    def in_enum_value(self, e, s): return EnumV(next(n for n in self.enums if norm(n) == norm(e)), Lin.of(s))
    def run_default(self, ctx, T, how):
        return self.guard(lambda: ("ok", self.default_value(("name", self.type_name(T)), None)))
T_, F_ = T, F
def build(src, schema): return Rust(parse_rust.parse(src), schema)
