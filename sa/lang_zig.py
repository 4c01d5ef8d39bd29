"""Zig: abstract semantics of the generated file, comptime included (types are values; std.mem, std.math, std.meta and ArrayList modelled)."""
from .model import *
from .mem import MemMixin
from . import parse_zig

ZNUM = set(INTS) | {"f32", "f64"}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "usize": 8, "isize": 8, "bool": 1}
VOID = Tup([])
def ty_name(n): return TypeV(("name", n))
class Zig(MemMixin, Model):
    lang = "zig"; partial = True
    def index(self, decls, prefix=""):
        self.structs_all = []; self.methods = {}; self.conts = {}
        for d in decls:
            if d.k == "fn": self.funcs.setdefault(d.name, d)
            elif d.k == "var":
                if d.init is not None and d.init.k == "container":
                    c = d.init; self.conts.setdefault(d.name, c)
                    if c.kind == "struct": self.structs_all.append(d.name); self.structs.setdefault(d.name, c)
                    elif c.kind == "enum": self.enums.setdefault(d.name, c)
                    for m in c.decls:
                        if m.k == "fn": m.cls = d.name; self.methods.setdefault((d.name, m.name), m)
                else: self.globals_ast.setdefault(d.name, d)
    # ---- names
    def type_name(self, T):
        for n in self.structs:
            if norm(n) == norm(T): return n
        raise AnalysisError("zig: no struct for " + T)
    def fn(self, name):
        for n, d in self.funcs.items():
            if norm(n) == norm(name): return d
        raise AnalysisError("zig: no function " + name)
    def field_name(self, T, m):
        for n, ty in self.structs[self.type_name(T)].fields:
            if norm(n) == norm(m): return n
        raise AnalysisError("zig: no field %s.%s" % (T, m))
    def new_obj(self, T): return Obj(self.ctx, self.type_name(T), {}, "val")
    # ---- types
    def typ(self, e, sc):
        if e is None: return None
        if e.k == "name" and (sc is None or sc.find(e.id) is None):
            if e.id in ZNUM or e.id in self.conts or e.id in ("bool", "void", "type", "anytype", "anyerror", "comptime_int", "noreturn"): return ("name", e.id)
        if e.k == "container": return ("anon", e, sc)
        v = self.ev(e, sc)
        if isinstance(v, TypeV): return v.ty
        if isinstance(v, Opq): return ("lib",) + v.a[:1]
        self.err(e, "type expected, got %r" % (v,))
    def e_slicetype(self, e, sc): return TypeV(("slice", self.typ(e.e, sc)))
    def e_arrtype(self, e, sc): return TypeV(("arr", None if e.n is None else self.num(self.ev(e.n, sc)).key, self.typ(e.e, sc)))
    def e_ptrtype(self, e, sc): return TypeV(("ptr", self.typ(e.e, sc)))
    def e_opttype(self, e, sc): return TypeV(("opt", self.typ(e.e, sc)))
    def e_errunion(self, e, sc): return TypeV(("eu", self.typ(e.e, sc)))
    def e_container(self, e, sc): return TypeV(("anon", e, sc))
    def storage_of(self, en):
        t = self.conts[en].tag
        return self.typ(t, self.gscope)[1] if t is not None else "u8"
    def sizeof(self, ty, e):
        if ty[0] == "name":
            if ty[1] in WIDTH: return WIDTH[ty[1]]
            if ty[1] in self.enums: return WIDTH[self.storage_of(ty[1])]
        self.err(e, "size of %r" % (ty,))
    def enum_table(self, en):
        memo = self.__dict__.setdefault("_et", {})
        if en not in memo:
            tab = {}; prev = -1; c = self.conts[en]
            for n, _ in c.fields:
                x = c.inits.get(n)
                prev = prev + 1 if x is None else self.num(self.ev(x, self.gscope)).c
                tab[n] = prev
            memo[en] = tab
        return memo[en]
    def coerce(self, v, ty, n):
        while ty is not None and ty[0] in ("opt", "eu"): ty = ty[1]
        if ty is None: return v
        if isinstance(v, Num) and ty[0] == "name" and ty[1] in ZNUM:
            if v.ty != ty[1]: return Num(v.lin, ty[1]) if v.lin.is_const() and isinstance(v.lin.c, float) else self.conv(v, ty[1])
        if isinstance(v, Opq) and v.tag == "dot" and ty[0] == "name" and ty[1] in self.enums: return self.enum_val(ty[1], v.a[0], n)
        return v
    def enum_val(self, en, name, e):
        t = self.enum_table(en)
        if name not in t: self.err(e, "no enumerator %s.%s" % (en, name))
        return EnumV(en, t[name])
    def copyval(self, v):
        if isinstance(v, Obj) and v.kind == "val": return Obj(self.ctx, v.cls, {k: self.copyval(x) for k, x in v.f.items()}, "val")
        return v
    # ---- arithmetic traps
    def panic(self, why): raise PathEnd("panic", why)
    def index_oob(self, l, i, e): self.panic("index %r not proven inside a list of %r elements" % (i, l.length()))
    def arith(self, op, a, b, e):
        wrap = op.endswith("%") and op != "%"
        if wrap: op = op[:-1]
        if op == "++" and isinstance(a, (Str, Opq)): return Opq("text")
        r = Model.arith(self, op, a, b, e)
        if isinstance(r, Num) and r.ty in INTS and op in ("+", "-", "*"):
            if wrap: return self.conv(Num(r.lin, "int"), r.ty)
            lo, hi = int_range(r.ty); ctx = self.ctx; x, y = ctx.bounds(r.lin)
            if op == "-" and lo == 0 and x < 0 and not ctx.entails_ge(r.lin) and not ctx.branch(c_ge(r.lin)): self.panic("subtraction below zero")
            if INTS[r.ty][0] < 64:
                if y > hi and not ctx.entails_ge(r.lin.scale(-1) + hi) and not ctx.branch(c_ge(r.lin.scale(-1) + hi)): self.panic("arithmetic overflow in %s" % r.ty)
                if lo < 0 and x < lo and not ctx.entails_ge(r.lin - lo) and not ctx.branch(c_ge(r.lin - lo)): self.panic("arithmetic overflow in %s" % r.ty)
            elif self.strict and y != INF and y > hi and not ctx.entails_ge(r.lin.scale(-1) + hi): self.panic("arithmetic overflow in %s" % r.ty)
        return r
    strict = False
    # ---- blocks and defers
    def e_zblock(self, e, sc):
        s2 = Scope(self.ctx, sc); s2.defers = []
        try:
            for s in e.body: self.stmt(s, s2)
        except RetX as r: self.unwind(s2, isinstance(r.v, ErrV)); raise
        except BrkX as x:
            self.unwind(s2, False)
            if e.label is not None and x.label == e.label: return VOID if x.v is None else x.v
            raise
        except ContX: self.unwind(s2, False); raise
        self.unwind(s2, False)
        return VOID
    def unwind(self, s2, err):
        while s2.defers:
            n = s2.defers.pop()
            if n.err and (not err or not self.mem_fails): continue
            self.in_defer = getattr(self, "in_defer", 0) + 1
            try: self.ev(n.body, s2)
            finally: self.in_defer -= 1
    def fnscope(self, sc):
        while sc.defers is None: sc = sc.parent
        return sc
    def s_defer(self, n, sc): self.fnscope(sc).defers.append(n)
    def run_block(self, n, sc):
        if n is not None: self.ev(n, sc)
    def run_body(self, fn, s):
        self.ev(fn.body, s); raise RetX(VOID)
    def run_defers(self, s, err=False): pass
    def s_var(self, n, sc):
        if n.init.k == "lit" and n.init.t == "undef":
            ty = self.typ(n.ty, sc)
            if ty is not None and ty[0] == "arr": l = self.mklist((("fill", Lin(ty[1][0], dict(ty[1][1])), UNINIT),), ty); return self.declare(sc, n.name, l)
            return self.declare(sc, n.name, UNINIT)
        ty = None if n.ty is None else self.typ(n.ty, sc)
        v = self.evt(n.init, ty, sc)
        if isinstance(v, ErrV) and ty is None: pass
        self.declare(sc, n.name, self.copyval(self.coerce(v, ty, n)))
    def mklist(self, segs, ty=None):
        l = ListV(self.ctx, segs); l.ty = ty; return l
    # ---- typed evaluation: ty is the type the context asks for
    def evt(self, e, ty, sc):
        while ty is not None and ty[0] in ("eu", "opt"): ty = ty[1]
        if ty is None: return self.ev(e, sc)
        k = e.k
        if k == "builtin": return self.builtin(e, ty, sc)
        if k == "dotlit":
            if ty[0] == "name" and ty[1] in self.enums: return self.enum_val(ty[1], e.id, e)
            return Opq("dot", e.id)
        if k == "slit" and e.ty is None: return self.struct_lit(e, ty, sc)
        if k == "alit" and e.ty is None: return self.mklist(tuple(("one", self.evt(x, ty[-1] if ty[0] in ("arr", "slice") else None, sc)) for x in e.elems), ty)
        if k == "un" and e.op == "&" and e.e.k in ("slit", "alit") and e.e.ty is None: return self.evt(e.e, ty, sc)
        if k == "zswitch": return self.e_zswitch(e, sc, ty)
        if k == "zif": return self.e_zif(e, sc, ty)
        if k == "zcatch": return self.e_zcatch(e, sc, ty)
        if k == "zorelse": return self.e_zorelse(e, sc, ty)
        if k == "try": return self.e_try(e, sc, ty)
        if k == "zblock":
            want = self.__dict__.setdefault("lblt", {})
            if e.label: want.setdefault(e.label, []).append(ty)
            try: return self.coerce(self.ev(e, sc), ty, e)
            finally:
                if e.label: want[e.label].pop()
        return self.coerce(self.ev(e, sc), ty, e)
    def struct_lit(self, e, ty, sc):
        if ty[0] in ("slice", "arr", "ptr") and not e.fields: return self.mklist((), ty)
        if ty[0] == "anon":
            c, csc = ty[1], ty[2]; ft = dict(c.fields); o = Obj(self.ctx, "$anon", {}, "val")
            for k, x in e.fields:
                t = self.typ(ft[k], csc) if k in ft else self.err(e, "field " + k)
                o.f[k] = self.copyval(self.coerce(self.evt(x, t, sc), t, e))
            return o
        if ty[0] == "name":
            n = ty[1]; c = self.conts.get(n)
            if c is not None and c.kind == "union":
                (k, x), = e.fields; t = self.typ(dict(c.fields)[k], self.gscope)
                return Variant(k, [self.copyval(self.evt(x, t, sc))], n)
            if c is not None and c.kind == "struct":
                o = Obj(self.ctx, n, {}, "val"); given = dict(e.fields)
                for k, x in e.fields:
                    if k not in dict(c.fields): self.err(e, "no field %s.%s" % (n, k))
                for k, te in c.fields:
                    t = self.typ(te, self.gscope)
                    if k in given: v = self.evt(given[k], t, sc)
                    elif c.inits.get(k) is not None: v = self.evt(c.inits[k], t, self.gscope)
                    else: self.err(e, "field %s not given" % k)
                    o.f[k] = self.copyval(self.coerce(v, t, e))
                return o
        self.err(e, "literal of %r" % (ty,))
    def e_slit(self, e, sc):
        if e.ty is None:
            if not e.fields: return self.mklist((), None)
            o = Obj(self.ctx, "$anon", {}, "val")
            for k, x in e.fields: o.f[k] = self.copyval(self.ev(x, sc))
            return o
        return self.struct_lit(e, self.typ(e.ty, sc), sc)
    def e_alit(self, e, sc):
        ty = None if e.ty is None else self.typ(e.ty, sc)
        el = ty[-1] if ty is not None else None
        if el == ("name", "type"):
            memo = self.__dict__.setdefault("_tl", {})
            if id(e) not in memo: memo[id(e)] = tuple(("one", TypeV(self.typ(x, sc))) for x in e.elems)
            return self.mklist(memo[id(e)], ty)
        return self.mklist(tuple(("one", self.evt(x, el, sc)) for x in e.elems), ty)
    # ---- names
    def e_name(self, e, sc):
        if e.id == "_": self.err(e, "_")
        s = sc.find(e.id)
        if s is not None:
            v = s.f[e.id]
            if v is UNINIT: self.err(e, "use of undefined " + e.id)
            return v
        return self.global_name(e.id, e, sc)
    def global_name(self, n, e, sc):
        if n in self.conts or n in ZNUM or n in ("bool", "void", "type", "anyerror", "comptime_int"): return ty_name(n)
        if n in self.funcs: return FnV(self.funcs[n])
        if n in self.globals_ast: return self.global_cell(n, e, sc).f[n]
        self.err(e, "unknown name " + n)
    def global_cell(self, n, e, sc):
        if n not in self.gscope.f:
            if n in self.genv_busy: self.err(e, "cyclic constant")
            self.genv_busy.add(n); d = self.globals_ast[n]
            ty = None if d.ty is None else self.typ(d.ty, self.gscope)
            self.gscope.f[n] = self.coerce(self.evt(d.init, ty, self.gscope), ty, e)
            self.genv_busy.discard(n)
        return self.gscope
    def e_errset(self, e, sc): return Opq("errset", tuple(e.names))
    def e_errval(self, e, sc): return ErrV(e.id)
    def e_dotlit(self, e, sc): return Opq("dot", e.id)
    def e_unreach(self, e, sc): self.panic("unreachable")
    def e_lit(self, e, sc):
        if e.t == "undef": return UNINIT
        return Model.e_lit(self, e, sc)
    # ---- members
    def e_mem(self, e, sc):
        o = self.ev(e.o, sc); return self.member(o, e.f, e)
    def member(self, o, f, e):
        if isinstance(o, Obj):
            if f in o.f: return self.read_cell(o.f, f, e)
            m = self.methods.get((o.cls, f))
            if m is not None: return FnV(m, o)
            if o.cls == "$ArrayList": return Opq("method", o, f)
        if isinstance(o, TypeV) and o.ty[0] == "name":
            n = o.ty[1]
            if n in self.enums and f in self.enum_table(n): return self.enum_val(n, f, e)
            m = self.methods.get((n, f))
            if m is not None: return FnV(m)
        if isinstance(o, Variant):
            if o.enum in self.conts:
                if f == o.tag: return o.args[0]
                m = self.methods.get((o.enum, f))
                if m is not None: return FnV(m, o)
                if f in dict(self.conts[o.enum].fields): self.panic("inactive union field %s" % f)
            if o.enum == "$info" and o.args: return self.member(o.args[0], f, e)
        if isinstance(o, AbsMsg):
            T = next((T for T in self.schema.messages if norm(T) == norm(f)), None)
            if T is not None and f in dict(self.conts["Message"].fields):
                if not self.ctx.domain(o.which).subset(IntSet.of([self.schema.tag(T)])): self.panic("inactive union field %s" % f)
                return AbsMsg(o.path, self.schema, T)
            return Opq("method", o, f)
        if isinstance(o, MsgV): return Opq("method", o, f)
        if f == "len":
            if isinstance(o, ListV): return Num(o.length(), "usize")
            if isinstance(o, Str): return Num(self.str_ulen(o), "usize")
            if isinstance(o, BufPtr): return Num(o.ln, "usize")
            if isinstance(o, Bytes): return Num(o.ln, "usize")
        if isinstance(o, (ListV, BufPtr, Str, Bytes)) and f == "ptr": self.err(e, "raw pointer")
        if isinstance(o, Opq):
            if o.tag == "errset": return ErrV(f)
            if o.tag == "pkg": return Opq("pkg", o.a[0] + "." + f)
            return Opq("method", o, f)
        self.err(e, "member %s of %r" % (f, o))
    def e_un(self, e, sc):
        if e.op == "*": return self.ev(e.e, sc)
        if e.op == "&":
            v = self.ev(e.e, sc)
            if isinstance(v, (Num, Bool, EnumV)): self.err(e, "address of a scalar")
            return v
        if e.op == "~": v = self.ev(e.e, sc); return Num(sym(("not", v.lin.key), *int_range(v.ty)), v.ty)
        return Model.e_un(self, e, sc)
    def e_unwrap(self, e, sc):
        v = self.ev(e.e, sc)
        if v is NULL: self.panic("null unwrapped")
        return v
    def l_name(self, e, sc):
        if e.id == "_": return ("drop",)
        return Model.l_name(self, e, sc)
    def l_mem(self, e, sc):
        o = self.ev_place(e.o, sc)
        if isinstance(o, Obj): return ("cell", o.f, e.f)
        self.err(e, "field of %r" % (o,))
    def l_un(self, e, sc):
        if e.op == "*":
            v = self.ev(e.e, sc)
            if isinstance(v, Obj): return ("whole", v)
        self.err(e, "assignment target")
    def l_idx(self, e, sc):
        l = self.ev_place(e.o, sc); i = self.num(self.ev(e.i, sc), e)
        if isinstance(l, ListV): return ("elem", l, i)
        if isinstance(l, BufPtr): return ("byte", l, i)
        self.err(e, "index into %r" % (l,))
    def ev_place(self, e, sc):
        if e.k == "idx": return self.load(self.loc(e, sc), e)
        if e.k == "mem":
            o = self.ev_place(e.o, sc); return self.member(o, e.f, e)
        return self.ev(e, sc)
    def load(self, t, e):
        if t[0] == "whole": return t[1]
        if t[0] == "byte": return self.byte_at(t[1], t[2], e)
        return Model.load(self, t, e)
    def store(self, t, v, e):
        if t[0] == "whole":
            for k, x in self.copyval(v).f.items(): self.ctx.set(t[1].f, k, x)
            return
        if t[0] == "byte":
            b = t[1]; self.out_check(b, t[2], Lin(1)); self.emit(b.off + t[2], 1, "i", self.num(v)); return
        if t[0] == "cell":
            old = t[1].get(t[2], KeyError)
            if isinstance(old, Num) and isinstance(v, Num) and old.ty != v.ty: v = self.conv(v, old.ty)
            if isinstance(t[1].owner, Obj) and t[2] not in t[1]: self.err(e, "no field %s" % t[2])
        return Model.store(self, t, self.copyval(v), e)
    def e_asg(self, e, sc):
        if e.l.k == "name" and e.l.id == "_": self.ev(e.r, sc); return VOID
        if e.op == "=":
            t = self.loc(e.l, sc); ty = None
            if t[0] == "cell":
                old = t[1].get(t[2], KeyError)
                ty = ("name", old.ty) if isinstance(old, Num) else ("name", old.enum) if isinstance(old, EnumV) else None
            self.store(t, self.evt(e.r, ty, sc), e); return VOID
        Model.e_asg(self, e, sc); return VOID
    def e_idx(self, e, sc):
        l = self.ev(e.o, sc); i = self.num(self.ev(e.i, sc), e)
        if isinstance(l, ListV): return self.list_get(l, i, e)
        if isinstance(l, BufPtr): return self.byte_at(l, i, e)
        if isinstance(l, Str):
            if l.kind == "lit":
                if i.is_const(): return Num(l.val.encode()[i.c], "u8")
            if l.kind == "in": return Num(sym(("u8at", l.val, i.key), 0, 255), "u8")
        if isinstance(l, Bytes) and l.src[0] == "lit" and i.is_const(): return Num(l.src[1][i.c], "u8")
        self.err(e, "index into %r" % (l,))
    def byte_at(self, b, i, e):
        ctx = self.ctx; ctx.count("bounds")
        if not (ctx.entails_ge(i) and ctx.entails_ge(b.ln - i - 1)): self.panic("index %r not proven inside %r bytes" % (i, b.ln))
        return self.rd(b.off + i, 1, "u")
    def out_check(self, b, off, n): pass
    def e_slice(self, e, sc):
        o = self.ev(e.o, sc); ctx = self.ctx
        lo = self.num(self.ev(e.lo, sc), e)
        if isinstance(o, BufPtr):
            hi = o.ln if e.hi is None else self.num(self.ev(e.hi, sc), e)
            if o.buf.name == "in":
                ctx.count("bounds")
                if not (ctx.entails_ge(lo) and (ctx.entails_ge(hi - lo)) and ctx.entails_ge(o.ln - hi)): self.panic("slice %r..%r not proven inside %r bytes" % (lo, hi, o.ln))
            return BufPtr(o.buf, o.off + lo, hi - lo)
        n = o.length() if isinstance(o, ListV) else self.str_ulen(o) if isinstance(o, Str) else None
        if n is not None:
            hi = n if e.hi is None else self.num(self.ev(e.hi, sc), e)
            if lo == Lin(0) and same(ctx, hi, n): return o
            if isinstance(o, ListV) and all(s[0] == "fill" for s in o.segs): return Opq("sub", o, lo, hi)
        self.err(e, "slice of %r" % (o,))
    # ---- control
    def e_zif(self, e, sc, ty=None):
        if e.cap is not None:
            v = self.ev(e.c, sc); s2 = Scope(self.ctx, sc)
            if isinstance(v, ErrV) or v is NULL:
                if e.b is None: return VOID
                if e.ecap: self.declare(s2, e.ecap[0][0], v)
                return self.evt(e.b, ty, s2)
            self.declare(s2, e.cap[0][0], v)
            return self.evt(e.a, ty, s2)
        c = self.cond(e.c, sc)
        if self.ctx.branch(c): return self.flag_value(c, self.evt(e.a, ty, sc))
        return self.flag_value(c, self.evt(e.b, ty, sc)) if e.b is not None else VOID
    def truth(self, v, n=None):
        if isinstance(v, Bool): return v.c
        self.err(n, "condition expected, got %r" % (v,))
    def e_zcatch(self, e, sc, ty=None):
        v = self.evt(e.e, ty, sc)
        if isinstance(v, ErrV):
            s2 = Scope(self.ctx, sc)
            if e.cap: self.declare(s2, e.cap[0][0], v)
            return self.evt(e.rhs, ty, s2)
        return v
    def e_zorelse(self, e, sc, ty=None):
        v = self.evt(e.e, ty, sc)
        return self.evt(e.rhs, ty, sc) if v is NULL else v
    def e_try(self, e, sc, ty=None):
        v = self.evt(e.e, ty, sc)
        if isinstance(v, ErrV): raise RetX(v)
        return v
    def e_retx(self, e, sc):
        if e.e is None: raise RetX(VOID)
        s = sc.find("$ret"); ty = s.f["$ret"].ty if s is not None else None
        v = self.evt(e.e, ty, sc)
        raise RetX(v if isinstance(v, ErrV) else self.copyval(self.coerce(v, ty, e)))
    def e_brkx(self, e, sc):
        v = None
        if e.e is not None:
            st = self.__dict__.get("lblt", {}).get(e.label)
            v = self.evt(e.e, st[-1] if st else None, sc)
        raise BrkX(e.label, v)
    def e_contx(self, e, sc): raise ContX(e.label)
    def pat_c(self, v, p, e, sc):
        if p.k == "rangex":
            l = self.num(v); return c_and(c_ge(l - self.num(self.ev(p.lo, sc))), c_ge(self.num(self.ev(p.hi, sc)) - l))
        if p.k == "dotlit":
            if isinstance(v, Variant): return T if (norm(v.tag) == norm(p.id) if v.enum == "$info" else v.tag == p.id) else F
            if isinstance(v, AbsMsg):
                T_ = next((x for x in self.schema.messages if norm(x) == norm(p.id)), None)
                if T_ is None: self.err(e, "tag " + p.id)
                return c_in(v.which, IntSet.of([self.schema.tag(T_)]))
            if isinstance(v, EnumV): return c_eq(v.lin - self.enum_val(v.enum, p.id, e).lin)
        x = self.ev(p, sc)
        return self.equal(v, x, e)
    def equal(self, a, b, n):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Opq) and p.tag == "dot" and isinstance(q, EnumV): return c_eq(q.lin - self.enum_val(q.enum, p.a[0], n).lin)
            if isinstance(p, ErrV) and not isinstance(q, ErrV): return F
        if isinstance(a, TypeV) and isinstance(b, TypeV): return T if a.ty == b.ty else F
        return Model.equal(self, a, b, n)
    def e_zswitch(self, e, sc, ty=None):
        v = self.ev(e.e, sc); default = None
        for pats, cap, b, inl in e.arms:
            if pats == [None]: default = (cap, b); continue
            c = F; hit = None
            for p in pats: c = c_or(c, self.pat_c(v, p, e, sc))
            if not self.ctx.branch(c): continue
            s2 = Scope(self.ctx, sc)
            if cap: self.declare(s2, cap[0][0], self.payload(v, pats, e))
            return self.evt(b, ty, s2)
        if default is None: self.err(e, "no arm for %r" % (v,))
        cap, b = default; s2 = Scope(self.ctx, sc)
        if cap:
            if isinstance(v, AbsMsg): self.declare(s2, cap[0][0], AbsMsg(v.path, self.schema, "*"))
            else: self.declare(s2, cap[0][0], v.args[0] if isinstance(v, Variant) and v.args else v)
        return self.evt(b, ty, s2)
    def payload(self, v, pats, e):
        if isinstance(v, Variant): return v.args[0] if v.args else VOID
        if isinstance(v, AbsMsg): return AbsMsg(v.path, self.schema, next(x for x in self.schema.messages if norm(x) == norm(pats[0].id)))
        return v
    def e_zwhile(self, e, sc):
        if e.cap is not None: self.err(e, "while with capture")
        s2 = Scope(self.ctx, sc); s2.defers = []
        self.loop(e, s2, cond=lambda: self.cond(e.c, s2), body=lambda: self.ev(e.body, s2), step=lambda: self.ev(e.step, s2) if e.step is not None else None)
        return VOID
    def e_zfor(self, e, sc):
        its = []
        for x in e.iters:
            if x.k == "rangex":
                lo = self.num(self.ev(x.lo, sc), e); its.append(("r", lo, None if x.hi is None else self.num(self.ev(x.hi, sc), e)))
            else: its.append(("v", self.ev(x, sc)))
        N_ = None
        for it in its:
            n = (it[2] - it[1] if it[2] is not None else None) if it[0] == "r" else self.seqlen(it[1], e)
            if n is not None: N_ = n; break
        if N_ is None: self.err(e, "endless for")
        def bind(s, ix):
            for it, (nm, ref) in zip(its, e.caps):
                if nm == "_": continue
                if it[0] == "r": v = Num(it[1] + ix, "usize")
                else:
                    v = self.at(it[1], ix, ref, e)
                s.f[nm] = v
        conc = len(its) == 1 and its[0][0] == "v" and isinstance(its[0][1], ListV) and all(g[0] == "one" for g in its[0][1].segs)
        b = e.body
        if conc and N_.is_const() and b.k == "zblock" and len(b.body) == 1 and b.body[0].k == "expr" and b.body[0].e.k == "zif" and b.body[0].e.b is None and b.body[0].e.cap is None and self.just_return(b.body[0].e.a):
            # search: the first element satisfying the test ends the function with the same value for all elements
            z = b.body[0].e; c = F; good = True; st = Scope(self.ctx, sc); S_ = set(); one = None
            for i in range(N_.c):
                s2 = Scope(self.ctx, sc); bind(s2, Lin(i))
                x = self._nochoose(lambda: self.cond(z.c, s2))
                if x is None: good = False; break
                if x.k == "t": c = T; break
                if x.k == "in" and (one is None or one is x.a): one = x.a; S_ |= set(x.b.iv); continue
                c = c_or(c, x)
            if good:
                if one is not None and c.k != "t": c = c_or(c_in(one, self.union(S_)), c) if c.k != "f" else c_in(one, self.union(S_))
                if self.ctx.branch(c): self.ev(z.a, sc)
                return VOID
        if conc:
            for i in range(N_.c):
                def it1(i=i):
                    s2 = Scope(self.ctx, sc); s2.defers = []; bind(s2, Lin(i)); self.ev(e.body, s2)
                if not self.iter_once(e, it1): break
            return VOID
        self.foreach(e, sc, N_, bind, lambda s: self.ev(e.body, s))
        return VOID
    def union(self, ivs):
        s = IntSet([])
        for iv in ivs: s = s.union(IntSet([iv]))
        return s
    def just_return(self, a):
        while a.k == "zblock" and len(a.body) == 1 and a.label is None: a = a.body[0].e if a.body[0].k == "expr" else a.body[0]
        return a.k == "retx" and a.e is not None and a.e.k == "lit"
    def seqlen(self, v, e):
        if isinstance(v, ListV): return v.length()
        if isinstance(v, Str): return self.str_ulen(v)
        if isinstance(v, (BufPtr, Bytes)): return v.ln
        self.err(e, "iteration over %r" % (v,))
    def at(self, v, ix, ref, e):
        if isinstance(v, ListV): return self.elem_load(v, ix, e) if ref else self.copyval(self.list_get(v, ix, e))
        if isinstance(v, Str):
            if v.kind == "lit": return Num(v.val.encode()[ix.c], "u8") if ix.is_const() else self.err(e, "text element")
            if v.kind == "in": return Num(sym(("u8at", v.val, ix.key), 0, 255), "u8")
        if isinstance(v, BufPtr): return self.byte_at(v, ix, e)
        self.err(e, "element of %r" % (v,))
    # ---- calls
    def bind_this(self, s, fn, this):
        if getattr(fn, "cls", None): s.f["$cls"] = ty_name(fn.cls)
    def bind_params(self, s, fn, args):
        for (nm, te), v in zip(fn.params, args):
            ty = None if te.k == "name" and te.id == "anytype" else self.typ(te, s)
            if ty is not None and ty[0] != "ptr": v = self.copyval(self.coerce(v, ty, fn)) if not isinstance(v, Obj) else v
            if nm: s.f[nm] = v
        s.f["$ret"] = TypeV(self.typ(fn.ret, s)) if fn.ret is not None else TypeV(None)
    def e_call(self, e, sc):
        if e.f.k == "mem": f = self.member(self.ev_place(e.f.o, sc), e.f.f, e)
        else: f = self.ev(e.f, sc)
        if isinstance(f, FnV):
            fn = f.fn; args = []; ps = list(fn.params); s = Scope(self.ctx, self.gscope)
            if getattr(fn, "cls", None): s.f["$cls"] = ty_name(fn.cls)
            if f.this is not None: args.append(f.this); ps = ps[1:]
            for (nm, te), (_, a) in zip(ps, e.args):
                ty = None if te.k == "name" and te.id == "anytype" else self.typ(te, s)
                v = self.evt(a, ty, sc); args.append(v)
                if isinstance(v, TypeV) and nm: s.f[nm] = v
            if len(args) != len(fn.params): self.err(e, "%d arguments for %s" % (len(args), fn.name))
            if args and all(isinstance(a, TypeV) for a in args) and fn.ret.k == "name" and fn.ret.id == "bool":
                memo = self.__dict__.setdefault("_cb", {}); key = (fn.name, tuple(a.ty for a in args))
                if key not in memo:
                    r = self.invoke(fn, args); d = self.ctx.decide(r.c)
                    if d is None: return r
                    memo[key] = d
                return self.mk_bool(memo[key])
            return self.invoke(fn, args)
        if isinstance(f, Opq) and f.tag == "method": return self.lib_method(f.a[0], f.a[1], e, sc)
        if isinstance(f, Opq) and f.tag == "pkg": return self.pkg_call(f.a[0], e, sc)
        self.err(e, "call of %r" % (f,))
    def type_arg(self, e, sc): return self.typ(e, sc)
    def pkg_call(self, nm, e, sc):
        ctx = self.ctx; A = [a for _, a in e.args]
        if nm == "std.math.cast":
            ty = self.typ(A[0], sc)[1]; v = self.ev(A[1], sc); lo, hi = int_range(ty); l = self.num(v, e)
            b = ctx.bounds(l)
            if b[0] < lo and not ctx.entails_ge(l - lo) and not ctx.branch(c_ge(l - lo)): return NULL
            if b[1] > hi and not ctx.entails_ge(l.scale(-1) + hi) and not ctx.branch(c_ge(l.scale(-1) + hi)):
                if self.stream is not None: ctx.flags["toolarge"] = True
                return NULL
            return Num(l, ty)
        if nm == "std.mem.readInt":
            ty = self.typ(A[0], sc)[1]; b = self.ev(A[1], sc); w = WIDTH[ty]; o = self.ev(A[2], sc)
            if not isinstance(b, BufPtr): self.err(e, "readInt of %r" % (b,))
            ctx.count("reads")
            if not same(ctx, b.ln, w): self.err(e, "readInt of %r bytes as %s" % (b.ln, ty))
            if o.a[0] != "little" and w > 1: return Num(sym(("bigendian", b.off.key, ty), *int_range(ty)), ty)
            return Num(self.rd(b.off, w, "u" if ty[0] == "u" else "s").lin, ty)
        if nm == "std.mem.writeInt":
            ty = self.typ(A[0], sc); b = self.ev(A[1], sc); v = self.evt(A[2], ty, sc); o = self.ev(A[3], sc); w = WIDTH[ty[1]]
            if not same(ctx, b.ln, w): self.err(e, "writeInt into %r bytes" % (b.ln,))
            fl = isinstance(v, Num) and v.ty in ("f32", "f64", "fbits")
            self.emit(b.off, w, ("f" if fl else "i") if o.a[0] == "little" or w == 1 else "be", self.num(v, e)); return VOID
        if nm in ("std.mem.copyForwards", "std.mem.copy", "std.mem.copyBackwards"): return self.memcpy(self.ev(A[1], sc), self.ev(A[2], sc), e)
        if nm in ("std.mem.eql", "std.mem.startsWith"):
            a, b = self.ev(A[1], sc), self.ev(A[2], sc)
            if isinstance(a, Str) and isinstance(b, BufPtr): a, b = b, a
            if isinstance(a, BufPtr) and isinstance(b, Str) and b.kind == "lit":
                t = b.val.encode()
                return Bool(self.rd_equals(a.off, a.ln if nm.endswith("eql") else Lin(len(t)), t, e) if nm.endswith("eql") else c_and(c_ge(a.ln - len(t)), self.rd_equals(a.off, Lin(len(t)), t, e)))
            self.err(e, "comparison of %r and %r" % (a, b))
        if nm == "std.meta.fields":
            ty = self.typ(A[0], sc); memo = self.__dict__.setdefault("_fl", {})
            if ty[1] in self.enums:
                return self.mklist(tuple(("one", Obj(ctx, "$field", {"name": Str("lit", n), "value": Num(v, "int")})) for n, v in self.enum_table(ty[1]).items()))
            self.err(e, "fields of %r" % (ty,))
        if nm in ("std.meta.intToEnum", "std.enums.fromInt"):
            ty = self.typ(A[0], sc)[1]; v = self.ev(A[1], sc); l = self.num(v, e); o = l.one()
            vals = set(self.enum_table(ty).values()); bad = NULL if nm.startswith("std.enums") else ErrV("InvalidEnumTag")
            if l.is_const(): return EnumV(ty, l) if l.c in vals else bad
            if o and o[1] == 1:
                if ctx.branch(c_in(o[0], IntSet.of([x - o[2] for x in vals]))): return EnumV(ty, l)
                return bad
            self.err(e, "enum value %r" % (v,))
        if nm == "std.ArrayList":
            return Opq("pkg", "ArrayList")
        if nm in ("ArrayList.init", "ArrayList.initCapacity"):
            o = Obj(ctx, "$ArrayList", {"items": self.mklist(())}); o.f["$live"] = self.acquire("ArrayList"); return o
        if nm.startswith("std.debug.print") or nm.startswith("std.log."): return VOID
        if nm in ("std.debug.assert",):
            if not ctx.branch(self.cond(A[0], sc)): self.panic("assertion")
            return VOID
        self.err(e, "library call " + nm)
    def memcpy(self, d, s, e):
        ctx = self.ctx
        if isinstance(d, BufPtr) and d.buf.name == "out":
            if isinstance(s, Str):
                if not ctx.entails_ge(d.ln - self.str_ulen(s)): self.note("C09", "text is copied into a slice that may be shorter")
                self.emit_text(d.off, s); return VOID
            if isinstance(s, ListV) and all(g[0] == "one" for g in s.segs):
                for i, g in enumerate(s.segs): self.emit(d.off + i, 1, "i", self.num(g[1]))
                return VOID
            if isinstance(s, ListV):
                self.foreach(e, self.gscope, s.length(), lambda sc, ix: sc.f.__setitem__("$i", Num(ix, "usize")), lambda sc: self.emit(d.off + sc.f["$i"].lin, 1, "i", self.num(self.list_get(s, sc.f["$i"].lin, e)))); return VOID
        if isinstance(d, Opq) and d.tag == "sub" and d.a[1] == Lin(0): d = d.a[0]
        if isinstance(d, ListV) and isinstance(s, BufPtr):
            if not ctx.entails_ge(d.length() - s.ln): self.panic("copy of %r bytes into %r" % (s.ln, d.length()))
            if same(ctx, d.length(), s.ln): ctx.set(d.f, "segs", (("bulk", s.ln, s.off, 1, "u"),)); return VOID
        self.err(e, "copy from %r to %r" % (s, d))
    def lib_method(self, o, n, e, sc):
        ctx = self.ctx; A = [a for _, a in e.args]
        if isinstance(o, Opq) and o.tag == "allocator":
            if n in ("alloc", "alignedAlloc", "allocSentinel"):
                ty = self.typ(A[0], sc); k = self.num(self.ev(A[1], sc), e)
                tok = self.acquire("alloc", k)
                if tok is None: return ErrV("OutOfMemory")
                l = self.mklist((("fill", k, UNINIT),) if k != Lin(0) else (), ("slice", ty)); l.aid = tok; return l
            if n == "dupe":
                s = self.ev(A[1], sc)
                if isinstance(s, BufPtr):
                    tok = self.acquire("alloc", s.ln)
                    if tok is None: return ErrV("OutOfMemory")
                    l = self.mklist((("bulk", s.ln, s.off, 1, "u"),), ("slice", ("name", "u8"))); l.aid = tok; return l
                self.err(e, "dupe of %r" % (s,))
            if n == "free": self.free_value(self.ev(A[0], sc), e); return VOID
            self.err(e, "allocator method " + n)
        if isinstance(o, Obj) and o.cls == "$ArrayList":
            l = o.f["items"]
            if n in ("append", "appendAssumeCapacity"):
                v = self.evt(A[0], ("name", "Message"), sc)
                if n == "append" and self.alloc_fails(): return ErrV("OutOfMemory")
                self.list_push(l, v); return VOID
            if n in ("ensureUnusedCapacity", "ensureTotalCapacity", "resize"):
                if n == "resize": self.err(e, "resize")
                return ErrV("OutOfMemory") if self.alloc_fails() else VOID
            if n == "toOwnedSlice":
                if self.alloc_fails(): return ErrV("OutOfMemory")
                r = self.mklist(l.segs); r.aid = self.acquire("slice", r.length(), False)
                self.release(o.f["$live"], e); ctx.set(o.f, "$live", None); ctx.set(l.f, "segs", ()); return r
            if n == "deinit":
                if o.f["$live"] is not None: self.release(o.f["$live"], e)
                ctx.set(o.f, "$live", None); return VOID
            self.err(e, "ArrayList method " + n)
        if isinstance(o, AbsMsg): return self.abs_method(o, n, e, sc)
        if isinstance(o, MsgV) and n == "deinit": return self.msg_release(o, e)
        if isinstance(o, Opq) and o.tag == "elem" and n == "deinit": return self.elem_release(o, e)
        self.err(e, "method %s of %r" % (n, o))
    def abs_method(self, m, n, e, sc):
        if n == "deinit" and self.mem: self.msg_release(m, e); return VOID
        if m.known is None:
            f = self.methods.get(("Message", n))
            if f is None: self.err(e, "method %s of Message" % n)
            args = [m]
            for (nm, te), (_, a) in zip(f.params[1:], e.args): args.append(self.evt(a, self.typ(te, self.gscope) if te.k != "name" or te.id != "anytype" else None, sc))
            return self.invoke(f, args)
        k = norm(n)
        if k == "getsizeinbytes": return Num(m.size(), "usize")
        if k == "writebytes":
            a = [self.ev(x, sc) for _, x in e.args]
            out = a[1].off + self.num(a[0]); t = a[2]
            tag = self.ctx.decide(t.c) if isinstance(t, Bool) else None
            self.ctx.events.append(("msg", out, m.path, tag, m.size()))
            return Num(m.size() + (1 if tag else 0), "usize")
        self.err(e, "method %s of a message" % n)
    def e_builtin(self, e, sc): return self.builtin(e, None, sc)
    def builtin(self, e, ty, sc):
        n = e.name.lstrip("@"); A = [a for _, a in e.args]; ctx = self.ctx
        if n == "import": return Opq("pkg", self.ev(A[0], sc).val)
        if n == "This": return sc.find("$cls").f["$cls"]
        if n == "sizeOf": return Num(self.sizeof(self.typ(A[0], sc), e), "int")
        if n == "typeInfo":
            t = self.typ(A[0], sc)
            if t[0] == "name" and t[1] in self.enums: return Variant("Enum", [Obj(ctx, "$info", {"tag_type": ty_name(self.storage_of(t[1]))})], "$info")
            k = {"name": "Struct", "slice": "Pointer", "ptr": "Pointer", "arr": "Array"}.get(t[0], "Struct")
            if t[0] == "name": k = "Bool" if t[1] == "bool" else "Float" if t[1] in ("f32", "f64") else "Int" if t[1] in INTS else "Struct"
            return Variant(k, [Opq("typeinfo", k)], "$info")
        if n == "compileError": raise PathEnd("panic", "compile error")
        if n in ("constCast", "ptrCast", "alignCast"): return self.evt(A[0], ty, sc)
        if n == "as": t = self.typ(A[0], sc); return self.coerce(self.evt(A[1], t, sc), t, e)
        if n == "memcpy": return self.memcpy(self.ev(A[0], sc), self.ev(A[1], sc), e)
        if n == "intFromBool": return Num(self.b2i(self.ev(A[0], sc)), "u8")
        if n == "intFromEnum": v = self.ev(A[0], sc); return Num(v.lin, self.storage_of(v.enum))
        if n == "enumFromInt":
            v = self.ev(A[0], sc)
            if ty is None or ty[1] not in self.enums: self.err(e, "@enumFromInt without a result type")
            return EnumV(ty[1], v.lin)
        if n == "bitCast":
            v = self.ev(A[0], sc)
            if ty is None or ty[0] != "name": self.err(e, "@bitCast without a result type")
            t = ty[1]
            if isinstance(v, Num):
                if v.ty in ("f32", "f64") and t in INTS: return Num(v.lin, "fbits")
                o = v.lin.one()
                if t in ("f32", "f64"):
                    if o and o[1:] == (1, 0) and isinstance(o[0].key, tuple) and o[0].key[0] == "rd" and o[0].key[2] == WIDTH[t]:
                        return Num(sym(("rd", o[0].key[1], o[0].key[2], "f")), t)
                    return Num(sym(("bits", v.lin.key)), t)
                if WIDTH.get(v.ty) == WIDTH.get(t): 
                    if o and o[1:] == (1, 0) and isinstance(o[0].key, tuple) and o[0].key[0] == "rd": return self.rd(Lin(o[0].key[1][0], dict(o[0].key[1][1])), WIDTH[t], "u" if t[0] == "u" else "s")
                    return self.conv(Num(v.lin, "int"), t)
            self.err(e, "@bitCast of %r" % (v,))
        if n in ("intCast", "truncate"):
            v = self.ev(A[0], sc)
            if ty is None or ty[0] != "name": self.err(e, "@%s without a result type" % n)
            if n == "truncate": return self.conv(v, ty[1])
            lo, hi = int_range(ty[1]); l = self.num(v, e); b = ctx.bounds(l)
            if (b[0] < lo and not ctx.entails_ge(l - lo) and not ctx.branch(c_ge(l - lo))) or (b[1] > hi and not ctx.entails_ge(l.scale(-1) + hi) and not ctx.branch(c_ge(l.scale(-1) + hi))): self.panic("@intCast out of range")
            return Num(l, ty[1])
        if n in ("min", "max"):
            a, b = self.ev(A[0], sc), self.ev(A[1], sc); x, y = self.num(a), self.num(b)
            return Num(x if ctx.branch(c_ge(y - x if n == "min" else x - y)) else y, self.result_type(a, b))
        if n == "TypeOf":
            v = self.ev(A[0], sc)
            if isinstance(v, Obj) or isinstance(v, Num): return ty_name(v.cls if isinstance(v, Obj) else v.ty)
        self.err(e, "builtin @" + n)
    # ---- accessors
    def as_text(self, v):
        if isinstance(v, ListV):
            if not v.segs: return Lin(0), Lin(0)
            if len(v.segs) == 1 and v.segs[0][0] == "bulk" and v.segs[0][3] == 1: return v.segs[0][2], v.segs[0][1]
            if len(v.segs) == 1 and v.segs[0][0] == "loop":
                _, n, ix, x = v.segs[0][:4]
                o = x.lin.one() if isinstance(x, Num) else None
                if o and o[1:] == (1, 0) and o[0].key[0] == "rd" and o[0].key[2:] == (1, "u"):
                    off = Lin(o[0].key[1][0], dict(o[0].key[1][1])) - ix
                    if ix not in off.syms(): return off, n
            if len(v.segs) == 1 and v.segs[0][0] == "fill" and self.ctx.decide(c_eq(v.length())) is True: return Lin(0), Lin(0)
            return None
        return Model.as_text(self, v)
    def as_list(self, v):
        if isinstance(v, ListV): return v.segs
        return None
    # ---- tasks
    def start(self, ctx):
        Interp.start(self, ctx); self.strict = False; self.in_defer = 0; self.lblt = {}; self.start_mem()
    def guard(self, f):
        try: return f()
        except PathEnd as p:
            if p.why == "panic": return ("err", "panic: " + str(p.detail), str(p.detail))
            raise
    def std_args(self, fn, off, buf):
        """arguments by parameter type"""
        out = []
        for nm, te in fn.params:
            if te.k == "name" and te.id in ("usize",): out.append(Num(off, "usize"))
            elif te.k == "slicetype": out.append(buf)
            elif te.k == "name" and te.id == "bool": out.append(Bool(T_))
            elif te.k == "mem" and te.f == "Allocator": out.append(Opq("allocator"))
            else: raise AnalysisError("zig: parameter %s of %s" % (nm, fn.name))
        return out
    def read_value(self, T):
        m = self.methods[(self.type_name(T), "fromBytes")]
        self.strict = True
        return self.invoke(m, self.std_args(m, Lin.of(P0), BufPtr(Buf("in", LEN), 0, Lin.of(LEN))))
    def run_reader(self, ctx, T):
        def go():
            r = self.read_value(T)
            if isinstance(r, ErrV): return ("err", "clean", r.kind)
            if not isinstance(r, Obj) or "value" not in r.f or "bytes_read" not in r.f: raise AnalysisError("zig: reader of %s returns %r" % (T, r))
            return ("ok", r.f["value"], Lin.of(P0) + self.num(r.f["bytes_read"]))
        return self.guard(go)
    def outbuf(self): return BufPtr(Buf("out", INF_LEN), 0, INF_LEN)
    def run_writer(self, ctx, T, tagged):
        m = self.methods[(self.type_name(T), "writeBytes")]
        def go():
            o = self.in_value(("struct", T), (T,)); a = [o, Num(W0, "usize"), self.outbuf(), Bool(T_ if tagged else F_)][:len(m.params)]
            r = self.invoke(m, a)
            return ("ok", Lin.of(W0) + self.num(r))
        return self.guard(go)
    def run_size(self, ctx, T):
        m = self.methods[(self.type_name(T), "getSizeInBytes")]
        return self.guard(lambda: ("ok", self.num(self.invoke(m, [self.in_value(("struct", T), (T,))]))))
    def reader_of(self, fn):
        if not hasattr(self, "_rd"): self._rd = {id(self.methods[(self.type_name(T), "fromBytes")]): T for T in self.schema.messages}
        return self._rd.get(id(fn))
    def summary_call(self, T, fn, args, this):
        buf = next(a for a in args if isinstance(a, BufPtr)); off = next(a for a in args if isinstance(a, Num)).lin
        sh = self.ctx.shared
        if sh.get("sbase", Lin(0)) != buf.off: sh["sbase"] = buf.off; raise Restart()
        pos = buf.off + off
        ok, end = self.read_summary(T, pos)
        if not ok: return ErrV("EOF")
        v = MsgV(T, pos)
        if self.mem: v.aid = self.acquire("msg", None, False)
        return Obj(self.ctx, "$anon", {"value": v, "bytes_read": Num(end - pos, "usize")}, "val")
    def stream_pos(self, cands, state, mods): return cands[0] + self.ctx.shared.get("sbase", Lin(0))
    def message_of(self, v):
        if isinstance(v, Variant) and v.enum == "Message" and isinstance(v.args[0], MsgV):
            t = self.typ(dict(self.conts["Message"].fields)[v.tag], self.gscope)
            if norm(t[1]) == norm(v.args[0].T): return v.args[0]
        return v
    def out_list(self, r):
        if isinstance(r, ErrV): return ("err", "clean", r.kind)
        return ("ok", r)
    def run_process(self, ctx, mx):
        fn = self.fn("processRawBytes"); b = BufPtr(Buf("in", LEN), P0, Lin.of(LEN) - P0); self.strict = True
        return self.guard(lambda: self.out_list(self.invoke(fn, [Opq("allocator"), b, Num(mx, "i32")])))
    def run_unpack(self, ctx):
        fn = self.fn("unpackMessages"); b = BufPtr(Buf("in", LEN), P0, Lin.of(LEN) - P0); self.strict = True
        return self.guard(lambda: self.out_list(self.invoke(fn, [Opq("allocator"), b])))
    def msgs(self, ctx):
        N_, mk = msg_list(self, ctx)
        return self.mklist((("in", ("msgs",), N_, mk),))
    def run_pack(self, ctx):
        def go():
            self.invoke(self.fn("packMessages"), [self.msgs(ctx), BufPtr(Buf("out", INF_LEN), W0, INF_LEN)]); return ("ok", None)
        return self.guard(go)
    def run_packed_size(self, ctx): return self.guard(lambda: ("ok", self.num(self.invoke(self.fn("getPackedSize"), [self.msgs(ctx)]))))
    def run_type(self, ctx, T): return ("skip",)
    def type_constants(self):
        self.start(Ctx()); return {norm(n): v + 1 for n, v in self.enum_table("MessageType").items()}
    def check_alloc(self, rep, T):
        """what a failing reader still owns: examined function by function"""
        from .zigmem import ZigOwn
        if T is None: ZigOwn(self.decls, self.schema).check_ownership(rep)
    def check_list_cleanup(self, rep):
        """the same functions on their normal exits: what is acquired is handed out, and nothing else stays behind"""
        self.check_alloc(rep, None)
    def release_ways(self, T): return ("read, released", "read, released as a message", "fresh, released")
    def run_release(self, ctx, T, how):
        if how.startswith("read"):
            r = self.run_reader(ctx, T)
            if r[0] != "ok": return False
            v = r[1]
        else: v = self.run_default(ctx, T, how)[1]
        def go():
            if how.endswith("as a message"):
                f = next(n for n, te in self.conts["Message"].fields if norm(self.typ(te, self.gscope)[1]) == norm(T))
                u = Variant(f, [v], "Message"); d = self.methods[("Message", "deinit")]
                self.invoke(d, [u, Opq("allocator")])
            else:
                d = self.methods.get((self.type_name(T), "deinit"))
                if d is not None: self.invoke(d, [v, Opq("allocator")])
            return True
        return self.guard(go) is True
    def run_default(self, ctx, T, how): return self.guard(lambda: ("ok", self.struct_lit(N("slit", 0, ty=None, fields=[]), ("name", self.type_name(T)), self.gscope)))
    # ---- declarations
    def fields(self, T): self.start(Ctx()); return [(n, self.typ(te, self.gscope)) for n, te in self.structs[self.type_name(T)].fields]
    def type_ok(self, ty, k):
        if k[0] == "list": return ty[0] == "slice" and self.type_ok(ty[1], k[1])
        if k[0] == "str": return ty == ("slice", ("name", "u8"))
        if ty[0] != "name": return False
        if k[0] == "num": return ty[1] == "bool" if k[1] == "bool" else ty[1] == self.native(k[1])
        if k[0] == "enum": return ty[1] in self.enums and norm(ty[1]) == norm(k[1])
        return ty[1] in self.structs and norm(ty[1]) == norm(k[1])
    def enum_decl(self, e):
        en = next((n for n in self.enums if norm(n) == norm(e)), None)
        if en is None: return None, None
        self.start(Ctx()); return list(self.enum_table(en).items()), self.storage_of(en)
    def in_enum_value(self, e, s): return EnumV(next(n for n in self.enums if norm(n) == norm(e)), Lin.of(s))
    def name_ok(self, declared, got): return declared == got
INF_LEN = Lin.of(sym(("outlen",), 0, 1 << 62))
T_, F_ = T, F
def build(src, schema): return Zig(parse_zig.parse(src), schema)
