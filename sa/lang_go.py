"""Go: abstract semantics of the generated package (encoding/binary, io and fmt modelled)."""
from .model import *
from . import parse_go

GOINT = {"byte": "u8", "uint8": "u8", "int8": "i8", "uint16": "u16", "int16": "i16", "uint32": "u32", "int32": "i32", "rune": "i32", "uint64": "u64", "int64": "i64",
         "int": "i64", "uint": "u64", "uintptr": "u64", "float32": "f32", "float64": "f64"}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}
class Ref(V):
    """pointer"""
    def __init__(self, loc, ty): self.loc = loc; self.ty = ty
    def __repr__(self): return "Ref(%s,%r)" % (self.loc[0], self.ty)
NIL = NULL
ORDERS = {"binary.LittleEndian": "le", "binary.BigEndian": "be"}

class Go(Model):
    lang = "go"
    def index(self, decls, prefix=""):
        self.structs_all = [d.name for d in decls if d.k == "struct"]
        self.methods = {}; self.newtypes = {}; self.ifaces = {}
        for d in decls:
            if d.k == "fn":
                if d.cls: self.methods[(d.cls, d.name)] = d
                else: self.funcs.setdefault(d.name, d)
            elif d.k == "struct": self.structs.setdefault(d.name, d)
            elif d.k == "newtype": self.newtypes[d.name] = d.ty
            elif d.k == "iface": self.ifaces[d.name] = d
            elif d.k == "var": self.globals_ast.setdefault(d.name, d)
    # ---- names
    def type_name(self, T):
        for n in self.structs:
            if norm(n) == norm(T): return n
        raise AnalysisError("go: no struct for " + T)
    def fn(self, name):
        for n, d in self.funcs.items():
            if norm(n) == norm(name): return d
        raise AnalysisError("go: no function " + name)
    def field_name(self, T, m):
        for n, ty in self.structs[self.type_name(T)].fields:
            if norm(n) == norm(m): return n
        raise AnalysisError("go: no field %s.%s" % (T, m))
    def new_obj(self, T): return Obj(self.ctx, self.type_name(T), {}, "val")
    # ---- types
    def resolve(self, ty):
        if ty is None: return None
        while ty[0] == "name" and ty[1] in self.newtypes: ty = self.newtypes[ty[1]]
        return ty
    def zero(self, ty):
        t = self.resolve(ty)
        if t[0] == "name":
            if t[1] in GOINT: return Num(0, GOINT[t[1]])
            if t[1] == "bool": return Bool(F)
            if t[1] == "string": return Str("lit", "")
            if t[1] in self.structs: return Obj(self.ctx, t[1], {n: self.zero(x) for n, x in self.structs[t[1]].fields}, "val")
            return NIL
        if t[0] == "slice": return self.mklist((), t[1])
        if t[0] == "arr":
            n = self.num(self.ev(t[1], self.gscope))
            return self.mklist((("fill", n, self.zero(t[2])),), t[2])
        return NIL
    def mklist(self, segs, el):
        l = ListV(self.ctx, segs); l.ty = el; return l
    def zero_local(self, ty, n): return self.zero(ty)
    def coerce(self, v, ty, n):
        t = self.resolve(ty)
        if t is None: return v
        if t[0] == "name" and t[1] in GOINT and isinstance(v, Num) and v.ty in ("int", "float"): return self.conv(v, GOINT[t[1]])
        if t[0] == "slice" and v is NIL: return self.mklist((), t[1])
        return v
    def copyval(self, v):
        if isinstance(v, Obj) and v.kind == "val":
            return Obj(self.ctx, v.cls, {k: self.copyval(x) for k, x in v.f.items()}, "val")
        return v
    def fit(self, v, old, t, e):
        if isinstance(old, Num) and isinstance(v, Num) and v.ty in ("int", "float") and old.ty not in ("int", "float"): return self.conv(v, old.ty)
        if isinstance(old, ListV) and v is NIL: return self.mklist((), old.ty)
        return v
    def type_of_expr(self, e):
        """type denoted by an expression, or None"""
        if e.k == "tyref": return e.ty
        if e.k == "name" and (e.id in GOINT or e.id in ("bool", "string") or e.id in self.newtypes or e.id in self.structs or e.id in self.ifaces or e.id in ("any", "error")): return ("name", e.id)
        return None
    # ---- static types of addressable expressions
    def ty_of(self, v):
        if isinstance(v, Num): return next((("name", k) for k, x in GOINT.items() if x == v.ty), None)
        if isinstance(v, Bool): return ("name", "bool")
        if isinstance(v, Str): return ("name", "string")
        if isinstance(v, Obj): return ("name", v.cls)
        if isinstance(v, ListV): return ("slice", v.ty)
        return None
    # ---- globals
    def global_name(self, name, e, sc):
        if name in ("true", "false"): return self.mk_bool(name == "true")
        d = self.globals_ast.get(name)
        if d is not None:
            if d.const:
                if name in self.genv_busy: self.err(e, "cyclic constant")
                self.genv_busy.add(name)
                s = Scope(self.ctx, self.gscope); s.f["iota"] = Num(getattr(d, "iota", 0), "int")
                try: v = self.ev(d.init, s)
                finally: self.genv_busy.discard(name)
                return self.coerce_const(v, d.ty)
            return self.global_cell(name, e, sc).f[name]
        if name in self.funcs: return FnV(self.funcs[name])
        if name == "nil": return NIL
        t = self.type_of_expr(e)
        if t is not None: return TypeV(t)
        self.err(e, "unknown name " + name)
    def coerce_const(self, v, ty): return v if ty is None else self.coerce(v, ty, None)
    def global_cell(self, name, e, sc):
        d = self.globals_ast.get(name)
        if d is None: self.err(e, "unknown variable " + name)
        if name not in self.gscope.f:
            self.gscope.f[name] = self.zero(d.ty) if d.init is None else self.coerce_const(self.ev(d.init, self.gscope), d.ty)
        return self.gscope
    # ---- statements
    def s_defvar(self, n, sc):
        vals = self.rvalues(n.r, len(n.l), sc, n)
        for l, v in zip(n.l, vals):
            if l.id == "_": continue
            if isinstance(v, Num) and v.ty == "int": v = Num(v.lin, "i64")
            if isinstance(v, Num) and v.ty == "float": v = Num(v.lin, "f64")
            if l.id in sc.f and len(n.l) > 1: self.store(("cell", sc.f, l.id), self.copyval(v), n)
            else: self.declare(sc, l.id, self.copyval(v))
    def rvalues(self, rs, n, sc, node):
        if len(rs) == 1 and n > 1:
            r = rs[0]
            if r.k == "tyassert": return self.ty_assert(r, sc)
            v = self.ev(r, sc)
            if isinstance(v, Tup) and len(v.els) == n: return v.els
            self.err(node, "multiple values from %r" % (v,))
        return [self.ev(r, sc) for r in rs]
    def ty_assert(self, r, sc):
        v = self.ev(r.e, sc)
        if isinstance(v, Opq) and v.tag == "reader":
            return [v, Bool(Cond("op", ("seeker",)))]
        self.err(r, "type assertion")
    def e_tyassert(self, e, sc): return self.ty_assert(e, sc)[0]
    def s_masg(self, n, sc):
        vals = [self.copyval(v) for v in self.rvalues(n.r, len(n.l), sc, n)]
        for l, v in zip(n.l, vals):
            if l.k == "name" and l.id == "_": continue
            self.store(self.loc(l, sc), v, n)
    def s_multivar(self, n, sc):
        v = self.ev(n.init, sc)
        for nm, x in zip(n.names, v.els): 
            if nm != "_": self.declare(sc, nm, self.copyval(x))
    def l_name(self, e, sc):
        if e.id == "_": return ("drop",)
        return Interp.l_name(self, e, sc)
    def s_var(self, n, sc):
        if n.init is None: v = self.zero(n.ty)
        else:
            v = self.copyval(self.ev(n.init, sc))
            if n.ty is not None: v = self.coerce(v, n.ty, n)
            elif isinstance(v, Num) and v.ty == "int": v = Num(v.lin, "i64")
        if n.name != "_": self.declare(sc, n.name, v)
    def s_ret(self, n, sc):
        if n.e is None: raise RetX(None)
        if n.e.k == "tuple": raise RetX(Tup([self.copyval(self.ev(x, sc)) for x in n.e.elems]))
        raise RetX(self.copyval(self.ev(n.e, sc)))
    def ret_value(self, fn, r, s):
        ret = getattr(fn, "ret", None)
        if r is None and ret is not None and ret[0] == "tuple" and any(n for n, _ in ret[1]):
            vals = [s.f[n] for n, _ in ret[1]]
            return vals[0] if len(vals) == 1 else Tup(vals)
        if ret is not None and ret[0] == "tuple" and isinstance(r, Tup):
            return Tup([self.coerce(v, t, fn) for v, (_, t) in zip(r.els, ret[1])])
        if ret is not None and ret[0] != "tuple" and r is not None: return self.coerce(r, ret, fn)
        return r
    def bind_params(self, s, fn, args):
        Interp.bind_params(self, s, fn, args)
        ret = getattr(fn, "ret", None)
        if ret is not None and ret[0] == "tuple":
            for n, t in ret[1]:
                if n: s.f[n] = self.zero(t)
    def s_defer(self, n, sc):
        fs = self.fnscope(sc)
        fs.defers.append(lambda err, n=n, sc=sc: self.stmt(n.body, sc))
    def s_foreach(self, n, sc):
        it = self.ev(n.iter, sc)
        if isinstance(it, Ref): it = self.load(it.loc, n)
        if isinstance(it, Num):
            def bind(s, ix):
                v = n.var if n.idx is None else n.idx
                for nm in (n.idx, n.var):
                    if nm and nm != "_": s.f[nm] = Num(ix, it.ty)
            return self.foreach(n, sc, it.lin, bind)
        if not isinstance(it, ListV): self.err(n, "range over %r" % (it,))
        def bind(s, ix):
            if n.idx and n.idx != "_": s.f[n.idx] = Num(ix, "i64")
            if n.var and n.var != "_": s.f[n.var] = self.copyval(self.list_get(it, ix, n))
        self.foreach(n, sc, it.length(), bind)
    def s_switch(self, n, sc):
        if n.e is not None and n.e.k == "tyassert": self.err(n, "type switch")
        return Interp.s_switch(self, n, sc)
    # ---- expressions
    def e_tyref(self, e, sc): return TypeV(e.ty)
    def e_tuple(self, e, sc): return Tup([self.ev(x, sc) for x in e.elems])
    def unop(self, op, v, e, sc):
        if op == "*":
            if isinstance(v, Ref): return self.load(v.loc, e)
            if v is NIL: self.note("C09", "nil pointer dereferenced"); raise PathEnd("noted")
        self.err(e, "operator " + op)
    def e_un(self, e, sc):
        if e.op == "&":
            if e.e.k in ("slit", "alit"): return Ref(("val", self.ev(e.e, sc)), None)
            loc = self.loc(e.e, sc)
            return Ref(loc, None)
        if e.op == "^":
            v = self.ev(e.e, sc); return Num(Lin(-1) - self.num(v), v.ty)
        return Interp.e_un(self, e, sc)
    def l_un(self, e, sc):
        if e.op == "*":
            v = self.ev(e.e, sc)
            if isinstance(v, Ref): return v.loc
        self.err(e, "assignment target")
    def store(self, t, v, e):
        if t[0] == "val":
            o = t[1]
            if isinstance(o, Obj) and isinstance(v, Obj):
                for k, x in self.copyval(v).f.items(): self.ctx.set(o.f, k, x)
                return
            self.err(e, "store through pointer")
        return Interp.store(self, t, v, e)
    def deref_obj(self, v, e):
        while isinstance(v, Ref): v = self.load(v.loc, e)
        return v
    def l_mem(self, e, sc):
        o = self.deref_obj(self.ev_place(e.o, sc), e)
        if isinstance(o, Obj): return ("cell", o.f, e.f)
        if o is NIL: self.note("C09", "field of nil"); raise PathEnd("noted")
        self.err(e, "field of %r" % (o,))
    def ev_place(self, e, sc):
        """evaluate without copying, materialising list elements"""
        if e.k in ("mem", "idx") and not self.is_pkg(e, sc): return self.load(self.loc(e, sc), e)
        return self.ev(e, sc)
    def is_pkg(self, e, sc): return e.k == "mem" and e.o.k == "name" and sc.find(e.o.id) is None and e.o.id not in self.globals_ast and e.o.id not in self.structs
    def l_idx(self, e, sc):
        l = self.deref_obj(self.ev_place(e.o, sc), e)
        i = self.num(self.ev(e.i, sc), e)
        if isinstance(l, ListV): return ("elem", l, i)
        self.err(e, "index into %r" % (l,))
    def l_slit(self, e, sc): return ("val", self.ev(e, sc))
    def e_mem(self, e, sc):
        if self.is_pkg(e, sc): return Opq("pkg", e.o.id + "." + e.f)
        o = self.deref_obj(self.ev_place(e.o, sc), e)
        if isinstance(o, Obj):
            if e.f in o.f: return self.read_cell(o.f, e.f, e)
            m = self.methods.get((o.cls, e.f))
            if m is not None: return FnV(m, o)
        if isinstance(o, AbsMsg): return Opq("amethod", o, e.f)
        if isinstance(o, (Opq, ErrV)): return Opq("method", o, e.f)
        if o is NIL: self.note("C09", "field of nil"); raise PathEnd("noted")
        self.err(e, "member %s of %r" % (e.f, o))
    def e_idx(self, e, sc):
        l = self.deref_obj(self.ev(e.o, sc), e)
        if isinstance(l, ListV): return self.list_get(l, self.num(self.ev(e.i, sc), e), e)
        if isinstance(l, Str) and l.kind == "rd":
            i = self.num(self.ev(e.i, sc), e)
            return self.rd(l.off + i, 1, "u")
        if isinstance(l, Str) and l.kind == "lit":
            i = self.num(self.ev(e.i, sc), e)
            if i.is_const() and 0 <= i.c < len(l.val): return Num(l.val.encode()[i.c], "u8")
        self.err(e, "index into %r" % (l,))
    def index_oob(self, l, i, e):
        self.note("C09", "index %r not proven inside a list of %r elements: may panic" % (i, l.length()))
        raise PathEnd("noted")
    def e_slice(self, e, sc):
        l = self.deref_obj(self.ev(e.o, sc), e)
        lo = Lin(0) if e.lo is None else self.num(self.ev(e.lo, sc), e)
        if isinstance(l, ListV):
            hi = l.length() if e.hi is None else self.num(self.ev(e.hi, sc), e)
            if lo == Lin(0) and hi == l.length(): return l
            if not (self.ctx.entails_ge(lo) and self.ctx.entails_ge(hi - lo) and self.ctx.entails_ge(l.length() - hi)): return self.index_oob(l, hi, e)
            if len(l.segs) == 1 and l.segs[0][0] == "bulk":
                s = l.segs[0]; return self.mklist((("bulk", hi - lo, s[2] + lo.scale(s[3]), s[3], s[4]),), l.ty)
            if len(l.segs) == 1 and l.segs[0][0] == "fill":
                v = Opq("subslice", l, lo, hi); return v
            if hi == lo: return self.mklist((), l.ty)
            if lo.is_const() and (hi - lo).is_const() and (hi - lo).c <= 64: return Opq("subslice", l, lo, hi)
        if isinstance(l, Str):
            n = self.str_ulen(l); hi = n if e.hi is None else self.num(self.ev(e.hi, sc), e)
            if lo == Lin(0) and self.ctx.decide(c_eq(hi - n)) is True: return l
            if not (self.ctx.entails_ge(lo) and self.ctx.entails_ge(hi - lo) and self.ctx.entails_ge(n - hi)):
                self.note("C09", "slice of a text not proven inside it: may panic")
            if l.kind == "rd": return Str("rd", None, l.off + lo, hi - lo)
            if l.kind == "lit" and lo.is_const() and hi.is_const(): return Str("lit", l.val.encode()[lo.c:hi.c].decode("latin-1"))
            return Str("alt", ("slice", l.key(), lo.key, hi.key))
        if isinstance(l, Opq) and l.tag == "subslice":
            hi = l.a[2] - l.a[1] if e.hi is None else self.num(self.ev(e.hi, sc), e)
            if not (self.ctx.entails_ge(lo) and self.ctx.entails_ge(hi - lo) and self.ctx.entails_ge(l.a[2] - l.a[1] - hi)): return self.index_oob(l.a[0], hi, e)
            return Opq("subslice", l.a[0], l.a[1] + lo, l.a[1] + hi)
        self.err(e, "slice of %r" % (l,))
    def e_slit(self, e, sc):
        t = self.resolve(e.ty)
        if t[0] == "name" and t[1] in self.structs:
            o = self.zero(t); fl = self.structs[t[1]].fields; ftypes = dict(fl)
            for k, v in e.fields: o.f[k] = self.coerce(self.copyval(self.ev_el(v, ftypes.get(k), sc)), ftypes.get(k), e)
            for (k, ty), v in zip(fl, getattr(e, "pos", None) or []): o.f[k] = self.coerce(self.copyval(self.ev_el(v, ty, sc)), ty, e)
            return o
        self.err(e, "composite literal")
    def ev_el(self, e, ty, sc):
        if e.k == "slit" and e.ty is None: e = N("slit", e.line, ty=ty, fields=e.fields, pos=getattr(e, "pos", []))
        return self.ev(e, sc)
    def e_alit(self, e, sc):
        t = self.resolve(e.ty); el = t[1] if t[0] == "slice" else t[2]
        return self.mklist(tuple(("one", self.coerce(self.copyval(self.ev_el(x, el, sc)), el, e)) for x in e.elems), el)
    def e_maplit(self, e, sc): self.err(e, "map literal")
    def e_lam(self, e, sc):
        f = N("fn", e.line, name="lambda", params=e.params, body=e.body, ret=e.ret, cls=None)
        return FnV(f, None, sc)
    def equal(self, a, b, n):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and x.tag == "pkg":
                if x.a[0] in ("io.EOF", "io.ErrUnexpectedEOF"):
                    if isinstance(y, ErrV): return T if y.kind == x.a[0] else F
                    if y is NIL: return F
                self.err(n, "comparison with %s" % x.a[0])
        if (a is NIL or b is NIL):
            o = b if a is NIL else a
            if isinstance(o, ErrV): return F
            if isinstance(o, Ref) or isinstance(o, Obj): return F
            if isinstance(o, ListV): return c_eq(o.length())
        return Interp.equal(self, a, b, n)
    def arith(self, op, a, b, n):
        if op == "+" and isinstance(a, Str) and isinstance(b, Str): 
            if a.kind == "lit" and b.kind == "lit": return Str("lit", a.val + b.val)
            return Opq("concat", a, b)
        return Interp.arith(self, op, a, b, n)
    # ---- calls
    def e_call(self, e, sc):
        f = e.f
        ty = self.type_of_expr(f) if not (f.k == "name" and sc.find(f.id) is not None) else None
        if ty is not None: return self.convert(self.ev(e.args[0][1], sc), ty, e)
        if f.k == "name" and sc.find(f.id) is None and f.id not in self.funcs:
            return self.builtin(f.id, e, sc)
        if f.k == "mem" and self.is_pkg(f, sc): return self.pkg_call(f.o.id + "." + f.f, e, sc)
        fv = self.ev(f, sc)
        if isinstance(fv, Opq) and fv.tag == "pkg": return self.pkg_call(fv.a[0], e, sc)
        if isinstance(fv, Opq) and fv.tag == "method": return self.opaque_method(fv.a[0], fv.a[1], [self.ev(a, sc) for _, a in e.args], e)
        if isinstance(fv, Opq) and fv.tag == "amethod": return self.abs_method(fv.a[0], fv.a[1], [self.ev(a, sc) for _, a in e.args], e)
        if isinstance(fv, FnV):
            args = [self.ev(a, sc) for _, a in e.args]
            if len(args) == 1 and isinstance(args[0], Tup) and len(fv.fn.params) > 1: args = args[0].els
            return self.invoke(fv.fn, args, fv.this, fv.env)
        self.err(e, "call of %r" % (fv,))
    def bind_this(self, s, fn, this):
        if this is not None and getattr(fn, "recv", None):
            s.f[fn.recv] = this if getattr(fn, "ptrrecv", False) else self.copyval(this)
            if getattr(fn, "ptrrecv", False): s.f[fn.recv] = Ref(("val", this), None)
    def convert(self, v, ty, e):
        t = self.resolve(ty)
        if t[0] == "name":
            if t[1] in GOINT: return self.conv(v, GOINT[t[1]])
            if t[1] == "string":
                if isinstance(v, Str): return v
                if isinstance(v, ListV): return self.text_of(v, e)
            if t[1] == "bool": return v
            if t[1] in self.structs or t[1] in self.ifaces or t[1] in ("error", "any"): return v
        if t[0] == "slice":
            if isinstance(v, Str) and t[1] in (("name", "rune"), ("name", "int32")): return Opq("runes", v)
            if isinstance(v, Str): return self.bytes_of(v)
            if isinstance(v, ListV): return v
        if t[0] == "ptr": return v
        self.err(e, "conversion to %r" % (t,))
    def text_of(self, v, e):
        if len(v.segs) == 1 and v.segs[0][0] == "bulk" and v.segs[0][3] == 1: return Str("rd", None, v.segs[0][2], v.segs[0][1])
        if not v.segs or self.ctx.decide(c_eq(v.length())) is True: return Str("lit", "")
        if len(v.segs) == 1 and v.segs[0][0] == "utf8": return v.segs[0][2]
        return Opq("text", v)
    def runes(self, s): return Lin.of(sym(("runes", s.key()), 0)) if s.kind != "lit" else Lin(len(s.val))
    def bytes_of(self, s): return Bytes(("utf8", s), self.str_ulen(s))
    def length_of(self, v, e):
        v = self.deref_obj(v, e)
        if isinstance(v, Str): return self.str_ulen(v)
        if isinstance(v, Bytes): return v.ln
        if isinstance(v, ListV): return v.length()
        if v is NIL: return Lin(0)
        if isinstance(v, Opq) and v.tag == "subslice": return v.a[2] - v.a[1]
        if isinstance(v, Opq) and v.tag == "runes": return self.runes(v.a[0])
        self.err(e, "len of %r" % (v,))
    def builtin(self, nm, e, sc):
        args = [a for _, a in e.args]
        if nm == "len" or nm == "cap": return Num(self.length_of(self.ev(args[0], sc), e), "i64")
        if nm == "make":
            ty = self.resolve(self.type_of_expr(args[0]) or args[0].ty)
            n = self.num(self.ev(args[1], sc), e) if len(args) > 1 else Lin(0)
            if not self.ctx.entails_ge(n):
                if not self.ctx.branch(c_ge(n)):
                    self.note("C09", "make with a length that may be negative (%r): panics" % n); raise PathEnd("noted")
            if len(args) > 2:
                c = self.num(self.ev(args[2], sc), e)
                if not self.ctx.entails_ge(c) and not self.ctx.branch(c_ge(c)): self.note("C09", "make with a capacity that may be negative: panics"); raise PathEnd("noted")
            return self.mklist((("fill", n, self.zero(ty[1])),) if n != Lin(0) else (), ty[1])
        if nm == "append":
            l = self.ev(args[0], sc)
            if l is NIL: l = self.mklist((), None)
            for i, a in enumerate(args[1:]):
                v = self.copyval(self.ev(a, sc))
                if e.args[i+1][0] == "...":
                    if isinstance(v, ListV): self.list_concat(l, v); continue
                    self.err(e, "append of %r" % (v,))
                self.list_push(l, v)
            return l
        if nm == "new":
            ty = self.type_of_expr(args[0])
            return Ref(("val", self.zero(ty)), ty) if isinstance(self.zero(ty), Obj) else Ref(("cell", Cells(self.ctx, {"v": self.zero(ty)}), "v"), ty)
        if nm == "panic":
            for a in args: self.ev(a, sc)
            raise PathEnd("panic", "explicit panic", e)
        if nm == "copy":
            d, s = self.ev(args[0], sc), self.ev(args[1], sc)
            if isinstance(s, Str):
                if s.kind != "lit": self.err(e, "copy of text")
                b = [Num(x, "u8") for x in s.val.encode()]
            else:
                l, lo, n = self.byte_run(s, e)
                if not n.is_const() or n.c > 64: self.err(e, "copy of a list of variable length")
                b = [self.list_get(l, lo + j, e) for j in range(n.c)]
            l, lo, n = self.byte_run(d, e)
            if not n.is_const(): self.err(e, "copy into a list of variable length")
            b = b[:n.c]
            for j, x in enumerate(b): self.list_set(l, lo + j, x, e)
            return Num(len(b), "i64")
        if nm in ("min", "max"):
            a, b = self.num(self.ev(args[0], sc)), self.num(self.ev(args[1], sc))
            return Num(a if self.ctx.branch(c_ge((b - a) if nm == "min" else (a - b))) else b, "i64")
        self.err(e, "call of " + nm)
    def e_lit(self, e, sc):
        return Interp.e_lit(self, e, sc)
    # ---- library model
    def start_io(self):
        self.io = Cells(self.ctx, {"pos": Num(P0), "out": Num(W0)})
    def errv(self, k): return ErrV(k)
    def take(self, n, e):
        """consume n input bytes: None when they are there, else the error"""
        ctx = self.ctx; pos = self.io["pos"].lin; n = Lin.of(n)
        if n == Lin(0): return None
        ctx.count("reads")
        if ctx.branch(c_ge(Lin.of(LEN) - pos - n)):
            ctx.set(self.io, "pos", Num(pos + n)); return None
        none = ctx.branch(c_ge(pos - LEN))
        if ctx.decide(c_ge(n - 1)) is not True:
            if not ctx.branch(c_ge(n - 1)): raise PathEnd("infeasible")
        ctx.set(self.io, "pos", Num(LEN))
        return self.errv("io.EOF" if none else "io.ErrUnexpectedEOF")
    def fixed(self, ty):
        """static wire size of a type for encoding/binary, None when not fixed"""
        t = self.resolve(ty)
        if t is None: return None
        if t[0] == "name":
            if t[1] in ("int", "uint", "uintptr"): return None
            if t[1] in GOINT: return WIDTH[GOINT[t[1]]]
            if t[1] == "bool": return 1
            if t[1] in self.structs:
                n = 0
                for _, x in self.structs[t[1]].fields:
                    f = self.fixed(x)
                    if f is None: return None
                    n += f
                return n
        if t[0] == "arr":
            f = self.fixed(t[2]); k = self.num(self.ev(t[1], self.gscope))
            return None if f is None or not k.is_const() else f * k.c
        return None
    def decode_as(self, ty, off, order):
        t = self.resolve(ty)
        if t[1] == "bool": return Bool(c_not(c_eq(self.rd(off, 1, "u").lin))), 1
        if t[1] in GOINT:
            g = GOINT[t[1]]; w = WIDTH[g]
            v = self.rd(off, w, "f" if g[0] == "f" else "u" if g[0] == "u" else "s")
            if order != "le" and w > 1: v = Num(sym(("rdbe",) + v.lin.one()[0].key[1:], v.lin.one()[0].lo, v.lin.one()[0].hi), v.ty)
            return v, w
        o = Obj(self.ctx, t[1], {}, "val"); n = 0
        for k, x in self.structs[t[1]].fields:
            v, w = self.decode_as(x, Lin.of(off) + n, order); o.f[k] = v; n += w
        return o, n
    def static_ty(self, loc, e):
        v = self.load(loc, e)
        if loc[0] == "cell" and loc[1].owner is not None and isinstance(loc[1].owner, Obj):
            return dict(self.structs[loc[1].owner.cls].fields).get(loc[2])
        if loc[0] == "elem" and loc[1].ty is not None: return loc[1].ty
        return self.ty_of(v)
    def order(self, v, e):
        if isinstance(v, Opq) and v.tag == "pkg" and v.a[0] in ORDERS: return ORDERS[v.a[0]]
        self.err(e, "byte order %r" % (v,))
    def bin_read(self, args, e):
        order = self.order(args[1], e); p = args[2]
        if isinstance(p, Ref):
            tgt = self.load(p.loc, e)
            if isinstance(tgt, ListV): return self.fill_read(tgt, order, e)
            ty = self.static_ty(p.loc, e); n = self.fixed(ty)
            if n is None:
                return self.errv("invalid")          # not a fixed-size type: always fails
            pos = self.io["pos"].lin
            er = self.take(n, e)
            if er is not None: return er
            v, _ = self.decode_as(ty, pos, order)
            if p.loc[0] == "val": self.store(p.loc, v, e)
            else: self.store(p.loc, v, e)
            return NIL
        if isinstance(p, ListV): return self.fill_read(p, order, e)
        if isinstance(p, Opq) and p.tag == "subslice":
            l = p.a[0]; t = self.mklist((("fill", p.a[2] - p.a[1], self.zero(l.ty)),), l.ty); r = self.fill_read(t, order, e)
            if r is NIL:
                for j in range((p.a[2] - p.a[1]).c): self.list_set(l, p.a[1] + j, self.list_get(t, Lin(j), e), e)
            return r
        return self.errv("invalid")
    def fill_read(self, l, order, e):
        n = l.length(); ty = l.ty
        t = self.resolve(ty)
        w = self.fixed(ty)
        if w is None: return self.errv("invalid")
        pos = self.io["pos"].lin
        if self.ctx.decide(c_eq(n)) is True: return NIL
        er = self.take(n.scale(w), e)
        if er is not None: return er
        if t[0] == "name" and t[1] in GOINT:
            g = GOINT[t[1]]
            if order == "be" and w > 1: self.ctx.set(l.f, "segs", (("hist", n, ("be", pos.key)),)); return NIL
            self.ctx.set(l.f, "segs", (("bulk", n, pos, w, "f" if g[0] == "f" else "u" if g[0] == "u" else "s"),)); return NIL
        ix = sym(("ix", n.key), 0)
        v, _ = self.decode_as(ty, pos + Lin.of(ix).scale(w), order)
        self.ctx.set(l.f, "segs", (("loop", n, ix, v),))
        return NIL
    def put(self, width, kind, lin):
        out = self.io["out"].lin
        self.emit(out, width, kind, lin)
        self.ctx.set(self.io, "out", Num(out + width))
    def put_text(self, s):
        out = self.io["out"].lin
        self.emit_text(out, s)
        self.ctx.set(self.io, "out", Num(out + self.str_ulen(s)))
    def bin_write(self, order, v, ty, e):
        if isinstance(v, Ref):
            ty = self.static_ty(v.loc, e); v = self.load(v.loc, e)
        if isinstance(v, ListV):
            n = v.length(); el = v.ty
            if isinstance(el, tuple) and el[0] in ("num", "enum", "struct"): self.err(e, "bulk write")
            if len(v.segs) == 1 and v.segs[0][0] == "in": return self.bulk_write(order, v, e)
            for s in v.segs:
                if s[0] == "one": self.bin_write(order, s[1], None, e)
                else: self.err(e, "write of %r" % (v,))
            return
        if isinstance(v, Bool): return self.put(1, "i", self.b2i(v))
        if isinstance(v, Num):
            if v.ty == "int" or ty in (("name", "int"), ("name", "uint")): return           # encoding/binary rejects values without a fixed size
            if v.ty not in WIDTH: self.err(e, "write of %r" % (v,))
            return self.put(WIDTH[v.ty], ("f" if v.ty[0] == "f" else "i") if order == "le" or WIDTH[v.ty] == 1 else "be", v.lin)
        if isinstance(v, Obj):
            if self.fixed(("name", v.cls)) is None: return
            for k, x in self.structs[v.cls].fields: self.bin_write(order, v.f[k], x, e)
            return
        if isinstance(v, Bytes) and v.src[0] == "utf8": return self.put_text(v.src[1])
        if isinstance(v, Str): return                 # not a fixed-size value: nothing is written
        self.err(e, "write of %r" % (v,))
    def bulk_write(self, order, v, e):
        def bind(s, ix): s.f["$el"] = self.list_get(v, ix, e)
        def body(s): self.bin_write(order, s.f["$el"], None, e)
        self.foreach(e, self.gscope, v.length(), bind, body)
    def pkg_call(self, nm, e, sc):
        args = [self.ev(a, sc) for _, a in e.args]
        if nm == "binary.Read": return self.bin_read(args, e)
        if nm == "binary.Write":
            a = e.args[2][1]; ty = None
            v = args[2]
            if isinstance(v, Num) and v.ty == "i64" and a.k == "call" and a.f.k == "name" and a.f.id in ("len", "int"): ty = ("name", "int")
            if isinstance(v, Num) and a.k == "name" and self.int_var(a.id, sc): ty = ("name", "int")
            self.bin_write(self.order(args[1], e), v, ty, e); return NIL
        if nm == "io.WriteString":
            v = args[1]
            if isinstance(v, Str): self.put_text(v); return Tup([Num(self.str_ulen(v), "i64"), NIL])
            self.err(e, "io.WriteString of %r" % (v,))
        if nm in ("io.ReadFull", "io.ReadAtLeast"):
            l = args[1]
            if nm == "io.ReadAtLeast" and self.ctx.decide(c_eq(self.num(args[2], e) - self.length_of(l, e))) is not True: self.err(e, "io.ReadAtLeast of less than the buffer")
            if isinstance(l, Opq) and l.tag == "subslice":
                t = self.mklist((("fill", l.a[2] - l.a[1], Num(0, "u8")),), ("name", "byte"))
                r = self.fill_read(t, "le", e)
                if r is NIL:
                    for j in range((l.a[2] - l.a[1]).c): self.list_set(l.a[0], l.a[1] + j, self.list_get(t, Lin(j), e), e)
                return Tup([Num(t.length(), "i64"), r])
            if isinstance(l, ListV):
                r = self.fill_read(l, "le", e); return Tup([Num(l.length(), "i64"), r])
        if nm in ("fmt.Errorf", "errors.New"): return self.errv("wrapped")
        if nm in ("fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"): return Opq("text")
        if nm.startswith("strings.") and args and isinstance(args[0], Str):
            if nm == "strings.Clone": return args[0]
            t = self.text_op(args[0], nm[8:], args[1:])
            if t is not None: return t
        if nm == "utf8.RuneCountInString" and isinstance(args[0], Str): return Num(self.runes(args[0]), "i64")
        if nm.startswith("fmt.Print") or nm.startswith("log."): return NIL
        if nm == "errors.Is":
            a, b = args
            if isinstance(b, Opq) and isinstance(a, ErrV): return Bool(T if a.kind == b.a[0] else F) if a.kind != "wrapped" else Bool(Cond("op", ("errors.Is", b.a[0])))
            return Bool(F)
        if nm in ("math.Float32bits", "math.Float64bits"): return Num(sym(("fbits", self.num(args[0]).key)), "u32" if "32" in nm else "u64")
        self.err(e, "library call " + nm)
    def int_var(self, name, sc): return False
    def opaque_method(self, o, name, args, e):
        if isinstance(o, Opq) and o.tag == "pkg" and o.a[0] in ORDERS:
            return self.order_method(ORDERS[o.a[0]], name, args, e)
        if name == "Error": return Opq("text")
        if isinstance(o, Opq) and o.tag == "reader":
            if name == "Seek": return Tup([Num(sym(("seekpos",), 0), "i64"), NIL])
            if name == "Write":
                v = args[0]
                if isinstance(v, Bytes) and v.src[0] == "utf8": self.put_text(v.src[1]); return Tup([Num(v.ln, "i64"), NIL])
                l, lo, n = self.byte_run(v, e)
                if n.is_const() and n.c <= 64: self.put_bytes([self.list_get(l, lo + i, e) for i in range(n.c)], e)
                else: self.bulk_write("le", l if lo == Lin(0) and n == l.length() else self.err(e, "write of a part of a list"), e)
                return Tup([Num(n, "i64"), NIL])
            if name == "Read":
                l = args[0]          # may deliver fewer bytes than asked for
                self.note("C09", "Read result used without io.ReadFull: a short read goes unnoticed"); raise PathEnd("noted")
        self.err(e, "method %s of %r" % (name, o))
    # byte slices used as scratch space
    def byte_run(self, v, e):
        """(list, first index, count) of a byte slice"""
        if isinstance(v, Opq) and v.tag == "subslice": return v.a[0], v.a[1], v.a[2] - v.a[1]
        if isinstance(v, ListV): return v, Lin(0), v.length()
        self.err(e, "byte slice expected, got %r" % (v,))
    def byte_of(self, lin, k, w):
        if lin.is_const() and isinstance(lin.c, int): return Num((lin.c >> (8 * k)) & 255, "u8")
        return Num(sym(("byteof", lin.key, k, w), 0, 255), "u8")
    def put_bytes(self, vals, e):
        """bytes one after the other; the bytes of one value in order are that value"""
        i = 0
        while i < len(vals):
            k = self.byte_key(vals[i])
            if k is not None and k[1] == 0 and i + k[2] <= len(vals) and all(self.byte_key(vals[i + j]) == (k[0], j, k[2]) for j in range(k[2])):
                self.put(k[2], "i", Lin(k[0][0], dict(k[0][1]))); i += k[2]
            else: self.put(1, "i", self.num(vals[i], e)); i += 1
    def byte_key(self, v):
        o = v.lin.one() if isinstance(v, Num) else None
        if o and o[1:] == (1, 0) and isinstance(o[0].key, tuple) and o[0].key[0] == "byteof": return o[0].key[1:]
        return None
    def order_method(self, order, name, args, e):
        w = next((x for x in (2, 4, 8) if name.endswith("Uint%d" % (8 * x))), None)
        if w is None: self.err(e, "byte order method " + name)
        if name.startswith("Append"):
            l = args[0]
            if l is NIL: l = self.mklist((), ("name", "byte"))
            v = self.num(args[1], e)
            for j in range(w): self.list_push(l, self.byte_of(v, j if order == "le" else w - 1 - j, w))
            return l
        l, lo, n = self.byte_run(args[0], e)
        if not self.ctx.entails_ge(n - w): return self.index_oob(l, lo + w, e)
        if name.startswith("Put"):
            v = self.num(args[1], e)
            for j in range(w): self.list_set(l, lo + j, self.byte_of(v, j if order == "le" else w - 1 - j, w), e)
            return NIL
        x = Lin(0)
        for j in range(w): x = x + self.num(self.list_get(l, lo + (j if order == "le" else w - 1 - j), e), e).scale(1 << (8 * j))
        return Num(self.joined(x), "u%d" % (8 * w))
    def abs_method(self, m, name, args, e):
        n = norm(name)
        if n == "getsizeinbytes": return Num(m.size(), "i64")
        if n == "getmessagetype": return Num(m.which, "u8")
        if n == "writebytes":
            t = args[1]
            tag = self.ctx.decide(t.c) if isinstance(t, Bool) else None
            out = self.io["out"].lin
            self.ctx.events.append(("msg", out, m.path, tag, m.size()))
            self.ctx.set(self.io, "out", Num(out + m.size() + (1 if tag else 0)))
            return NIL
        self.err(e, "method %s of a message" % name)
    # ---- tasks
    def start(self, ctx):
        Interp.start(self, ctx); self.start_io()
    def outcome_of(self, r): pass
    def guard(self, f):
        try: return f()
        except PathEnd as p:
            if p.why == "panic": return ("err", "panic: " + str(p.detail))
            raise
    def run_reader(self, ctx, T):
        fn = self.fn(T + "FromBytes")
        def go():
            r = self.invoke(fn, [Opq("reader")])
            if not isinstance(r, Tup) or len(r.els) != 2: raise AnalysisError("go: reader of %s returns %r" % (T, r))
            if r.els[1] is not NIL: return ("err", "clean", repr(r.els[1]))
            v = self.deref_obj(r.els[0], None)
            return ("ok", v, self.io["pos"].lin)
        return self.guard(go)
    def run_writer(self, ctx, T, tagged):
        m = self.methods[(self.type_name(T), "WriteBytes")]
        o = self.in_value(("struct", T), (T,))
        self.invoke(m, [Opq("reader"), Bool(T_ if tagged else F_)], o)
        return ("ok", self.io["out"].lin)
    def run_size(self, ctx, T):
        m = self.methods[(self.type_name(T), "GetSizeInBytes")]
        return ("ok", self.num(self.invoke(m, [], self.in_value(("struct", T), (T,)))))
    # streams and envelopes
    def reader_of(self, fn):
        if not hasattr(self, "_rd"): self._rd = {id(self.fn(T + "FromBytes")): T for T in self.schema.messages}
        return self._rd.get(id(fn))
    def summary_call(self, T, fn, args, this):
        ok, end = self.read_summary(T, self.io["pos"].lin)
        if not ok: return Tup([NIL, self.errv("wrapped")])
        v = MsgV(T, self.io["pos"].lin)
        self.ctx.set(self.io, "pos", Num(end))
        return Tup([v, NIL])
    def message_of(self, v):
        while isinstance(v, Ref): v = self.load(v.loc, None)
        return v
    def pair(self, r):
        if not isinstance(r, Tup): raise AnalysisError("go: (list, error) expected")
        if r.els[1] is not NIL: return ("err", "clean", repr(r.els[1]))
        return ("ok", self.mklist((), None) if r.els[0] is NIL else r.els[0])
    def run_process(self, ctx, mx):
        return self.guard(lambda: self.pair(self.invoke(self.fn("ProcessRawBytes"), [Opq("reader"), Num(mx, "i64")])))
    def run_unpack(self, ctx): return self.guard(lambda: self.pair(self.invoke(self.fn("UnpackMessages"), [Opq("reader")])))
    def msgs(self, ctx):
        N, mk = msg_list(self, ctx)
        return self.mklist((("in", ("msgs",), N, mk),), None)
    def run_pack(self, ctx):
        self.invoke(self.fn("PackMessages"), [self.msgs(ctx), Opq("reader")]); return ("ok", self.io["out"].lin)
    def run_packed_size(self, ctx): return ("ok", self.num(self.invoke(self.fn("GetPackedSize"), [self.msgs(ctx)])))
    def run_type(self, ctx, T):
        m = self.methods[(self.type_name(T), "GetMessageType")]
        return ("ok", self.num(self.invoke(m, [], self.in_value(("struct", T), (T,)))))
    def type_constants(self):
        out = {}
        self.start(Ctx())
        for n, d in self.globals_ast.items():
            if d.const and d.ty == ("name", "MessageType") and norm(n).endswith("type"):
                out[norm(n)[:-4]] = self.num(self.global_name(n, N("name", 0, id=n), self.gscope)).c
        return out
    # declarations
    rename = True
    def fields(self, T): return [(n, ty) for n, ty in self.structs[self.type_name(T)].fields]
    def name_ok(self, declared, got): return got == (declared[0].upper() + declared[1:] if self.rename else declared)
    def type_ok(self, ty, k):
        if k[0] == "list": return ty[0] == "slice" and self.type_ok(ty[1], k[1])
        if ty[0] != "name": return False
        if k[0] == "str": return ty[1] == "string"
        if k[0] == "num": return ty[1] == "bool" if k[1] == "bool" else GOINT.get(ty[1]) == self.native(k[1])
        if k[0] == "enum": return ty[1] in self.newtypes and norm(ty[1]) == norm(k[1])
        return ty[1] in self.structs and norm(ty[1]) == norm(k[1])
    def enum_name_ok(self, e, declared, got):
        return norm(got) == norm(e + declared)
    def enum_decl(self, e):
        tn = next((n for n in self.newtypes if norm(n) == norm(e)), None)
        if tn is None: return None, None
        self.start(Ctx()); out = []
        for n, d in self.globals_ast.items():
            if d.const and d.ty == ("name", tn): out.append((n, self.num(self.global_name(n, N("name", 0, id=n), self.gscope)).c))
        return out, GOINT.get(self.newtypes[tn][1])
    def run_default(self, ctx, T, how):
        r = self.invoke(self.fn("New" + T + "Default"), [])
        return ("ok", self.deref_obj(r, None))
T_, F_ = T, F
def build(src, schema): return Go(parse_go.parse(src), schema)
