"""C: abstract semantics of the generated header with its implementation section; pointers to cells, elements of allocated blocks, the data buffer and message objects."""
from .model import *
from .mem import MemMixin
from . import parse_c

CT = {"char": "u8", "signed char": "i8", "unsigned char": "u8", "short": "i16", "unsigned short": "u16", "int": "i32", "signed": "i32", "unsigned": "u32", "signed int": "i32", "unsigned int": "u32",
      "long": "i64", "unsigned long": "usize", "long int": "i64", "unsigned long int": "usize", "long long": "i64", "unsigned long long": "u64", "size_t": "usize", "ssize_t": "isize", "ptrdiff_t": "isize", "uintptr_t": "usize", "intptr_t": "isize",
      "float": "f32", "double": "f64", "bool": "bool", "_Bool": "bool"}
for _b in (8, 16, 32, 64): CT["int%d_t" % _b] = "i%d" % _b; CT["uint%d_t" % _b] = "u%d" % _b
SIZE = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8}
VOID = Tup([])
class OPtr(V):
    """pointer to a struct object"""
    def __init__(self, o): self.o = o
    def __repr__(self): return "&" + digest(self.o)
    def parts(self): return (self.o,)
    def rebuild(self, go, ctx): return OPtr(go(self.o))
class LPtr(V):
    """pointer to a scalar place"""
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return "&%s" % (self.loc[2],)
    def parts(self): return ()
    def rebuild(self, go, ctx): return self
class Block(Own):
    """allocated memory: the elements stored so far, how many fit"""
    def __init__(self, ctx, ty, cap, size, heap=True):
        self.f = Cells(ctx, {"list": ListV(ctx), "cap": cap, "size": size, "ty": ty, "gen": Opq("gen", 0), "live": Bool(T)}, self); self.seq = self.f.seq; self.heap = heap; self.aid = None
class HPtr(V):
    def __init__(self, b, idx=0, gen=None): self.b = b; self.idx = Lin.of(idx); self.gen = b.f["gen"] if gen is None else gen
    def stale(self): return repr(self.gen) != repr(self.b.f["gen"])
    def __repr__(self): return "H<%s>(%r,%s%s)" % (self.b.f["ty"], self.idx, digest(self.b.f["list"]), ",stale" if self.stale() else "")
    def parts(self): return (Num(self.idx), self.b.f["list"], self.b.f["cap"])
    def rebuild(self, go, ctx):
        b = Block(ctx, self.b.f["ty"], go(self.b.f["cap"]), go(self.b.f["size"]), self.b.heap)
        b.f["list"] = go(self.b.f["list"]); b.f["live"] = self.b.f["live"]; b.aid = None if self.b.aid is None else (self.b.aid[0], tuple(go(Num(l)).lin for l in self.b.aid[1]))
        return HPtr(b, go(Num(self.idx)).lin)
class CSeq(V):
    """pointer, length and (for lists of strings) the element lengths, as one value"""
    def __init__(self, ptr, ln, els=None): self.ptr = ptr; self.ln = ln; self.els = els
    def __repr__(self): return "%r[%r]" % (self.ptr, self.ln)
    def parts(self): return (self.ptr, self.ln) + (() if self.els is None else (self.els,))
    def rebuild(self, go, ctx): return CSeq(go(self.ptr), go(self.ln), None if self.els is None else go(self.els))
PTRS = (OPtr, LPtr, HPtr, BufPtr, Str)

class C(MemMixin, Model):
    lang = "c"; checked_output = True; inductive = True; value_structs = True; cap = 1 << 48
    def __init__(self, decls, schema):
        Model.__init__(self, decls, schema); self.layout.cap = self.cap; self.in_defer = 0; self._so = {}; self.was_stale = None
    def index(self, decls, prefix=""):
        self.structs_all = []; self.typedefs = {}; self.enumc = {}
        for d in decls:
            if d.k == "fn": self.funcs.setdefault(d.name, d)
            elif d.k == "struct": self.structs_all.append(d.name); self.structs.setdefault(d.name, d)
            elif d.k == "enum": self.enums.setdefault(d.name, d)
            elif d.k == "typedef": self.typedefs.setdefault(d.name, d.ty)
            elif d.k == "var" and (d.init is not None or d.name not in self.globals_ast): self.globals_ast[d.name] = d
        for en, d in self.enums.items():
            prev = -1
            for n, x in d.values:
                prev = prev + 1 if x is None else self.const(x); self.enumc[n] = (en, prev)
        c = [n for n in self.funcs if n.endswith("_ProcessRawBytes")]
        if len(c) != 1: raise AnalysisError("c: stream reader not found")
        self.ns = c[0][:-len("_ProcessRawBytes")]
    def const(self, x):
        if x.k == "lit": return x.v
        if x.k == "un" and x.op == "-": return -self.const(x.e)
        if x.k == "paren": return self.const(x.e)
        if x.k == "name" and x.id in self.enumc: return self.enumc[x.id][1]
        if x.k == "cast": return self.const(x.e)
        if x.k == "bin" and x.op in ("+", "-", "*"): a, b = self.const(x.l), self.const(x.r); return a + b if x.op == "+" else a - b if x.op == "-" else a * b
        self.err(x, "constant expression")
    # ---- types
    def rty(self, ty):
        while ty is not None and ty[0] == "name" and ty[1] in self.typedefs and self.typedefs[ty[1]] != ty: ty = self.typedefs[ty[1]]
        return ty
    def prim(self, ty):
        ty = self.rty(ty)
        if ty is not None and ty[0] == "name":
            if ty[1] in CT: return CT[ty[1]]
            if ty[1] in self.enums: return "i32"
    def struct_of(self, ty):
        ty = self.rty(ty)
        return ty[1] if ty is not None and ty[0] == "name" and ty[1] in self.structs else None
    def layout_of(self, ty, e=None):
        """(size, alignment)"""
        ty = self.rty(ty)
        if ty[0] == "ptr": return 8, 8
        p = self.prim(ty)
        if p: return SIZE[p], SIZE[p]
        if ty[0] == "arr": s, a = self.layout_of(ty[2], e); return s * self.const(ty[1]), a
        s = self.struct_of(ty)
        if s:
            r = self._so.get(s)
            if r is None:
                off = 0; al = 1
                for n, t in self.structs[s].fields:
                    z, a = self.layout_of(t, e); off = -(-off // a) * a + z; al = max(al, a)
                r = self._so[s] = (-(-off // al) * al, al)
            return r
        self.err(e, "size of %r" % (ty,))
    def sizeof(self, ty, e=None): return self.layout_of(ty, e)[0]
    def uninit(self, ty):
        s = self.struct_of(ty)
        if s: return Obj(self.ctx, s, {n: self.uninit(t) for n, t in self.structs[s].fields}, "val")
        return UNINIT
    def zero(self, ty, e=None):
        s = self.struct_of(ty); p = self.prim(ty)
        if s: return Obj(self.ctx, s, {n: self.zero(t, e) for n, t in self.structs[s].fields}, "val")
        if p == "bool": return Bool(F)
        if p: return Num(0, p)
        if ty[0] == "ptr": return NULL
        self.err(e, "zero value of %r" % (ty,))
    # ---- arithmetic
    def promote(self, t):
        if t == "int" or t in ("u8", "i8", "u16", "i16", "bool"): return "i32"
        return t
    def result_type(self, a, b):
        ta = self.promote(a.ty if isinstance(a, Num) else "int"); tb = self.promote(b.ty if isinstance(b, Num) else "int")
        for f in ("f64", "float", "f32"):
            if f in (ta, tb): return "f64" if f == "float" else f
        if ta == tb: return ta
        wa, sa = INTS[ta]; wb, sb = INTS[tb]
        if wa != wb: return ta if wa > wb else tb
        return tb if sa else ta
    def suffix_type(self, e):
        s = (getattr(e, "suf", "") or "").lower()
        if "l" in s: return "usize" if "u" in s else "i64"
        if "u" in s: return "u32" if e.v < 1 << 32 else "u64"
        return "i32" if e.v < 1 << 31 else "i64"
    def conv(self, v, ty):
        if isinstance(v, Num) and v.ty in INTS and ty in INTS:             # every operation keeps a value inside its type
            a, b = int_range(v.ty); x, y = int_range(ty)
            if x <= a and b <= y: return Num(v.lin, ty)
            o = v.lin.one()
            if INTS[ty][1] and not (self.stream or {}).get("unpack") and o and o[1:] == (1, 0) and o[0].key[0] == "rd" and o[0].key[3] != "f" and o[0].key[2] * 8 == INTS[ty][0] and INTS[ty][0] == INTS[v.ty][0]:
                return Num(self.rd(Lin(o[0].key[1][0], dict(o[0].key[1][1])), o[0].key[2], "s" if INTS[ty][1] else "u").lin, ty)     # the same bytes, seen with the other sign
        return Model.conv(self, v, ty)
    def wrapped(self, l, ty):
        lo, hi = int_range(ty); b, s = INTS[ty]; ctx = self.ctx; x, y = ctx.bounds(l)
        if y > hi and y < INF and not ctx.entails_ge(l.scale(-1) + hi) and not ctx.branch(c_ge(l.scale(-1) + hi)):
            ctx.flags["wrap"] = True
            return l - (1 << b) if y - (1 << b) <= hi else Lin.of(sym(("wrap", ty, l.key), lo, hi))
        if x < lo and (x > -INF or lo == 0) and not ctx.entails_ge(l - lo) and not ctx.branch(c_ge(l - lo)):
            ctx.flags["wrap"] = True
            return l + (1 << b) if x + (1 << b) >= lo else Lin.of(sym(("wrap", ty, l.key), lo, hi))
        return l
    def arith(self, op, a, b, n):
        if isinstance(a, PTRS) or isinstance(b, PTRS): return self.ptr_arith(op, a, b, n)
        r = Model.arith(self, op, a, b, n)
        if r.ty in INTS and op in ("+", "-", "*", "<<"):
            if op == "+" and self.ctx.bounds(r.lin)[0] == -INF: return r
            return Num(self.wrapped(r.lin, r.ty), r.ty)
        return r
    def ptr_arith(self, op, a, b, n):
        if op == "+" and not isinstance(a, PTRS): a, b = b, a
        if op == "-" and isinstance(b, HPtr) and isinstance(a, HPtr) and a.b is b.b: return Num(a.idx - b.idx, "isize")
        if op == "-" and isinstance(b, BufPtr) and isinstance(a, BufPtr): return Num(a.off - b.off, "isize")
        d = self.num(b, n)
        if op == "-": d = d.scale(-1)
        elif op != "+": self.err(n, "pointer arithmetic " + op)
        if isinstance(a, BufPtr): return BufPtr(a.buf, a.off + d)
        if isinstance(a, HPtr): return HPtr(a.b, a.idx + d, a.gen)
        self.err(n, "pointer arithmetic on %r" % (a,))
    def compare(self, op, a, b, n):
        if isinstance(a, Num) and isinstance(b, Num) and a.ty in INTS and b.ty in INTS:
            t = self.result_type(a, b); a, b = self.conv(a, t), self.conv(b, t)
        return Model.compare(self, op, a, b, n)
    def equal(self, a, b, n):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Opq) and p.tag == "cmp" and isinstance(q, Num) and q.lin == Lin(0): return p.a[0]
            if isinstance(p, Num) and p.lin == Lin(0) and (q is NULL or isinstance(q, PTRS + (Opq, AbsMsg))): return self.is_null(q, n)
            if p is UNINIT: self.use_uninit(n)
            if isinstance(p, Opq) and p.tag == "static":
                if isinstance(q, Opq) and q.tag == "static": return T if p.a == q.a else F
                if isinstance(q, HPtr): return F
                if isinstance(q, Str): return Cond("op", ("isstatic", q.key(), p.a[0]))
        if isinstance(a, HPtr) and isinstance(b, HPtr): return (c_eq(a.idx - b.idx) if a.b is b.b else F)
        return Model.equal(self, a, b, n)
    def is_null(self, v, n):
        if v is UNINIT: self.use_uninit(n)
        if v is NULL: return T
        if isinstance(v, PTRS + (AbsMsg,)) or isinstance(v, Opq) and v.tag in ("static", "bytesof"): return F
        return Model.is_null(self, v, n)
    def truth(self, v, n=None):
        if v is UNINIT: self.use_uninit(n)
        if isinstance(v, Opq) and v.tag == "cmp": return c_not(v.a[0])
        if v is NULL or isinstance(v, PTRS + (AbsMsg,)) or isinstance(v, Opq): return c_not(self.is_null(v, n))
        return Model.truth(self, v, n)
    def num(self, v, n=None):
        if v is UNINIT: self.use_uninit(n)
        return Model.num(self, v, n)
    def use_uninit(self, e):
        self.note("C09", "uses a value that was never set"); self.note("C16", "uses a value that was never set"); raise PathEnd("noted")
    def bad_pointer(self, v, e):
        if v is NULL:
            if self.ctx.flags.get("allocfail"): self.note("C15", "uses the result of an allocation that may have failed")
            else: self.note("C09", "follows a null pointer")
        elif v is UNINIT: return self.use_uninit(e)
        else: self.err(e, "pointer expected, got %r" % (v,))
        raise PathEnd("noted")
    def coerce(self, v, ty, n):
        ty = self.rty(ty)
        if ty is None or v is UNINIT: return v
        if ty[0] in ("ptr", "arr"):
            if isinstance(v, Num) and v.lin == Lin(0): return NULL
            return self.cast_ptr(v, ty, n)
        p = self.prim(ty)
        if p == "bool": return v if isinstance(v, Bool) else Bool(self.truth(v, n))
        if p and isinstance(v, (Num, Bool)): return self.conv(v, p) if not (isinstance(v, Num) and v.ty == p) else v
        return v
    def cast_ptr(self, v, ty, n):
        to = self.rty(ty[1]) if ty[0] == "ptr" else self.rty(ty[2])
        if to == ("name", "void"): return v
        if isinstance(v, HPtr):
            bt = v.b.f["ty"]
            if bt is None:
                w = self.sizeof(to, n); sz = v.b.f["size"].lin
                if not w: cap = Lin.of(INFCAP)
                elif sz.c % w == 0 and all(a % w == 0 for a in sz.t.values()): cap = Lin(sz.c // w, {s: a // w for s, a in sz.t.items()})
                elif sz.is_const(): cap = Lin(sz.c // w)
                else: cap = Lin.of(sym(("quot", sz.key, w), 0))
                self.ctx.set(v.b.f, "ty", to); self.ctx.set(v.b.f, "cap", Num(cap, "usize"))
                if v.b.f.get("zeroed"): self.ctx.set(v.b.f["list"].f, "segs", (("fill", cap, self.zero(to, n)),) if cap != Lin(0) else ())
                return v
            if bt == to or self.prim(bt) == self.prim(to) and self.prim(to): return v
            if self.struct_of(bt) and self.prim(to): return Opq("bytesof", v, to)
            if self.struct_of(bt) and self.struct_of(to):
                x = self.content(v)
                if isinstance(x, AbsMsg): return v
            self.err(n, "pointer to %r used as pointer to %r" % (bt, to))
        if isinstance(v, OPtr) and self.prim(to): return Opq("bytesof", v, to)
        if isinstance(v, AbsMsg):
            if self.prim(to): return Opq("bytesof", v, to)
            s = self.struct_of(to); T_ = next((T for T in self.schema.messages if norm(self.decl_name(T)) == norm(s or "")), None)
            if T_ is None: self.err(n, "message used as %r" % (to,))
            return AbsMsg(v.path, self.schema, T_)
        return v
    def content(self, p):
        s = p.b.f["list"].segs
        return s[0][1] if len(s) == 1 and s[0][0] == "one" else None
    def copyval(self, v):
        if isinstance(v, Obj) and v.kind == "val": return Obj(self.ctx, v.cls, {k: self.copyval(x) for k, x in v.f.items()}, "val")
        return v
    # ---- names and places: ("cell", cells, key, type) | ("elem", pointer, index, type) | ("byte", buffer pointer, offset) | ("val", value)
    def vtype(self, sc, n): return getattr(sc, "types", {}).get(n)
    def declare_t(self, sc, n, ty, v):
        if not hasattr(sc, "types"): sc.types = {}
        sc.types[n] = ty; self.declare(sc, n, v)
    def s_var(self, n, sc):
        ty = self.rty(n.ty)
        if ty[0] == "arr":
            v = self.array(n, ty, sc)
        elif n.init is None: v = self.uninit(ty)
        else: v = self.copyval(self.coerce(self.init_value(n.init, ty, sc), ty, n))
        self.declare_t(sc, n.name, ty, v)
    def array(self, n, ty, sc):
        if n.init is not None and n.init.k == "lit" and n.init.t == "str": return Str("lit", n.init.v)
        elems = [] if n.init is None else [self.coerce(self.ev(x, sc), ty[2], n) for x in n.init.elems]
        cap = len(elems) if ty[1] is None else self.num(self.ev(ty[1], sc)).c
        b = Block(self.ctx, self.rty(ty[2]), Num(cap, "usize"), Num(cap * self.sizeof(ty[2]), "usize"), False)
        if n.init is not None: elems += [self.zero(ty[2], n) for _ in range(cap - len(elems))]
        b.f["list"].f["segs"] = tuple(("one", x) for x in elems)
        return HPtr(b)
    def init_value(self, x, ty, sc):
        if x.k in ("slit", "alit"): return self.literal(x, ty, sc)
        return self.ev(x, sc)
    def literal(self, x, ty, sc):
        s = self.struct_of(ty)
        if s is None:
            if x.k == "alit" and len(x.elems) == 1: return self.coerce(self.ev(x.elems[0], sc), ty, x)
            if x.k == "alit" and not x.elems: return self.zero(ty, x)
            self.err(x, "initialiser of %r" % (ty,))
        o = self.zero(ty, x); fl = self.structs[s].fields
        items = x.fields if x.k == "slit" else [(fl[i][0], v) for i, v in enumerate(x.elems)] if len(x.elems) <= len(fl) else self.err(x, "too many initialisers")
        ft = dict(fl)
        for k, v in items:
            if k not in ft: self.err(x, "no member %s in %s" % (k, s))
            o.f[k] = self.copyval(self.coerce(self.init_value(v, ft[k], sc), ft[k], x))
        return o
    def e_slit(self, e, sc): return self.literal(e, e.ty, sc)
    def e_alit(self, e, sc): return self.literal(e, e.ty, sc)
    def bind_params(self, s, fn, args):
        if len(args) != len(fn.params): self.err(fn, "%s called with %d arguments" % (fn.name, len(args)))
        s.types = {}
        for (nm, ty), v in zip(fn.params, args):
            s.types[nm] = self.rty(ty); s.f[nm] = self.copyval(self.coerce(v, ty, fn))
    def ret_value(self, fn, r, s): return r if r is None else self.coerce(r, fn.ret, fn)
    def s_ret(self, n, sc): raise RetX(None if n.e is None else self.copyval(self.ev(n.e, sc)))
    def global_cell(self, n, e, sc):
        g = self.gscope
        if n not in g.f:
            d = self.globals_ast.get(n)
            if d is None: self.err(e, "unknown name " + n)
            if n in self.genv_busy: self.err(e, "cyclic initialiser")
            self.genv_busy.add(n); ty = self.rty(d.ty)
            if ty[0] == "arr":
                v = Opq("static", n) if d.init is not None and d.init.k == "lit" and d.init.t == "str" and d.init.v == "" else self.array(d, ty, g)
            else: v = self.zero(ty, e) if d.init is None else self.coerce(self.init_value(d.init, ty, g), ty, d)
            if not hasattr(g, "types"): g.types = {}
            g.types[n] = ty; g.f[n] = v; self.genv_busy.discard(n)
        return g
    LIMITS = {"SIZE_MAX": ("usize", (1 << 64) - 1), "UINT8_MAX": ("i32", 255), "UINT16_MAX": ("i32", 65535), "UINT32_MAX": ("u32", (1 << 32) - 1), "UINT64_MAX": ("usize", (1 << 64) - 1), "INT8_MAX": ("i32", 127),
              "INT16_MAX": ("i32", 32767), "INT32_MAX": ("i32", (1 << 31) - 1), "INT64_MAX": ("i64", (1 << 63) - 1), "NULL": None}
    def e_name(self, e, sc):
        if e.id in self.LIMITS and sc.find(e.id) is None:
            t = self.LIMITS[e.id]
            return NULL if t is None else Num(t[1], t[0])
        if e.id in self.enumc and sc.find(e.id) is None: return Num(self.enumc[e.id][1], "i32")
        if e.id in self.funcs and sc.find(e.id) is None: return FnV(self.funcs[e.id])
        return self.load(self.l_name(e, sc), e)
    def l_name(self, e, sc):
        s = sc.find(e.id)
        if s is None: s = self.global_cell(e.id, e, sc)
        return ("cell", s.f, e.id, self.vtype(s, e.id))
    def deref(self, p, e):
        if isinstance(p, OPtr): return ("val", p.o)
        if isinstance(p, LPtr): return p.loc
        if isinstance(p, HPtr): return ("elem", p, p.idx, p.b.f["ty"])
        if isinstance(p, BufPtr): return ("byte", p, Lin(0))
        if isinstance(p, Str): return ("char", p, Lin(0))
        if isinstance(p, Opq) and p.tag == "bytesof": return ("first", p, Lin(0))
        return self.bad_pointer(p, e)
    def obj_at(self, loc, e):
        v = self.place(loc, e)
        if isinstance(v, (Obj, AbsMsg, MsgV)): return v
        if v is UNINIT: self.use_uninit(e)
        if isinstance(v, Opq) and v.tag == "failed": self.note("C16", "touches a message whose reader failed"); raise PathEnd("noted")
        self.err(e, "struct expected, got %r" % (v,))
    def place(self, loc, e):
        """value at a place without copying; a struct element not yet touched becomes an element of its own"""
        if loc[0] == "elem":
            p, i = loc[1], loc[2]; l = self.elems(p, i, e)
            n = l.length()
            if self.struct_of(loc[3]) and same(self.ctx, i, n): self.list_push(l, self.uninit(loc[3]))
            return self.elem_load(l, i, e) if self.inside_list(l, i) else UNINIT
        return self.load(loc, e)
    def inside_list(self, l, i): return self.ctx.entails_ge(i) and self.ctx.entails_ge(l.length() - i - 1)
    def elems(self, p, i, e):
        """element list of a block after the access at index i was shown to be inside it"""
        ctx = self.ctx; f = p.b.f; ctx.count("bounds")
        if p.stale(): self.note("C09", "uses a pointer to memory that has been reallocated"); raise PathEnd("noted")
        if f["live"].c.k == "f" or self.released(p.b): self.note("C09", "uses memory after releasing it"); self.note("C14", "uses memory after releasing it"); raise PathEnd("noted")
        if f["ty"] is None: self.err(e, "untyped memory")
        cap = f["cap"].lin
        if not (ctx.entails_ge(i) and ctx.entails_ge(cap - i - 1)):
            for c in ("C09",) + (("C15",) if p.b.heap else ()): self.note(c, "element %r is not proven inside an allocation of %r elements" % (i, cap))
            raise PathEnd("noted")
        return f["list"]
    def l_mem(self, e, sc):
        if e.arrow: loc = self.deref(self.ptr(self.ev(e.o, sc), e), e)
        else: loc = self.loc(e.o, sc) if e.o.k in ("name", "mem", "idx", "un", "paren") else ("val", self.ev(e.o, sc))
        if loc[0] == "val" and isinstance(loc[1], AbsMsg): return self.abs_field(loc[1], e)
        o = self.obj_at(loc, e)
        if isinstance(o, AbsMsg): return self.abs_field(o, e)
        if not isinstance(o, Obj): self.err(e, "member of %r" % (o,))
        ft = dict(self.structs[o.cls].fields)
        if e.f not in ft: self.err(e, "no member %s in %s" % (e.f, o.cls))
        return ("cell", o.f, e.f, self.rty(ft[e.f]))
    def ptr(self, v, e):
        if isinstance(v, AbsMsg): return OPtr(v)
        return v
    def abs_field(self, m, e):
        s = self.type_name(m.known) if m.known else None
        if s and e.f == self.structs[s].fields[0][0]: return ("val", Num(m.which, "i32"))
        self.err(e, "member %s of a message" % e.f)
    def l_idx(self, e, sc):
        p = self.ev(e.o, sc); i = self.num(self.ev(e.i, sc), e)
        if isinstance(p, HPtr): return ("elem", p, p.idx + i, p.b.f["ty"])
        if isinstance(p, BufPtr): return ("byte", p, i)
        if isinstance(p, Str): return ("char", p, i)
        if isinstance(p, Opq) and p.tag == "bytesof": return ("first", p, i)
        if isinstance(p, (OPtr, LPtr)) and i == Lin(0): return self.deref(p, e)
        if isinstance(p, Opq) and p.tag == "static": self.note("C09", "accesses the constant empty text"); raise PathEnd("noted")
        self.bad_pointer(p, e)
    def l_un(self, e, sc):
        if e.op == "*": return self.deref(self.ev(e.e, sc), e)
        self.err(e, "assignment target")
    def e_mem(self, e, sc): return self.load(self.l_mem(e, sc), e)
    def e_idx(self, e, sc): return self.load(self.l_idx(e, sc), e)
    def e_un(self, e, sc):
        if e.op == "*": return self.load(self.l_un(e, sc), e)
        if e.op == "&": return self.address(e.e, sc)
        if e.op == "~": v = self.ev(e.e, sc); t = self.result_type(v, v); return Num(sym(("not", self.num(v).key, t), *int_range(t)), t)
        if e.op == "-":
            v = self.ev(e.e, sc); t = self.result_type(v, v); l = self.num(v, e).scale(-1)
            return Num(self.wrapped(l, t) if t in INTS else l, t)
        return Model.e_un(self, e, sc)
    def address(self, x, sc):
        if x.k == "paren": return self.address(x.e, sc)
        if x.k == "name" and x.id in self.funcs: return FnV(self.funcs[x.id])
        loc = self.loc(x, sc)
        if loc[0] == "byte": return BufPtr(loc[1].buf, loc[1].off + loc[2])
        if loc[0] == "val" and isinstance(loc[1], Obj): return OPtr(loc[1])
        if loc[0] == "val" and isinstance(loc[1], AbsMsg): return loc[1]
        if self.struct_of(loc[3]):
            o = self.obj_at(loc, x); return OPtr(o) if isinstance(o, Obj) else o
        if loc[0] == "elem": self.elems(loc[1], loc[2], x); return HPtr(loc[1].b, loc[2], loc[1].gen)
        if loc[0] == "cell" and isinstance(loc[1].get(loc[2]), HPtr) and not loc[1][loc[2]].b.heap: return loc[1][loc[2]]
        return LPtr(loc)
    def load(self, t, e):
        k = t[0]
        if k == "val": return t[1]
        if k == "cell":
            v = t[1].get(t[2], KeyError)
            if v is KeyError: self.err(e, "no value for %r" % (t[2],))
            return v
        if k == "elem":
            v = self.place(t, e)
            return v
        if k == "byte":
            b, i = t[1], t[2]
            if b.buf.name != "in": self.err(e, "reading the output")
            if not self.in_bounds(b.buf, b.off + i, 1): self.note("C09", "a read of 1 byte at %r is not proven inside the buffer" % (b.off + i)); raise PathEnd("noted")
            return self.rd(b.off + i, 1, "u")
        if k == "char":
            s, i = t[1], t[2]
            if s.kind == "lit":
                if i.is_const() and 0 <= i.c <= len(s.val.encode()): return Num((s.val.encode() + b"\0")[i.c], "u8")
                self.err(e, "index into text")
            if s.kind == "in":
                n = self.str_ulen(s)
                if not (self.ctx.entails_ge(i) and self.ctx.entails_ge(n - i - 1)): self.note("C09", "reads text of %r bytes at %r" % (n, i)); raise PathEnd("noted")
                return Num(sym(("u8at", s.val, i.key), 0, 255), "u8")
        if k == "first":
            o, ty = t[1].a[0], self.prim(t[1].a[1]); w = SIZE[ty]; i = t[2]
            if isinstance(o, AbsMsg): v = Num(o.which, "i32")
            else:
                ob = self.obj_at(self.deref(o, e), e)
                if isinstance(ob, Obj):
                    f, ft = self.structs[ob.cls].fields[0]; v = ob.f[f]
                    if self.prim(ft) is None or SIZE[self.prim(ft)] != 4: self.err(e, "first member of %s" % ob.cls)
                    if v is UNINIT: self.use_uninit(e)
                elif isinstance(ob, MsgV): v = Num(self.schema.tag(ob.T), "i32")
                else: v = Num(ob.which, "i32")
            if not i.is_const() or not 0 <= i.c * w < 4: self.err(e, "byte %r of a message" % (i,))
            lo, hi = self.ctx.bounds(v.lin)
            if i.c == 0: return v if w == 4 or 0 <= lo and hi < 1 << (8 * w) else Num(sym(("low", v.lin.key, w), 0, (1 << 8 * w) - 1), ty)
            if 0 <= lo and hi < 1 << (8 * w * i.c): return Num(0, ty)
            return Num(sym(("byte", v.lin.key, w, i.c), 0, (1 << 8 * w) - 1), ty)
        self.err(e, "load " + k)
    def store(self, t, v, e):
        k = t[0]
        if k == "byte":
            b = t[1]; off = b.off + t[2]; self.out_ok(b, off, Lin(1), e); self.emit(off, 1, "i", self.num(v, e)); return
        if k == "val" and isinstance(t[1], Obj):
            if not isinstance(v, Obj): self.err(e, "struct assigned from %r" % (v,))
            for n, x in self.copyval(v).f.items(): self.ctx.set(t[1].f, n, x)
            return
        if k in ("cell", "elem"):
            if self.struct_of(t[3]): return self.store(("val", self.obj_at(t, e)), v, e)
            v = self.coerce(v, t[3], e)
            if k == "cell":
                if isinstance(t[1].owner, Scope) and t[1].owner is self.gscope: self.err(e, "store into a global")
                self.ctx.set(t[1], t[2], v)
            else: self.put(t[1], t[2], v, e)
            return
        if k == "first": self.err(e, "store through a reinterpreted pointer")
        self.err(e, "store " + k)
    def put(self, p, i, v, e):
        l = self.elems(p, i, e)
        if same(self.ctx, i, l.length()): self.list_push(l, v); return
        if self.inside_list(l, i): self.list_set(l, i, v, e); return
        self.err(e, "store at %r into memory of which %r elements are set" % (i, l.length()))
    def out_ok(self, b, off, n, e):
        ctx = self.ctx; ctx.count("bounds")
        if b.buf.name == "in": self.note("C09", "writes into the input"); raise PathEnd("noted")
        if not (ctx.entails_ge(off) and ctx.entails_ge(b.buf.length - off - n)):
            self.note("C10", "a store of %r bytes at %r is not proven inside the buffer" % (n, off)); raise PathEnd("noted")
    def e_asg(self, e, sc):
        if e.op == "=":
            t = self.loc(e.l, sc); ty = t[3] if len(t) > 3 else None
            v = self.copyval(self.init_value(e.r, ty, sc)); self.store(t, v, e)
            return v
        t = self.loc(e.l, sc); old = self.load(t, e)
        v = self.binop(e.op[:-1], old, self.ev(e.r, sc), e)
        if isinstance(old, Num) and isinstance(v, Num): v = self.conv(v, old.ty)
        self.store(t, v, e); return v
    def incdec(self, e, sc):
        t = self.loc(e.e, sc); old = self.load(t, e)
        if isinstance(old, PTRS): v = self.ptr_arith("+", old, Num(1 if e.op == "++" else -1), e)
        else: l = self.num(old, e) + (1 if e.op == "++" else -1); v = Num(l if old.ty not in INTS or self.ctx.bounds(l)[0] == -INF else self.wrapped(l, old.ty), old.ty)
        self.store(t, v, e); return old, v
    def e_pre(self, e, sc): return self.incdec(e, sc)[1]
    def e_post(self, e, sc): return self.incdec(e, sc)[0]
    def e_cast(self, e, sc):
        v = self.ev(e.e, sc); ty = self.rty(e.ty)
        if ty == ("name", "void"): return VOID
        return self.coerce(v, ty, e)
    def e_sizeof(self, e, sc):
        if e.ty is not None: return Num(self.sizeof(e.ty, e), "usize")
        return Num(self.sizeof(self.etype(e.e, sc), e), "usize")
    def etype(self, x, sc):
        """declared type of a place expression"""
        if x.k == "paren": return self.etype(x.e, sc)
        if x.k == "name":
            s = sc.find(x.id) or self.global_cell(x.id, x, sc); return self.vtype(s, x.id)
        if x.k == "un" and x.op == "*": return self.etype(x.e, sc)[1]
        if x.k == "un" and x.op == "&": return ("ptr", self.etype(x.e, sc))
        if x.k == "idx": t = self.rty(self.etype(x.o, sc)); return t[1] if t[0] == "ptr" else t[2]
        if x.k == "mem":
            t = self.rty(self.etype(x.o, sc)); t = t[1] if x.arrow else t
            return dict(self.structs[self.struct_of(t)].fields)[x.f]
        if x.k == "cast": return x.ty
        self.err(x, "type of an expression")
    def s_goto(self, n, sc): self.err(n, "goto")
    # ---- calls
    def e_call(self, e, sc):
        if e.f.k != "name": self.err(e, "call of an expression")
        f = e.f.id; a = [self.ev(x, sc) for _, x in e.args]
        fn = self.funcs.get(f)
        if fn is None: return self.library(f, a, e, sc)
        if not self.mem or self.stream is not None:
            m = next((x for x in a if isinstance(x, AbsMsg) and x.known), None)
            if m is not None:
                r = self.abs_call(m, fn, a, e)
                if r is not None: return r
            if self.stream is not None and f == self.ns + "_DestroyMessageList":
                if isinstance(a[0], HPtr): self.ctx.set(a[0].b.f, "live", Bool(F))
                return Num(0, "u8")
        r = self.invoke(fn, a)
        return VOID if r is None else r
    def abs_call(self, m, fn, a, e):
        s = self.type_name(m.known); tag = self.schema.tag(m.known); ctx = self.ctx
        if not fn.name.startswith(s + "_"): return None
        if not ctx.domain(m.which).subset(IntSet.of([tag])):
            self.note("C14" if fn.name.endswith("_Destroy") else "pack", "a message that may be of another type is handled as %s" % m.known); raise PathEnd("noted")
        op = fn.name[len(s) + 1:]
        if op == "GetSizeInBytes":
            self.store(self.deref(a[1], e), Num(m.size(), "usize"), e); return Num(0, "u8")
        if op == "WriteBytes":
            w = self.obj_at(self.deref(a[0], e), e); t = ctx.decide(self.truth(a[2], e)) if len(a) > 2 else True
            off = w.f["position"].lin; n = m.size() + (1 if t else 0)
            if ctx.choose(2) == 0:
                ctx.assume(c_ge(w.f["bufferSize"].lin - off - n))
                ctx.events.append(("msg", off, m.path, t, m.size())); ctx.set(w.f, "position", Num(off + n, "usize")); return Num(0, "u8")
            ctx.flags["writeerr"] = True
            return Num(1, "u8")
        if op == "Destroy": ctx.events.append(("relmsg", m.path, m.known))
        if op in ("Destroy", "Cleanup"): return VOID
        return None
    def library(self, f, a, e, sc):
        ctx = self.ctx
        if f == "malloc": return self.malloc(self.num(a[0], e), e)
        if f == "calloc":
            n, w = self.num(a[0], e), self.num(a[1], e)
            r = self.arith("*", Num(n, "usize"), Num(w, "usize"), e); p = self.malloc(r.lin, e)
            if isinstance(p, HPtr): p.b.f["zeroed"] = Bool(T)
            return p
        if f == "realloc": return self.realloc(a[0], self.num(a[1], e), e)
        if f == "free": return self.free(a[0], e)
        if f in ("memcpy", "memmove"): self.memcpy(a[0], a[1], self.num(a[2], e), e); return a[0]
        if f == "memset": return self.memset(a[0], self.num(a[1], e), self.num(a[2], e), e)
        if f == "memcmp": return self.memcmp(a[0], a[1], self.num(a[2], e), e)
        if f == "strlen":
            if isinstance(a[0], Str) and a[0].kind == "lit": return Num(len(a[0].val.encode()), "usize")
            self.err(e, "strlen of %r" % (a[0],))
        if f == "assert": 
            if not ctx.branch(self.truth(a[0], e)): raise PathEnd("noted")
            return VOID
        self.err(e, "library function " + f)
    # ---- memory
    def malloc(self, n, e, what="malloc"):
        ctx = self.ctx; ctx.count("allocations")
        if ctx.bounds(n)[1] >= 1 << 63 and ctx.bounds(n)[1] < INF and not ctx.branch(c_ge(n.scale(-1) + ((1 << 63) - 1))): ctx.flags["allocfail"] = True; return NULL
        tok = self.acquire(what, n)
        if tok is None: return NULL
        b = Block(ctx, None, Num(0, "usize"), Num(n, "usize")); b.aid = tok if self.mem else None
        return HPtr(b)
    def realloc(self, p, n, e):
        if p is NULL: return self.malloc(n, e)
        if not isinstance(p, HPtr): return self.bad_pointer(p, e)
        self.usable(p, e)
        if self.mem and self.alloc_fails(): return NULL
        f = p.b.f; ty = f["ty"]; ctx = self.ctx
        if ty is None: self.err(e, "untyped memory reallocated")
        w = self.sizeof(ty, e)
        if n.c % w or any(a % w for a in n.t.values()): self.err(e, "size of reallocated memory")
        cap = Lin(n.c // w, {s: a // w for s, a in n.t.items()})
        ctx.set(f, "cap", Num(cap, "usize")); ctx.set(f, "size", Num(n, "usize")); ctx.set(f, "gen", Opq("gen", cap.key))
        if not ctx.entails_ge(cap - f["list"].length()) and not ctx.probing: self.note("C09", "memory is shrunk below the %r elements it holds" % (f["list"].length(),)); raise PathEnd("noted")
        return HPtr(p.b)
    def usable(self, p, e):
        if p.stale(): self.note("C14", "releases a pointer to memory that has been reallocated"); raise PathEnd("noted")
        if p.b.f["live"].c.k == "f" or self.released(p.b): self.note("C14", "releases memory twice"); raise PathEnd("noted")
        if not p.b.heap or p.idx != Lin(0): self.note("C14", "releases memory that was not allocated"); raise PathEnd("noted")
    def free(self, p, e):
        if isinstance(p, HPtr):
            self.usable(p, e)
            if not (self.mem and p.b.aid is not None and p.b.aid[1]): self.ctx.set(p.b.f, "live", Bool(F))
            elif not self.ctx.probing: self.ctx.flags["rel"] = self.ctx.flags.get("rel", frozenset()) | {self.tokkey(p.b)}
            if self.mem and p.b.aid is not None: self.release(p.b.aid, e)
            return VOID
        if p is NULL: return VOID
        if p is UNINIT: self.note("C16", "releases memory through a pointer that was never set"); self.note("C14", "releases memory through a pointer that was never set"); raise PathEnd("noted")
        return self.free_other(p, e)
    def tokkey(self, b): return (b.aid[0], tuple(l.key for l in b.aid[1]))
    def released(self, b):
        """memory of one element of a list: known by the element it belongs to, since every access makes a new abstract copy"""
        return self.mem and b.aid is not None and bool(b.aid[1]) and self.tokkey(b) in self.ctx.flags.get("rel", ())
    def free_other(self, p, e):
        if isinstance(p, (Str, Opq, OPtr, LPtr, BufPtr)): self.note("C14", "releases memory that was not allocated"); raise PathEnd("noted")
        self.err(e, "release of %r" % (p,))
    def kind_of(self, ty):
        p = self.prim(ty)
        return None if p is None else (SIZE[p], "f" if p in ("f32", "f64") else "s" if p[0] == "i" and p != "isize" else "u")
    def memcpy(self, d, s, n, e):
        ctx = self.ctx
        if isinstance(s, (Opq, LPtr, OPtr, HPtr, Str, BufPtr)) is False:
            if ctx.decide(c_eq(n)) is True: return
            self.bad_pointer(s, e)
        if isinstance(d, BufPtr): return self.copy_out(d, s, n, e)
        if isinstance(s, BufPtr):
            if not self.in_bounds(s.buf, s.off, n):
                self.note("C09", "a read of %r bytes at %r is not proven inside the buffer" % (n, s.off)); raise PathEnd("noted")
        if isinstance(d, LPtr):
            ty = d.loc[3]; k = self.kind_of(ty)
            if k is None or not n.is_const(): self.err(e, "copy to %r" % (ty,))
            if n.c > k[0]: self.note("C09", "%d bytes are copied over a %d-byte value" % (n.c, k[0])); raise PathEnd("noted")
            if isinstance(s, BufPtr):
                v = self.rd(s.off, n.c, k[1]) if n.c == k[0] else Num(sym(("partial", s.off.key, n.c)), "u64")
                p = self.prim(ty)
                self.store(d.loc, Bool(c_not(c_eq(v.lin))) if p == "bool" else Num(v.lin, p), e); return
            if isinstance(s, LPtr):
                sk = self.kind_of(s.loc[3]); v = self.load(s.loc, e)
                if sk[0] != n.c or k[0] != n.c or sk[1] != k[1] and "f" in (sk[1], k[1]):
                    v = Num(sym(("bits", self.num(v).key, k)), self.prim(ty))
                self.store(d.loc, v, e); return
        if isinstance(d, HPtr):
            ty = d.b.f["ty"]
            if ty is None: d = self.cast_ptr(d, ("ptr", ("name", "char")), e); ty = d.b.f["ty"]
            if isinstance(s, BufPtr):
                k = self.kind_of(ty)
                if k is None: self.err(e, "raw copy to %r" % (ty,))
                w = k[0]
                if n.c % w or any(a % w for a in n.t.values()): self.err(e, "copy size")
                cnt = Lin(n.c // w, {x: a // w for x, a in n.t.items()})
                if ctx.decide(c_eq(cnt)) is True: return
                f = d.b.f; ctx.count("bounds")
                if d.stale() or f["live"].c.k == "f": self.note("C09", "copies into memory that is gone"); raise PathEnd("noted")
                if not (ctx.entails_ge(d.idx) and ctx.entails_ge(f["cap"].lin - d.idx - cnt)): self.note("C09", "%r elements are copied into an allocation of %r" % (cnt, f["cap"].lin)); self.note("C15", "%r elements are copied into an allocation of %r" % (cnt, f["cap"].lin)); raise PathEnd("noted")
                if cnt.is_const() and cnt.c == 1: return self.put(d, d.idx, Num(self.rd(s.off, w, k[1]).lin, self.prim(ty)), e)
                if not same(ctx, d.idx, f["list"].length()): self.err(e, "copy into the middle of memory")
                ctx.set(f["list"].f, "segs", f["list"].segs + (("bulk", cnt, s.off, w, k[1]),)); return
            if isinstance(s, HPtr) and s.b.f["ty"] == ty:
                cnt = self.elem_count(n, ty, e)
                for i in range(cnt): self.put(d, d.idx + i, self.load(("elem", s, s.idx + i, ty), e), e)
                return
        if isinstance(d, OPtr) and isinstance(s, OPtr) and isinstance(d.o, Obj) and isinstance(s.o, Obj) and d.o.cls == s.o.cls and n == Lin(self.sizeof(("name", d.o.cls))): return self.store(("val", d.o), s.o, e)
        if d is NULL or d is UNINIT: self.bad_pointer(d, e)
        self.err(e, "copy from %r to %r" % (s, d))
    def elem_count(self, n, ty, e):
        w = self.sizeof(ty, e)
        if not n.is_const() or n.c % w: self.err(e, "copy size")
        return n.c // w
    def copy_out(self, d, s, n, e):
        ctx = self.ctx
        if ctx.decide(c_eq(n)) is True: return
        self.out_ok(d, d.off, n, e)
        if isinstance(s, Str):
            if s.kind == "lit":
                b = s.val.encode() + b"\0"
                if not n.is_const() or n.c > len(b): self.note("C09", "copies more than the text holds"); raise PathEnd("noted")
                for i in range(n.c): self.emit(d.off + i, 1, "i", Lin(b[i]))
                return
            if not ctx.entails_ge(self.str_ulen(s) - n): self.note("C09", "copies %r bytes of text of length %r" % (n, self.str_ulen(s)))
            ctx.events.append(("utf8", d.off, s.val, n)); return
        if isinstance(s, LPtr):
            v = self.load(s.loc, e); k = self.kind_of(s.loc[3])
            if v is UNINIT: self.use_uninit(e)
            if not n.is_const(): self.err(e, "size of a copied value")
            if n.c > k[0]: self.note("C09", "%d bytes are copied from a %d-byte value" % (n.c, k[0])); raise PathEnd("noted")
            self.emit(d.off, n.c, "f" if k[1] == "f" else "i", self.num(v, e)); return
        if isinstance(s, HPtr):
            ty = s.b.f["ty"]; w, k = self.kind_of(ty)
            if n.c % w or any(a % w for a in n.t.values()): self.err(e, "copy size")
            cnt = Lin(n.c // w, {x: a // w for x, a in n.t.items()})
            def one(sc): ix = sc.f["$i"].lin; self.emit(d.off + ix.scale(w), w, "f" if k == "f" else "i", self.num(self.load(("elem", s, s.idx + ix, ty), e), e))
            self.foreach(e, self.gscope, cnt, lambda sc, ix: sc.f.__setitem__("$i", Num(ix, "usize")), one); return
        self.err(e, "output from %r" % (s,))
    def memset(self, d, v, n, e):
        if v != Lin(0): self.err(e, "memset")
        if isinstance(d, OPtr) and n == Lin(self.sizeof(("name", d.o.cls))): self.store(("val", d.o), self.zero(("name", d.o.cls), e), e); return d
        if isinstance(d, HPtr) and d.idx == Lin(0):
            ty = d.b.f["ty"]
            if ty is not None:
                if self.ctx.entails_ge(n - d.b.f["size"].lin - 1) : self.note("C09", "clears more than was allocated"); raise PathEnd("noted")
                if same(self.ctx, n, d.b.f["size"].lin):
                    if self.struct_of(ty) and d.b.f["cap"].lin == Lin(1): self.store(("elem", d, Lin(0), ty), self.zero(ty, e), e)
                    else: self.ctx.set(d.b.f["list"].f, "segs", (("fill", d.b.f["cap"].lin, self.zero(ty, e)),))
                    return d
            elif same(self.ctx, n, d.b.f["size"].lin): self.ctx.set(d.b.f, "zeroed", Bool(T)); return d
        if isinstance(d, LPtr) and n == Lin(self.sizeof(d.loc[3])): self.store(d.loc, self.zero(d.loc[3], e), e); return d
        self.err(e, "memset of %r" % (d,))
    def memcmp(self, a, b, n, e):
        for p, q in ((a, b), (b, a)):
            if isinstance(p, BufPtr) and isinstance(q, Str) and q.kind == "lit" and n.is_const():
                if not self.in_bounds(p.buf, p.off, n): self.note("C09", "compares %r bytes at %r without knowing they are inside the buffer" % (n, p.off)); raise PathEnd("noted")
                t = (q.val.encode() + b"\0")[:n.c]
                return Opq("cmp", self.rd_equals(p.off, n, t, e))
        self.err(e, "memcmp")
    # ---- loops
    def inside(self, l): return Lin.of(LEN) - l
    def havoc(self, old, sq, k, ix, tag):
        if isinstance(old, HPtr):
            now = self.ctx.cells[sq].get(k)
            stale = (sq, k) in self.was_stale if self.was_stale is not None else isinstance(now, HPtr) and now.stale()
            g = old.gen if stale or not self.ctx.flags.get(("hvblk", old.b.seq)) else Opq("gen", ("hv", old.b.seq, ix.key, tag))
            return HPtr(old.b, old.idx, g)
        if isinstance(old, Opq) and old.tag == "gen": return Opq("gen", ("hv", sq, ix.key, tag))
        v = Model.havoc(self, old, sq, k, ix, tag)
        if isinstance(v, Num) and v.ty in INTS and not INTS[v.ty][1]: self.ctx.assume(c_ge(v.lin))
        return v
    def generalise(self, mods, ix, pre, tmp, tag=None):
        ctx = self.ctx
        for sq, k, cl, data in mods:
            d = ctx.cells[sq]
            if k == "gen" and isinstance(d.owner, Block): ctx.flags[("hvblk", sq)] = True
        eq = self.equal_caps(mods, {(a, b): ctx.cells[a].get(b, KeyError) for a, b, c, d in mods}) if tag is not None or tmp else []
        self.was_stale = {(sq, k) for sq, k, cl, data in mods for v in (ctx.cells[sq].get(k),) if isinstance(v, HPtr) and v.stale()}
        Model.generalise(self, mods, ix, pre, tmp, tag); self.was_stale = None
        if tmp:
            for sq, k, cl, data in mods:
                v = ctx.cells[sq].get(k)
                if isinstance(v, Num) and v.ty in INTS and not INTS[v.ty][1]: ctx.assume(c_ge(v.lin))
        for a, b in eq:
            va, vb = ctx.cells[a[0]][a[1]], ctx.cells[b[0]][b[1]]
            ctx.set(ctx.cells[b[0]], b[1], Num(va.lin, vb.ty))
        touched = {(a, b) for a, b, c, d in mods}
        for c in list(ctx.cells.values()):        # no operation lets a block hold more elements than it has room for
            b = c.owner
            if isinstance(b, Block) and b.f is c and ((b.f.seq, "cap") in touched or (b.f["list"].f.seq, "segs") in touched): ctx.assume(c_ge(b.f["cap"].lin - b.f["list"].length()))
    def equal_caps(self, mods, before):
        """pairs of changed quantities that are equal before the loop, one of them the room of a block: kept equal as an invariant"""
        out = []; drop = self.ctx.shared.setdefault("dropped", set())
        nums = [(sq, k) for sq, k, cl, d in mods if isinstance(before[(sq, k)], Num)]
        for a in nums:
            if isinstance(self.ctx.cells[a[0]].owner, Block): continue
            for b in nums:
                if b[1] != "cap" or not isinstance(self.ctx.cells[b[0]].owner, Block): continue
                if before[a].lin == before[b].lin and ("cap",) + (repr(a[1]), b[0]) not in drop: out.append((a, b))
        return out
    def loop_top(self, n, ix, mods, before, top, key):
        ctx = self.ctx
        for sq, k, cl, data in mods:
            v = ctx.cells[sq].get(k)
            if isinstance(v, Num) and v.ty in INTS and not INTS[v.ty][1] and cl != "lin": ctx.assume(c_ge(v.lin))
        for q in mods: top[(q[0], q[1])] = ctx.cells[q[0]].get(q[1], KeyError)
        Model.loop_top(self, n, ix, mods, before, top, key)
    def back_edge(self, n, ix, mods, before, top, after, key, ev):
        ctx = self.ctx; drop = ctx.shared.setdefault("dropped", set()); again = False
        for a, b in self.equal_caps(mods, before):
            if not same(ctx, after[a].lin, after[b].lin): drop.add(("cap", repr(a[1]), b[0])); again = True
        for sq, k, cl, d in mods:
            t, x = top[(sq, k)], after[(sq, k)]
            if isinstance(t, HPtr) and not t.stale() and isinstance(x, HPtr) and x.stale(): self.note("C09", "a pointer to reallocated memory is kept"); raise PathEnd("noted")
        if again: raise Restart()
        Model.back_edge(self, n, ix, mods, before, top, after, key, ev)
    # ---- accessors
    def as_fields(self, v, t):
        if not isinstance(v, Obj): return None
        out = {}
        for n, k in self.schema.members(t):
            x = v.f.get(n, KeyError)
            if x is KeyError: continue
            if k[0] in ("str", "list"):
                ln = v.f.get(n + "_len", UNINIT)
                x = CSeq(x, ln, v.f.get(n + "_els_len", UNINIT) if k == ("list", ("str",)) else None)
            out[norm(n)] = x
        return out
    def heap_list(self, p):
        if not isinstance(p, HPtr) or p.stale() or p.b.f["live"].c.k == "f" or p.idx != Lin(0): return None
        return p.b.f["list"].segs
    def as_text(self, v):
        if not isinstance(v, CSeq) or not isinstance(v.ln, Num): return None
        n = v.ln.lin; ctx = self.ctx
        if ctx.decide(c_eq(n)) is True and (isinstance(v.ptr, Opq) and v.ptr.tag == "static" or v.ptr is NULL): return Lin(0), Lin(0)
        segs = self.heap_list(v.ptr)
        if segs is None: return None
        if not segs or segs[0][0] == "one": return (Lin(0), Lin(0)) if ctx.decide(c_eq(n)) is True else None
        s = segs[0]
        if s[0] == "bulk" and s[3] == 1: off, ln = s[2], s[1]
        elif s[0] == "loop":
            o = s[3].lin.one() if isinstance(s[3], Num) else None
            if not (o and o[1:] == (1, 0) and o[0].key[0] == "rd" and o[0].key[2:] == (1, "u")): return None
            off = Lin(o[0].key[1][0], dict(o[0].key[1][1])) - s[2]; ln = s[1]
            if s[2] in off.syms(): return None
        else: return None
        if not same(ctx, ln, n): return None
        return off, n
    def as_list(self, v):
        if not isinstance(v, CSeq) or not isinstance(v.ln, Num): return None
        n = v.ln.lin; ctx = self.ctx
        if ctx.decide(c_eq(n)) is True: return ()
        segs = self.heap_list(v.ptr)
        if segs is None: return None
        tot = Lin(0)
        for s in segs: tot = tot + seg_len(s)
        if not same(ctx, tot, n): return None
        if v.els is not None:
            es = self.heap_list(v.els)
            if es is None or len(es) != 1 or len(segs) != 1 or segs[0][0] != "loop" or es[0][0] not in ("loop", "bulk"): return None
            ix = segs[0][2]; ln = subst(es[0][3], es[0][2], Lin.of(ix), ctx) if es[0][0] == "loop" else self.bulk_elem(es[0], Lin.of(ix))
            if not same(ctx, seg_len(es[0]), n): return None
            return (("loop", segs[0][1], ix, CSeq(segs[0][3], ln)),)
        return segs
    # ---- inputs
    def in_value(self, kind, path):
        S = self.schema
        if kind[0] != "struct":
            if kind[0] == "list":
                n = Lin.of(self.layout.in_len(path)); ty = self.elem_type(kind[1])
                return self.in_block(ty, n, lambda rel, k=kind[1], p=path: self.in_elem(k, p, rel), path)
            return Model.in_value(self, kind, path)
        o = self.new_obj(kind[1]); ft = dict(self.structs[o.cls].fields)
        for n, k in S.members(kind[1]):
            o.f[n] = self.in_value(k, path + (n,))
            if k[0] == "str": o.f[n + "_len"] = Num(self.layout.in_ulen(path + (n,)), self.prim(ft[n + "_len"]))
            if k[0] == "list":
                N = Lin.of(self.layout.in_len(path + (n,))); o.f[n + "_len"] = Num(N, self.prim(ft[n + "_len"]))
                if k[1] == ("str",):
                    lt = self.rty(ft[n + "_els_len"][1])
                    o.f[n + "_els_len"] = self.in_block(lt, N, lambda rel, p=path + (n,), t=self.prim(lt): Num(self.layout.in_ulen(p + (("#", rel.key),)), t), path + (n, "$len"))
        return o
    def in_block(self, ty, N, mk, path):
        b = Block(self.ctx, ty, Num(N, "usize"), Num(N.scale(self.sizeof(ty)), "usize"))
        b.f["list"].f["segs"] = (("in", path, N, mk),)
        return HPtr(b)
    def elem_type(self, k):
        if k[0] == "str": return ("ptr", ("name", "char"))
        if k[0] == "num": return ("name", {"byte": "uint8_t", "bool": "bool", "float": "float", "double": "double"}.get(k[1]) or k[1] + "_t")
        if k[0] == "enum": return ("name", self.enum_name(k[1]))
        return ("name", self.type_name(k[1]))
    def in_enum_value(self, e, s): return Num(Lin.of(s), "i32")
    def new_obj(self, T_):
        s = self.type_name(T_); o = Obj(self.ctx, s, {n: self.uninit(t) for n, t in self.structs[s].fields}, "val")
        if T_ in self.schema.messages:
            d = self.global_cell(s + "_default", None, None).f[s + "_default"]; f = self.structs[s].fields[0][0]; o.f[f] = d.f[f]
        return o
    # ---- names
    def decl_name(self, T_): return self.ns + "_" + T_
    def type_name(self, T_):
        for n in self.structs:
            if norm(n) == norm(self.decl_name(T_)): return n
        raise AnalysisError("c: no struct for " + T_)
    def enum_name(self, e):
        for n in self.enums:
            if norm(n) == norm(self.ns + "_" + e): return n
        raise AnalysisError("c: no enum for " + e)
    def field_name(self, T_, m): return m
    def fn(self, name):
        if name not in self.funcs: raise AnalysisError("c: no function " + name)
        return self.funcs[name]
    def mfn(self, T_, op): return self.fn(self.type_name(T_) + "_" + op)
    # ---- tasks
    def start(self, ctx):
        Interp.start(self, ctx); self.in_defer = 0; self.start_mem()
        ctx.assume(c_ge(Lin.of(LEN) - W0))
    def guard(self, f):
        try: return f()
        except PathEnd as p: raise
    def access(self, name, off):
        o = Obj(self.ctx, self.ns + "_DataAccess", {}, "val")
        ft = dict(self.structs[o.cls].fields)
        for n in ("buffer", "bufferSize", "position"):
            if n not in ft: raise AnalysisError("c: DataAccess has no member " + n)
        if len(ft) != 3: raise AnalysisError("c: members of DataAccess")
        o.f["buffer"] = BufPtr(Buf(name, LEN), 0); o.f["bufferSize"] = Num(LEN, self.prim(ft["bufferSize"])); o.f["position"] = Num(off, self.prim(ft["position"]))
        return o
    def failed(self, r):
        if not isinstance(r, Num): raise AnalysisError("c: result code %r" % (r,))
        bad = not self.ctx.branch(c_eq(r.lin))
        if not bad and self.mem and self.ctx.flags.get("allocfail"): self.note("C15", "reports success although an allocation failed")
        return bad
    def outcell(self, ty, v=UNINIT):
        s = Scope(self.ctx); s.types = {"out": ty}; s.f["out"] = v
        return s, LPtr(("cell", s.f, "out", ty))
    def run_reader(self, ctx, T_):
        da = self.access("in", P0); o = self.uninit(("name", self.type_name(T_)))
        r = self.invoke(self.mfn(T_, "FromBytes"), [OPtr(da), OPtr(o)])
        if self.failed(r): return ("err", "clean", "code %r" % (r.lin,))
        f = self.structs[o.cls].fields[0][0]
        if not isinstance(o.f[f], Num) or not same(ctx, o.f[f].lin, self.schema.tag(T_)): ctx.note("tag", "c reader of %s" % T_, "the type mark of the message read is %r" % (o.f[f],))
        return ("ok", o, da.f["position"].lin)
    def run_writer(self, ctx, T_, tagged):
        da = self.access("out", W0); o = self.in_value(("struct", T_), (T_,))
        r = self.invoke(self.mfn(T_, "WriteBytes"), [OPtr(da), OPtr(o), Bool(T if tagged else F)])
        if self.failed(r): return ("err", "clean")
        return ("ok", da.f["position"].lin)
    def run_size(self, ctx, T_):
        o = self.in_value(("struct", T_), (T_,)); s, p = self.outcell(("name", "size_t"))
        if self.failed(self.invoke(self.mfn(T_, "GetSizeInBytes"), [OPtr(o), p])): return ("err", "fails")
        return ("ok", self.num(s.f["out"]))
    def release_ways(self, T_): return ("read, cleaned up", "created, destroyed", "created, destroyed by type", "created, read, destroyed")
    def check_list_cleanup(self, rep):
        """every message of a list is destroyed once, each as its own type, then the list itself"""
        where = "c release of a message list"; done = 0; S = self.schema
        N = Lin.of(sym(("len", ("msgs",)), 0, (1 << 32) - 1)); ix = Lin.of(sym(("ix", N.key), 0))
        want = [AbsMsg(("msgs", ("#", l.key)), S).path for l in (ix, N - 1 - ix)]           # counting up or down
        def run(ctx):
            self.start(ctx); l, n = self.msgs(ctx); l.b.heap = True
            r = self.invoke(self.fn(self.ns + "_DestroyMessageList"), [l, n])
            if self.failed(r): return ("err",)
            if l.b.f["live"].c.k != "f": ctx.note("C14", where, "the memory of the list itself is not released")
            if ctx.decide(c_eq(n.lin)) is True: return ("ok",)
            ev = [x for x in ctx.events if x[0] in ("relmsg", "loop", "part")]
            if len(ev) != 1 or ev[0][0] != "loop" or not same(ctx, ev[0][1], n.lin): ctx.note("C14", where, "not every message of the list is released"); return ("ok",)
            got = [x[1] for x in ev[0][3] if x[0] == "relmsg"]
            if len(got) != 1 or got[0] not in want: ctx.note("C14", where, "a message of the list is %s" % ("not released" if not got else "released as %r" % (got,)))
            return ("ok",)
        for c in explore(run):
            self.ctx = c; rep.absorb(c); o = c.outcome
            if o[0] == "end" and o[1] not in ("infeasible", "covered", "negcount", "index", "noted", "backedge"): rep.broken.append("%s: path ended by %s" % (where, o[1]))
            if o[0] == "err": rep.add("C14", where, "gives up on a list of valid messages")
            done += o[0] == "ok"
        rep.count("list-release-paths", done)
        if not done and not any(f.construct == where for f in rep.f): rep.broken.append(where + ": no completing path")
    def unlisted(self, n, d, k):
        if self.mem and k == "live": return            # how often it is released is counted by the balance
        Model.unlisted(self, n, d, k)
    def run_release(self, ctx, T_, how):
        s = self.type_name(T_); steps = how.split(", ")
        if "created" in steps:
            p = self.invoke(self.mfn(T_, "Create"), [])
            if p is NULL: return False
        else: p = OPtr(self.uninit(("name", s)))
        if "read" in steps and self.failed(self.invoke(self.mfn(T_, "FromBytes"), [OPtr(self.access("in", P0)), p])): return False
        if steps[-1] == "cleaned up": self.invoke(self.mfn(T_, "Cleanup"), [p])
        elif steps[-1] == "destroyed": self.invoke(self.mfn(T_, "Destroy"), [p])
        elif self.failed(self.invoke(self.fn(self.ns + "_Destroy"), [p])): ctx.note("C14", "c release of %s (%s)" % (T_, how), "a fresh message is refused")
        return True
    def default_ways(self, T_): return ("created", "default constant")
    def run_default(self, ctx, T_, how):
        s = self.type_name(T_)
        if how == "created":
            r = self.invoke(self.mfn(T_, "Create"), [])
            if r is NULL: return ("err", "clean")
            return ("ok", self.obj_at(self.deref(r, None), None))
        return ("ok", self.global_cell(s + "_default", None, None).f[s + "_default"])
    def reader_of(self, fn):
        if not hasattr(self, "_rd"): self._rd = {id(self.mfn(T_, "FromBytes")): T_ for T_ in self.schema.messages}
        return self._rd.get(id(fn))
    def summary_call(self, T_, fn, args, this):
        da = self.obj_at(self.deref(args[0], fn), fn); off = da.f["position"].lin; d = args[1]
        ok, end = self.read_summary(T_, off)
        if isinstance(d, HPtr):
            d = self.cast_ptr(d, ("ptr", ("name", self.type_name(T_))), fn)
            if not self.ctx.entails_ge(d.b.f["cap"].lin - d.idx - 1): self.note("C09", "%s is read into memory too small for it" % T_); self.note("C15", "%s is read into memory too small for it" % T_); raise PathEnd("noted")
        v = MsgV(T_, off) if ok else Opq("failed", T_)
        if isinstance(d, HPtr): self.ctx.set(d.b.f["list"].f, "segs", (("one", v),))
        elif isinstance(d, OPtr): self.ctx.set(d.o.f, "$msg", v)
        else: self.bad_pointer(d, fn)
        if not ok: return Num(1, "u8")
        self.ctx.set(da.f, "position", Num(end, da.f["position"].ty)); return Num(0, "u8")
    def message_of(self, v):
        if isinstance(v, HPtr) and not v.stale() and v.idx == Lin(0) and v.b.f["live"].c.k == "t":
            c = self.content(v)
            if isinstance(c, MsgV) and self.struct_of(v.b.f["ty"]) == self.type_name(c.T): return c
        return v
    def run_list(self, ctx, call):
        da = self.access("in", P0); ls, lp = self.outcell(("ptr", ("ptr", ("name", "void")))); ns, np = self.outcell(("name", "size_t"))
        r = call(OPtr(da), lp, np); self.outs = (ls, ns)
        if self.failed(r):
            self.handed_out(ls.f["out"], ns.f["out"])
            return ("err", "clean", "code %r" % (r.lin,))
        return ("ok", CSeq(ls.f["out"], ns.f["out"]))
    def handed_out(self, l, n):
        """what the caller finds in the list and its length when reading failed"""
        ctx = self.ctx; where = self.stream["where"] if self.stream else "c list reader"
        def bad(m): ctx.note("C16", where, m)
        if l is NULL and isinstance(n, Num) and ctx.decide(c_eq(n.lin)) is not True: return bad("the messages read so far are lost: no list but the length %r when reading fails" % (n.lin,))
        if not isinstance(l, HPtr): return
        if l.stale() or l.b.f["live"].c.k == "f": return bad("leaves the caller a list whose memory is gone when reading fails")
        if n is UNINIT: return bad("leaves the caller a list of unknown length when reading fails")
        if not isinstance(n, Num): return
        segs = l.b.f["list"].segs; have = l.b.f["list"].length()
        if not ctx.entails_ge(have - n.lin): return bad("the length handed to the caller (%r) is not covered by the %r messages stored when reading fails" % (n.lin, have))
        pos = Lin(0)
        for s in segs:
            if s[0] == "one" and not ctx.entails_ge(pos - n.lin) and not isinstance(self.message_of(s[1]), MsgV): bad("a message that was not read completely is among those handed to the caller when reading fails")
            if s[0] == "fill": bad("entries that were never set are among those handed to the caller when reading fails")
            pos = pos + seg_len(s)
    def run_process(self, ctx, mx): return self.run_list(ctx, lambda r, l, n: self.invoke(self.fn(self.ns + "_ProcessRawBytes"), [r, Num(mx, "i32"), l, n]))
    def run_unpack(self, ctx): return self.run_list(ctx, lambda r, l, n: self.invoke(self.fn(self.ns + "_UnpackMessages"), [r, l, n]))
    def msgs(self, ctx):
        N_, mk = msg_list(self, ctx)
        return self.in_block(("ptr", ("name", "void")), N_, mk, ("msgs",)), Num(N_, "usize")
    def run_pack(self, ctx):
        l, n = self.msgs(ctx); da = self.access("out", W0)
        if self.failed(self.invoke(self.fn(self.ns + "_PackMessages"), [l, n, OPtr(da)])): return ("err", "clean")
        return ("ok", da.f["position"].lin)
    def run_packed_size(self, ctx):
        l, n = self.msgs(ctx); s, p = self.outcell(("name", "size_t"))
        if self.failed(self.invoke(self.fn(self.ns + "_GetPackedSize"), [l, n, p])): return ("err", "fails")
        return ("ok", self.num(s.f["out"]))
    def run_type(self, ctx, T_):
        o = self.in_value(("struct", T_), (T_,))
        return ("ok", self.num(self.invoke(self.fn(self.ns + "_GetMessageType"), [OPtr(o)])))
    def type_constants(self):
        pre = self.ns + "_MessageType_"
        return {norm(n[len(pre):]): v for n, (en, v) in self.enumc.items() if n.startswith(pre)}
    # ---- declarations
    def fields(self, T_):
        fl = self.structs[self.type_name(T_)].fields; mem = dict(self.schema.members(T_)); ft = dict(fl); skip = set()
        if T_ in self.schema.messages: skip.add(fl[0][0])
        for n, k in mem.items():
            if k[0] in ("str", "list"): skip.add(n + "_len")
            if k == ("list", ("str",)): skip.add(n + "_els_len")
        skip -= set(mem)
        if not mem: return []            # C has no structs without members: a placeholder stands there
        return [(n, ("m", self.rty(t), ft.get(n + "_len"), ft.get(n + "_els_len"))) for n, t in fl if n not in skip]
    def type_ok(self, ty, k):
        if ty[0] == "m":
            S = self.schema
            if k[0] == "str" and self.prim(ty[2]) != self.native(S.string_size): return False
            if k[0] == "list" and self.prim(ty[2]) != self.native(S.list_size): return False
            if k == ("list", ("str",)) and not (ty[3] is not None and ty[3][0] == "ptr" and self.prim(ty[3][1]) == self.native(S.string_size)): return False
            ty = ty[1]
        ty = self.rty(ty)
        if k[0] == "list": return ty[0] == "ptr" and self.type_ok(ty[1], k[1])
        if k[0] == "str": return ty == ("ptr", ("name", "char"))
        if ty[0] != "name": return False
        if k[0] == "num": return self.prim(ty) == ("bool" if k[1] == "bool" else self.native(k[1])) and ty[1] not in self.enums
        if k[0] == "enum": return ty[1] in self.enums and norm(ty[1]) == norm(self.ns + "_" + k[1])
        return self.struct_of(ty) is not None and norm(ty[1]) == norm(self.decl_name(k[1]))
    def enum_decl(self, e):
        en = next((n for n in self.enums if norm(n) == norm(self.ns + "_" + e)), None)
        if en is None: return None, None
        return [(n, self.enumc[n][1]) for n, _ in self.enums[en].values], None
    def enum_name_ok(self, e, declared, got): return got == "%s_%s_%s" % (self.ns, e, declared)
INFCAP = sym(("anycap",), 1 << 60, 1 << 62)
def build(src, schema):
    import re
    g = re.findall(r"^#ifdef (\w+_IMPLEMENTATION)", src, re.M)
    return C(parse_c.parse(src, g), schema)
