"""Swift: abstract semantics of the generated namespace (Data, NSMutableData, String, Array and the checked integer operations modelled)."""
from .lang_oo import *
from . import parse_swift

SWNUM = {"UInt8": "u8", "Int8": "i8", "UInt16": "u16", "Int16": "i16", "UInt32": "u32", "Int32": "i32", "UInt64": "u64", "Int64": "i64", "Int": "i64", "UInt": "u64",
         "Float32": "f32", "Float": "f32", "Double": "f64", "Float64": "f64"}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}
LIBTYPES = ("Data", "NSMutableData", "NSData", "String", "Array", "Bool", "MemoryLayout", "Swift", "Foundation", "Substring", "Character", "Any", "ContiguousArray", "CFSwapInt32", "Optional", "Void", "DataProtocol")
def tail(n): return n.split(".")[-1]
class Range(V):
    def __init__(self, lo, hi, incl): self.lo = lo; self.hi = hi; self.incl = incl
    def __repr__(self): return "%r..%r" % (self.lo, self.hi)
class It(V):
    """sequence with positions"""
    def __init__(self, l): self.l = l
class Raw(V):
    """bytes of a Data seen through an unsafe buffer pointer"""
    def __init__(self, b): self.b = b
    def __repr__(self): return "Raw(%r)" % (self.b,)
class RawP(V):
    def __init__(self, b, off): self.b = b; self.off = Lin.of(off)
    def __repr__(self): return "RawP(%r+%r)" % (self.b, self.off)
class RawV(V):
    """memory of a scalar variable"""
    def __init__(self, v, loc=None): self.v = v; self.loc = loc
    def __repr__(self): return "RawV(%r)" % (self.v,)
class Ref(V):
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return "&var"
def based(b): return getattr(b, "base", Lin(0))
def mkbytes(src, ln, base=0):
    b = Bytes(src, ln); b.base = Lin.of(base); return b

class Swift(OO):
    lang = "swift"; implicit_this = True
    # ---- declarations
    def index(self, decls, prefix=""):
        if not hasattr(self, "structs_all"): self.structs_all = []; self.methods = {}; self.typedefs = {}; self.nss = set(); self.array_ext = []
        for d in decls:
            if d.k == "fn": self.funcs.setdefault(d.name, d); self.overloads.setdefault(d.name, []).append(d) if hasattr(self, "overloads") else setattr(self, "overloads", {d.name: [d]})
            elif d.k == "struct":
                n = tail(d.name)
                if d.flavor == "extension":
                    own = n if n in self.structs or n in self.nss or n in self.enums else "Array" if n in ("Array", "Collection", "Sequence", "RandomAccessCollection", "MutableCollection", "BidirectionalCollection") else n
                    for m in d.methods: m.cls = own
                    if own in self.nss: self.index(d.methods)
                    else:
                        for m in d.methods: self.methods.setdefault((own, m.name), []).append(m)
                        if own in self.structs: self.structs[own].statics.update(d.statics); self.structs[own].bases += d.bases
                    self.index(d.nested); continue
                if d.flavor == "enum" or (d.flavor in ("struct", "class") and d.nested and not d.fields and not any(m.name == "$init" for m in d.methods) and not any(m.cls == d.name and not m.static for m in d.methods)):
                    self.nss.add(n)
                    for m in d.methods: m.cls = None
                    self.index(d.methods); self.index(d.nested)
                    for k, v in d.statics.items(): self.globals_ast.setdefault(k, N("var", d.line, name=k, ty=None, init=v))
                    continue
                if d.flavor == "protocol": self.structs.setdefault(n, d); continue
                self.structs_all.append(n); self.structs.setdefault(n, d)
                for m in d.methods: m.cls = n; self.methods.setdefault((n, m.name), []).append(m)
                self.index(d.nested)
            elif d.k == "enum":
                self.enums.setdefault(d.name, d); self.enum_count = getattr(self, "enum_count", {}); self.enum_count[d.name] = self.enum_count.get(d.name, 0) + 1
                for m in d.methods: m.cls = d.name; self.methods.setdefault((d.name, m.name), []).append(m)
            elif d.k == "var": self.globals_ast.setdefault(d.name, d)
            elif d.k == "typedef": self.typedefs[d.name] = d.ty
    # ---- types
    def resolve(self, ty):
        k = 0
        while ty is not None and ty[0] == "name" and tail(ty[1]) in self.typedefs and k < 9: ty = self.typedefs[tail(ty[1])]; k += 1
        return ty
    def prim(self, ty):
        ty = self.resolve(ty)
        if ty is not None and ty[0] == "name" and tail(ty[1]) not in self.structs: return SWNUM.get(tail(ty[1]))
        return None
    def default_of(self, ty, n):
        ty = self.resolve(ty)
        return NULL if ty is not None and ty[0] == "opt" else UNINIT
    def storage_of(self, en):
        b = self.enums[en].base
        return "u8" if b is None else self.prim(b) or "u8"
    def coerce(self, v, ty, n):
        ty = self.resolve(ty)
        if ty is None: return v
        if ty[0] == "opt": return v if v is NULL else self.coerce(v, ty[1], n)
        p = self.prim(ty)
        if p and isinstance(v, Num) and v.ty in ("int", "float"): return self.trapconv(v, p, n)
        if isinstance(v, ListV) and v.ty is None: v.ty = ty
        return v
    def copyval(self, v):
        if isinstance(v, Obj) and v.kind == "val": return Obj(self.ctx, v.cls, {k: self.copyval(x) for k, x in v.f.items()}, "val")
        if isinstance(v, ListV): return ListV(self.ctx, v.segs, v.ty)
        return v
    def zero_local(self, ty, n): return self.default_of(ty, n)
    def uninit_read(self, cells, k, e): self.err(e, "use of unassigned %r" % (k,))
    def s_var(self, n, sc):
        if n.init is None: return self.declare(sc, n.name, self.default_of(n.ty, n))
        v = self.copyval(self.ev_as(n.init, n.ty, sc))
        if n.ty is None and isinstance(v, Num) and v.ty in ("int", "float"): v = Num(v.lin, "i64" if v.ty == "int" else "f64")
        self.declare(sc, n.name, self.coerce(v, n.ty, n) if n.ty is not None else v)
    def fit(self, v, old, t, e):
        if isinstance(old, Num) and isinstance(v, Num) and v.ty in ("int", "float") and v.ty != old.ty: return self.trapconv(v, old.ty, e)
        return v
    # ---- traps
    def panic(self, why): raise PathEnd("panic", why)
    def index_oob(self, l, i, e): self.panic("index %r not proven inside a list of %r elements" % (i, l.length()))
    def null_member(self, o, f, e):
        if o is NULL: self.panic("member %s of nil" % f)
        self.err(e, "member %s of %r" % (f, o))
    strict = False; sizing = False
    def based(self, b):
        """index of the first byte"""
        l = based(b)
        return Lin(0) if not l.is_const() and self.ctx.decide(c_eq(l)) is True else l
    def in_range(self, l, ty):
        """(fits, excess) by what is known; None: undecided"""
        lo, hi = int_range(ty); a, b = self.ctx.bounds(l)
        if (a >= lo or self.ctx.entails_ge(l - lo)) and (b <= hi or self.ctx.entails_ge(l.scale(-1) + hi)): return True
        return None
    def trapconv(self, v, ty, e):
        """integer conversion that traps when the value does not fit"""
        ctx = self.ctx
        if isinstance(v, EnumV): v = Num(v.lin, self.storage_of(v.enum))
        if ty not in INTS: return Num(v.lin, ty)
        if isinstance(v, Num) and v.ty[0] == "f":
            if v.lin.is_const(): return Num(int(v.lin.c), ty)
            return OO.conv(self, v, ty)
        l = v.lin
        if self.in_range(l, ty): return Num(l, ty)
        lo, hi = int_range(ty); a, b = ctx.bounds(l)
        if INTS[ty][0] == 64 and not self.strict and (b == INF or b > 1 << 64): return Num(l, ty)     # native width assumed
        if self.sizing and INTS[ty][0] >= 32: return Num(l, ty)          # totals beyond the return type cannot be reported at all
        if a < lo and not ctx.branch(c_ge(l - lo)): self.panic("%r does not fit %s" % (l, ty))
        if b > hi and not ctx.branch(c_ge(l.scale(-1) + hi)): self.panic("%r does not fit %s" % (l, ty))
        return Num(l, ty)
    def arith(self, op, a, b, e):
        if isinstance(a, RawP) and isinstance(b, Num): return RawP(a.b, a.off + b.lin if op == "+" else a.off - b.lin)
        if isinstance(a, Str) or isinstance(b, Str) or isinstance(a, Opq) or isinstance(b, Opq): return Opq("text")
        if isinstance(a, ListV) and isinstance(b, ListV) and op == "+": return ListV(self.ctx, a.segs + b.segs, a.ty)
        if isinstance(a, Bytes) and isinstance(b, Bytes) and op == "+": return Bytes(("cat", (a, b)), a.ln + b.ln)
        if op in ("&+", "&-", "&*"):
            r = OO.arith(self, op[1], a, b, e)
            return OO.conv(self, r, r.ty) if r.ty in INTS else r
        r = OO.arith(self, op, a, b, e); ctx = self.ctx
        if op in ("+", "-", "*") and isinstance(r, Num) and r.ty in INTS and not self.in_range(r.lin, r.ty):
            lo, hi = int_range(r.ty)
            if op == "-" and lo == 0 and not ctx.branch(c_ge(r.lin)): self.panic("subtraction below zero")
            if self.sizing and INTS[r.ty][0] >= 32: return r
            if INTS[r.ty][0] < 64:
                if not ctx.branch(c_ge(r.lin.scale(-1) + hi)): self.panic("arithmetic overflow in %s" % r.ty)
                if lo < 0 and not ctx.branch(c_ge(r.lin - lo)): self.panic("arithmetic overflow in %s" % r.ty)
            elif self.strict and ctx.decide(c_ge(r.lin.scale(-1) + hi)) is not True and ctx.bounds(r.lin)[1] != INF: self.panic("arithmetic overflow in %s" % r.ty)
        if op == "<<" and isinstance(r, Num) and r.ty in INTS: return OO.conv(self, r, r.ty)
        return r
    # ---- statements
    def seq(self, body, sc):
        for i, s in enumerate(body):
            if s.k == "defer":
                try: self.seq(body[i + 1:], sc)
                except (RetX, ThrowX, BrkX, ContX): self.run_block(s.body, sc); raise
                self.run_block(s.body, sc); return
            self.stmt(s, sc)
    def bind_cond(self, c, sc):
        """one element of a condition list"""
        if c.k == "iflet":
            v = self.ev(c.e, sc)
            if v is NULL: return F
            if isinstance(v, Opq) and v.tag == "hv": self.err(c, "optional of unknown state")
            if c.name != "_": self.declare(sc, c.name, self.copyval(v))
            return T
        if c.k == "casecond":
            v = self.ev(c.e, sc)
            return self.pattern(c.pat, v, sc)
        return self.cond(c, sc)
    def pattern(self, p, v, sc):
        if p.k == "pwild": return T
        if p.k == "pbind": self.declare(sc, p.id, v); return T
        return self.case_cond(v, p.e, sc)
    def cond_list(self, cs, sc):
        for c in cs[:-1]:
            if not self.ctx.branch(self.bind_cond(c, sc)): return F
        return self.bind_cond(cs[-1], sc)
    def s_guard(self, n, sc):
        s2 = Scope(self.ctx, sc)
        if not self.ctx.branch(self.cond_list(n.conds, s2)):
            self.run_block(n.els, sc); self.err(n, "guard falls through")
        for k, v in s2.f.items(): self.declare(sc, k, v)
    def s_sif(self, n, sc):
        s2 = Scope(self.ctx, sc)
        if self.ctx.branch(self.cond_list(n.conds, s2)): self.run_block(n.a, s2)
        elif n.b is not None: self.run_block(n.b, sc)
    def s_swhile(self, n, sc):
        s2 = Scope(self.ctx, sc)
        self.loop(n, s2, cond=lambda: self.cond_list(n.conds, s2), body=lambda: self.run_block(n.body, s2), step=None)
    def s_fn(self, n, sc): self.declare(sc, n.name, FnV(n, self.this_of(sc), sc))
    def s_destruct(self, n, sc):
        v = self.ev(n.init, sc)
        if not isinstance(v, Tup): self.err(n, "tuple expected")
        for k, x in zip(n.names, v.els):
            if k != "_": self.declare(sc, k, x)
    def s_foreach(self, n, sc):
        it = self.ev(n.iter, sc)
        var = n.var
        def run(s):
            if getattr(n, "where", None) is not None and not self.ctx.branch(self.cond(n.where, s)): return
            self.run_block(n.body, s)
        def name(s, v):
            if isinstance(var, list):
                if not isinstance(v, Tup): self.err(n, "tuple expected")
                for k, x in zip(var, v.els): s.f[k] = x
            elif var != "_": s.f[var] = self.copyval(v)
        if isinstance(it, Range):
            lo, hi = self.num(it.lo, n), self.num(it.hi, n)
            if it.incl: hi = hi + 1
            ty = it.hi.ty if it.lo.ty == "int" else it.lo.ty
            if ty == "int": ty = "i64"
            N_ = hi - lo
            if self.ctx.bounds(N_)[0] < 0 and not self.ctx.entails_ge(N_) and not self.ctx.branch(c_ge(N_)): self.panic("range from %r to %r" % (lo, hi))
            return self.foreach(n, sc, N_, lambda s, ix: name(s, Num(lo + ix, ty)), run)
        en = isinstance(it, It)
        l = it.l if en else it
        if isinstance(l, Bytes): l = self.bytes_list(l, n)
        if not isinstance(l, ListV): self.err(n, "iteration over %r" % (it,))
        self.foreach(n, sc, l.length(), lambda s, ix: name(s, Tup([Num(ix, "i64"), self.list_get(l, ix, n)]) if en else self.list_get(l, ix, n)), run)
    def bytes_list(self, b, e):
        if b.src[0] == "lit": return ListV(self.ctx, tuple(("one", Num(x, "u8")) for x in b.src[1]))
        if b.src[0] == "buf": return ListV(self.ctx, (("bulk", b.ln, b.src[2], 1, "u"),))
        self.err(e, "iteration over %r" % (b,))
    def s_trycatch(self, n, sc):
        try: self.run_block(n.body, sc)
        except ThrowX as t:
            if not n.catches: raise
            nm, ty, b = n.catches[0]
            s2 = Scope(self.ctx, sc); self.declare(s2, "error", t.v); self.ctx.flags["caught"] = True
            self.run_block(b, s2)
    def case_value(self, p, v, sc):
        if p.k == "dotlit": return self.dot(p.id, v, p)
        return self.ev(p, sc)
    def case_cond(self, v, p, sc):
        if p.k in ("rangex",) or (p.k == "bin" and p.op in ("...", "..<")):
            r = self.ev(p, sc); l = self.num(v); c = T
            if r.lo is not None: c = c_and(c, c_ge(l - self.num(r.lo)))
            if r.hi is not None: c = c_and(c, c_ge(self.num(r.hi) - l - (0 if r.incl else 1)))
            return c
        if p.k == "lit" and p.t == "null": return T if v is NULL else F
        return OO.case_cond(self, v, p, sc)
    def dot(self, name, v, e):
        if isinstance(v, EnumV): 
            c = self.enum_const(v.enum, name, e)
            if c is None: self.err(e, "no enumerator " + name)
            return EnumV(v.enum, c)
        if isinstance(v, AbsMsg): self.err(e, "case of a message")
        self.err(e, "implicit member " + name)
    # ---- expressions
    def e_stry(self, e, sc):
        if e.q is None: return self.ev(e.e, sc)
        try: return self.ev(e.e, sc)
        except ThrowX:
            if e.q == "?": self.ctx.flags["caught"] = True; return NULL
            self.panic("try! of a failing call")
    def e_unwrap(self, e, sc):
        v = self.ev(e.e, sc)
        if v is NULL: self.panic("forced unwrap of nil")
        if isinstance(v, RawP) and not self.ctx.entails_ge(v.b.ln - 1): self.panic("address of data that may be empty")
        if isinstance(v, Opq) and v.tag == "hv": self.err(e, "unwrap of unknown")
        return v
    def e_optchain(self, e, sc): return self.ev(e.e, sc)
    def e_cast(self, e, sc):
        v = self.ev(e.e, sc)
        return self.coerce(v, e.ty, e)
    def e_tuple(self, e, sc): return Tup([self.ev(x, sc) for x in e.elems])
    def e_bin(self, e, sc):
        if e.op == "??":
            v = self.ev(e.l, sc)
            return self.ev(e.r, sc) if v is NULL else v
        if e.op in ("..<", "..."): return Range(self.ev(e.l, sc), self.ev(e.r, sc), e.op == "...")
        if e.op in ("==", "!="):
            l, r = e.l, e.r
            if l.k == "dotlit": l, r = r, l
            if r.k == "dotlit":
                v = self.ev(l, sc); c = self.equal(v, self.dot(r.id, v, e), e)
                return Bool(c_not(c) if e.op == "!=" else c)
        return OO.e_bin(self, e, sc)
    def e_rangex(self, e, sc): return Range(None if e.lo is None else self.ev(e.lo, sc), None if e.hi is None else self.ev(e.hi, sc), e.incl)
    def e_un(self, e, sc):
        if e.op == "&":
            loc = self.loc(e.e, sc); v = self.load(loc, e)
            return Ref(loc) if isinstance(v, (Num, Bool, Str, EnumV)) or v is UNINIT else v
        if e.op == "~":
            v = self.ev(e.e, sc); return Num(Lin(-1) - v.lin, v.ty) if v.ty[0] == "i" else Num(sym(("not", v.lin.key), 0, int_range(v.ty)[1]), v.ty)
        if e.op == "-":
            v = self.ev(e.e, sc); r = Num(v.lin.scale(-1), v.ty)
            if v.ty in INTS and not self.in_range(r.lin, v.ty) and not self.ctx.branch(c_ge(r.lin.scale(-1) + int_range(v.ty)[1])): self.panic("negation overflow")
            return r
        return OO.e_un(self, e, sc)
    def e_cond(self, e, sc):
        c = self.cond(e.c, sc)
        return self.flag_value(c, self.ev(e.a if self.ctx.branch(c) else e.b, sc))
    def e_switch(self, e, sc): self.s_switch(e, sc)
    def e_alit(self, e, sc): return ListV(self.ctx, tuple(("one", self.copyval(self.ev(x, sc))) for x in e.elems))
    def e_maplit(self, e, sc): self.err(e, "dictionary")
    def e_dotlit(self, e, sc):
        if e.id in ("utf8", "ascii", "utf16", "isoLatin1", "unicode", "utf16LittleEndian"): return Opq("encoding", e.id)
        return Opq("dot", e.id)
    def e_new(self, e, sc):
        ty = self.resolve(e.ty)
        args = [(l, self.ev(a, sc)) for l, a in e.args]
        if ty[0] == "slice" or (ty[0] == "gen" and tail(ty[1]) == "Array"):
            l = self.array(args, e); l.ty = ty; return l
        if ty[0] == "gen" and tail(ty[1]) == "Optional": return NULL
        self.err(e, "construction of %r" % (ty,))
    def array(self, args, e):
        if not args: return ListV(self.ctx, ())
        d = dict(args)
        if "repeating" in d:
            n = self.num(d["count"], e)
            if self.ctx.decide(c_ge(n)) is not True and not self.ctx.branch(c_ge(n)): self.panic("negative count")
            return ListV(self.ctx, (("fill", n, self.copyval(d["repeating"])),) if n != Lin(0) else ())
        v = args[0][1]
        if isinstance(v, ListV): return ListV(self.ctx, v.segs, v.ty)
        if isinstance(v, Bytes): return v
        if isinstance(v, Raw): return v.b
        if isinstance(v, RawV): return self.num_bytes(v.v)
        self.err(e, "array of %r" % (v,))
    def num_bytes(self, v):
        ty = {"int": "i64", "float": "f64"}.get(v.ty, v.ty) if isinstance(v, Num) else None
        if ty is None: raise AnalysisError("swift: bytes of %r" % (v,))
        return Bytes(("num", Num(v.lin, ty)), WIDTH[ty])
    def ev_as(self, e, ty, sc):
        if e.k == "dotlit" and ty is not None:
            t = self.resolve(ty)
            if t[0] == "opt": t = t[1]
            if t[0] == "name":
                if e.id == "init": return TypeV(t)
                return self.member(TypeV(("name", tail(t[1]))), e.id, e)
        if e.k == "call" and e.f.k == "dotlit" and ty is not None and e.f.id == "init":
            return self.e_call(N("call", e.line, f=N("tyref", e.line, ty=ty), args=e.args, targs=None), sc)
        return self.ev(e, sc)
    def e_tyref(self, e, sc): return TypeV(e.ty)
    def e_name(self, e, sc):
        if e.id == "self":
            th = self.this_of(sc)
            if th is None:
                s = sc.find("$cls")
                if s is not None: return s.f["$cls"]
                self.err(e, "self")
            return th
        if e.id == "Self":
            s = sc.find("$cls")
            if s is None: self.err(e, "Self")
            return s.f["$cls"]
        if e.id == "super":
            th = self.this_of(sc); s = sc.find("$cls")
            return Opq("super", th, s.f["$cls"].ty[1])
        return OO.e_name(self, e, sc)
    def bind_this(self, s, fn, this):
        if isinstance(this, TypeV): s.f["$cls"] = this; return
        if this is not None: s.f["$this"] = this
        c = getattr(fn, "cls", None)
        if isinstance(this, Obj): s.f["$cls"] = TypeV(("name", this.cls)); s.f["$decl"] = TypeV(("name", c or this.cls))
        elif c and c != "Array": s.f["$cls"] = TypeV(("name", c))
    def lib_name(self, name, e):
        if name in self.nss: return TypeV(("name", name))
        if name in SWNUM or name in LIBTYPES: return TypeV(("name", name))
        if name in self.typedefs: return TypeV(self.typedefs[name])
        return Opq("pkg", name)
    def global_name(self, name, e, sc):
        if name in self.globals_ast: return self.global_cell(name, e, sc).f[name]
        if name in getattr(self, "overloads", {}): return Opq("funcs", name)
        if name in self.structs or name in self.enums: return TypeV(("name", name))
        # methods of an extended list are in scope inside the extension
        th = self.this_of(sc)
        if isinstance(th, ListV):
            if ("Array", name) in self.methods:
                m = self.methods[("Array", name)][0]
                return self.invoke(m, [], th) if getattr(m, "acc", None) == "get" else Opq("methods", "Array", name, th)
            if name in ("count", "isEmpty", "indices"): return self.value_member(th, name, e)
            if name in ("append", "reserveCapacity", "reduce", "map", "forEach", "enumerated", "compactMap"): return Bound(th, name)
        return self.lib_name(name, e)
    def l_name(self, e, sc):
        if e.id == "_": return ("drop",)
        return OO.l_name(self, e, sc)
    def l_tuple(self, e, sc): self.err(e, "tuple assignment")
    def l_mem(self, e, sc):
        if e.o.k == "unwrap": o = self.e_unwrap(e.o, sc)
        else: o = self.place(e.o, sc)
        if isinstance(o, Obj): return ("cell", o.f, e.f)
        if isinstance(o, TypeV) and o.ty[0] == "name" and tail(o.ty[1]) in self.structs and e.f in self.structs[tail(o.ty[1])].statics:
            self.static_value(tail(o.ty[1]), e.f, e); return ("cell", self.statics_cells(), (tail(o.ty[1]), e.f))
        return ("prop", o, e.f)
    def l_idx(self, e, sc):
        o = self.place(e.o, sc); i = self.ev(e.i, sc)
        if isinstance(o, ListV): return ("elem", o, self.num(i, e))
        return ("at", o, i)
    def l_unwrap(self, e, sc): return self.loc(e.e, sc)
    def place(self, e, sc):
        """value of an expression that is about to be changed in place"""
        if e.k == "idx":
            t = self.l_idx(e, sc)
            return self.load(t, e)
        return self.ev(e, sc)
    def set_prop(self, o, f, v, e): self.err(e, "assignment to %s of %r" % (f, o))
    def type_key(self, t): return tail(t[1]) if t[0] == "name" else t
    def equal(self, a, b, n):
        if isinstance(a, Str) and isinstance(b, Str) and "opq" in (a.kind, b.kind): return Cond("op", ("streq", a.key(), b.key()))
        if isinstance(a, ListV) and isinstance(b, Bytes): a, b = b, a
        if isinstance(a, Bytes) and isinstance(b, ListV) and all(s[0] == "one" for s in b.segs): return self.bytes_equal(a, Bytes(("lit", bytes(self.num(s[1]).c for s in b.segs)), len(b.segs)), n)
        return OO.equal(self, a, b, n)
    def is_null(self, v, n):
        if v is NULL: return T
        if isinstance(v, Opq) and v.tag == "hv": return OO.is_null(self, v, n)
        return F
    # ---- members
    def e_mem(self, e, sc):
        if e.f == "self":
            if e.o.k == "name" and sc.find(e.o.id) is None and (e.o.id in SWNUM or e.o.id in self.structs or e.o.id in self.enums or e.o.id in LIBTYPES): return TypeV(("name", e.o.id))
            return self.ev(e.o, sc)
        o = self.place(e.o, sc)
        if o is NULL and e.o.k == "optchain": return NULL
        return self.member(o, e.f, e)
    def member(self, o, f, e):
        if isinstance(o, TypeV) and o.ty[0] == "name" and "." in o.ty[1]: o = TypeV(("name", tail(o.ty[1])))
        if isinstance(o, Tup) and f.isdigit(): return o.els[int(f)]
        return OO.member(self, o, f, e)
    def class_member(self, c, name, th, e):
        for k in self.lineage(c):
            d = self.structs.get(k)
            if d is None: break
            if name in d.statics: return self.static_value(k, name, e)
            ms = self.methods.get((k, name))
            if ms:
                if getattr(ms[0], "acc", None) == "get": return self.invoke(ms[0], [], th)
                return Opq("methods", c, name, th if th is not None else TypeV(("name", c)))
        if c in self.enums and (c, name) in self.methods:
            m = self.methods[(c, name)][0]
            return self.invoke(m, [], th) if getattr(m, "acc", None) == "get" else Opq("methods", c, name, th)
        return None
    def type_member(self, o, f, e):
        n = o.ty[1]
        if n in self.nss or n in ("Swift", "Foundation"):
            if f in self.structs or f in self.enums: return TypeV(("name", f))
            if f in getattr(self, "overloads", {}): return Opq("funcs", f)
            if f in self.globals_ast: return self.global_cell(f, e, self.gscope).f[f]
            return self.lib_name(f, e)
        if n in SWNUM:
            if f in ("max", "min") and SWNUM[n] in INTS: return Num(int_range(SWNUM[n])[0 if f == "min" else 1], SWNUM[n])
            if f == "zero": return Num(0, SWNUM[n])
            if f == "bitWidth": return Num(8 * WIDTH[SWNUM[n]], "i64")
        if f == "init": return o
        if n == "MemoryLayout" and o.ty[0] == "gen":
            t = self.prim(o.ty[2][0]); x = self.resolve(o.ty[2][0])
            w = WIDTH[t] if t else WIDTH[self.storage_of(tail(x[1]))] if x[0] == "name" and tail(x[1]) in self.enums else 1 if x == ("name", "Bool") else None
            if w and f in ("size", "stride"): return Num(w, "i64")
        if n == "String" and f == "Encoding": return Opq("pkg", "Encoding")
        return Opq("pkg", "%s.%s" % (n, f))
    def value_member(self, o, f, e):
        ctx = self.ctx
        if isinstance(o, Opq):
            if o.tag == "pkg":
                if o.a[0] == "Encoding": return Opq("encoding", f)
                return Opq("pkg", o.a[0] + "." + f)
            if o.tag == "super":
                d = self.lineage(o.a[1])[1:]
                if f == "init": return Opq("superinit")
                return Opq("methods", d[0], f, o.a[0])
            if o.tag == "out":
                if f in ("length", "count"): return Num(self.io["out"].lin, "i64")
                return Bound(o, f)
        if isinstance(o, AbsMsg): return Bound(o, f)
        if isinstance(o, EnumV):
            if f == "rawValue": return Num(o.lin, self.storage_of(o.enum))
            v = self.class_member(o.enum, f, o, e)
            if v is not None: return v
        if isinstance(o, ListV):
            if f == "count": return Num(o.length(), "i64")
            if f == "isEmpty": return Bool(c_eq(o.length()))
            if f == "indices": return Range(Num(0, "i64"), Num(o.length(), "i64"), False)
            if f in ("startIndex",): return Num(0, "i64")
            if f == "endIndex": return Num(o.length(), "i64")
            if ("Array", f) in self.methods:
                m = self.methods[("Array", f)][0]
                return self.invoke(m, [], o) if getattr(m, "acc", None) == "get" else Opq("methods", "Array", f, o)
            if f == "first":
                if not ctx.branch(c_ge(o.length() - 1)): return NULL
                return self.list_get(o, Lin(0), e)
        if isinstance(o, Bytes):
            if f == "count": return Num(o.ln, "i64")
            if f == "isEmpty": return Bool(c_eq(o.ln))
            if f == "startIndex": return Num(self.based(o), "i64")
            if f == "endIndex": return Num(self.based(o) + o.ln, "i64")
            if f == "indices": return Range(Num(self.based(o), "i64"), Num(self.based(o) + o.ln, "i64"), False)
            if f == "first":
                if not ctx.branch(c_ge(o.ln - 1)): return NULL
                return self.index_value(o, Num(self.based(o), "i64"), e)
        if isinstance(o, Str):
            if f in ("utf8", "utf8CString"): return Bytes(("utf8", o), self.str_ulen(o) + (1 if f == "utf8CString" else 0))
            if f == "count": return Num(sym(("chars", o.key()), 0), "i64")
            if f in ("utf16", "unicodeScalars"): return Opq("chars", f, o)
            if f == "isEmpty": return Bool(c_eq(self.str_ulen(o)))
        if isinstance(o, Opq) and o.tag == "chars" and f == "count": return Num(sym((o.a[0], o.a[1].key()), 0), "i64")
        if isinstance(o, Num):
            if f == "littleEndian": return o
            if f in ("bigEndian", "byteSwapped"): return self.swapped(o)
            if f == "bitPattern": return o
            if f == "description": return Opq("text")
            if f == "magnitude" and ctx.bounds(o.lin)[0] >= 0: return o
        if isinstance(o, Raw):
            if f == "count": return Num(o.b.ln, "i64")
            if f == "baseAddress": return RawP(o.b, 0)
            if f == "isEmpty": return Bool(c_eq(o.b.ln))
        if isinstance(o, RawV) and f == "baseAddress": return o
        if isinstance(o, RawV) and f == "count": return Num(self.num_bytes(o.v).ln, "i64")
        if isinstance(o, Range):
            if f == "count": return Num(self.num(o.hi) - self.num(o.lo) + (1 if o.incl else 0), "i64")
            if f in ("lowerBound", "upperBound"): return o.lo if f == "lowerBound" else o.hi
        return Bound(o, f)
    def swapped(self, v):
        if v.lin.is_const() and v.ty in INTS:
            b = INTS[v.ty][0] // 8; return Num(int.from_bytes((v.lin.c & ((1 << (8 * b)) - 1)).to_bytes(b, "little"), "big"), v.ty)
        if v.ty in ("u8", "i8"): return v
        return Num(sym(("swap", v.lin.key, v.ty), *((-INF, INF) if v.ty[0] == "f" else int_range(v.ty))), v.ty)
    def slice_bytes(self, o, i, e):
        ctx = self.ctx; b0 = self.based(o)
        lo = b0 if i.lo is None else self.num(i.lo, e); hi = b0 + o.ln if i.hi is None else self.num(i.hi, e) + (1 if i.incl else 0)
        ctx.count("bounds")
        if not (ctx.entails_ge(lo - b0) and ctx.entails_ge(hi - lo) and ctx.entails_ge(b0 + o.ln - hi)): self.panic("slice %r..%r not proven inside %r bytes" % (lo, hi, o.ln))
        if o.src[0] == "buf": return mkbytes(("buf", None, o.src[2] + lo - b0), hi - lo, lo)
        if o.src[0] == "lit" and lo.is_const() and hi.is_const() and b0.is_const(): return mkbytes(("lit", o.src[1][lo.c - b0.c:hi.c - b0.c]), hi - lo, lo)
        if hi - lo == o.ln: return mkbytes(o.src, o.ln, lo)
        self.err(e, "slice of %r" % (o,))
    def index_value(self, o, i, e):
        ctx = self.ctx
        if isinstance(o, Bytes):
            if isinstance(i, Range): return self.slice_bytes(o, i, e)
            i = self.num(i, e) - self.based(o); ctx.count("bounds")
            if not (ctx.entails_ge(i) and ctx.entails_ge(o.ln - i - 1)): self.panic("index %r not proven inside %r bytes" % (i, o.ln))
            if o.src[0] == "buf": return self.rd(o.src[2] + i, 1, "u")
            if o.src[0] == "lit" and i.is_const(): return Num(o.src[1][i.c], "u8")
            if o.src[0] == "num" and i.is_const(): self.err(e, "byte of a number")
        if isinstance(o, Raw): return self.index_value(mkbytes(o.b.src, o.b.ln), i, e)
        if isinstance(o, RawP): return self.raw_load(o.b, o.off + self.num(i, e), "u8", e, False)
        self.err(e, "index into %r" % (o,))
    def e_idx(self, e, sc):
        o = self.place(e.o, sc); i = self.ev(e.i, sc)
        if isinstance(o, ListV):
            if isinstance(i, Range):
                lo = Lin(0) if i.lo is None else self.num(i.lo); hi = o.length() if i.hi is None else self.num(i.hi) + (1 if i.incl else 0)
                if lo == Lin(0) and hi == o.length(): return o
                self.err(e, "slice of a list")
            return self.list_get(o, self.num(i, e), e)
        return self.index_value(o, i, e)
    def raw_load(self, b, off, ty, e, checked):
        """load a number from raw memory"""
        ctx = self.ctx; w = WIDTH[ty]; ctx.count("bounds")
        if not (ctx.entails_ge(off) and ctx.entails_ge(b.ln - off - w)):
            if checked: self.panic("load at %r not proven inside %r bytes" % (off, b.ln))
            self.note("C09", "reads %d bytes at %r which may be outside the %r bytes present" % (w, off, b.ln)); raise PathEnd("noted")
        if b.src[0] == "buf":
            k = "f" if ty[0] == "f" else "u" if ty[0] == "u" else "s"
            return Num(self.rd(b.src[2] + off, w, k).lin, ty)
        if b.src[0] == "lit" and off.is_const(): return Num(int.from_bytes(b.src[1][off.c:off.c + w], "little", signed=ty[0] == "i"), ty)
        if b.src[0] == "num" and off == Lin(0) and w == WIDTH[b.src[1].ty]: return self.reinterpret(b.src[1], ty)
        self.err(e, "load from %r" % (b,))
    def reinterpret(self, v, ty):
        if v.ty == ty: return v
        if "f" in (v.ty[0], ty[0]):
            o = v.lin.one()
            if v.ty[0] != "f" and o and o[1:] == (1, 0) and isinstance(o[0].key, tuple) and o[0].key[0] == "rd": return Num(self.rd(Lin(o[0].key[1][0], dict(o[0].key[1][1])), WIDTH[ty], "f").lin, ty)
            return Num(v.lin, ty)        # the bits of a number read as another type of the same width
        return OO.conv(self, v, ty)
    # ---- calls
    def param(self, p): return p[0], p[1]
    def default_arg(self, fn, i, s):
        if fn.defaults and fn.defaults[i] is not None: return self.ev(fn.defaults[i], s)
        self.err(fn, "missing argument %d" % i)
    def bind_params(self, s, fn, args):
        if fn.params is None:
            for i, a in enumerate(args): s.f["$%d" % i] = a
            return
        for i, p in enumerate(fn.params):
            v = args[i] if i < len(args) and args[i] is not None else self.default_arg(fn, i, s)
            s.f[p[0]] = self.coerce(v, p[1], fn) if p[1] is not None else v
    def run_body(self, fn, s):
        b = fn.body
        if b is not None and len(b.body) == 1 and b.body[0].k == "expr" and getattr(fn, "ret", None) is not None:      # implicit return
            raise RetX(self.ev_as(b.body[0].e, fn.ret, s))
        self.run_block(b, s)
    def s_ret(self, n, sc):
        if n.e is None: raise RetX(None)
        s = sc.find("$ret"); raise RetX(self.ev_as(n.e, s.f["$ret"].ty if s is not None and s.f["$ret"] is not None else None, sc))
    def invoke(self, fn, args, this=None, env=None, names=None, targs=None):
        self.next_ret = TypeV(fn.ret) if getattr(fn, "ret", None) is not None else None
        r = OO.invoke(self, fn, args, this, env, names, targs)
        return r
    def ret_value(self, fn, r, s):
        ret = getattr(fn, "ret", None)
        return self.coerce(r, ret, fn) if ret is not None and r is not None else r
    def match_labels(self, fn, labels):
        """argument positions for the labels given, or None"""
        pos = []; i = 0; L = fn.labels
        for lab in labels:
            while True:
                if i >= len(L): return None
                if lab == "$trailing":
                    if i == len(L) - 1: break
                elif L[i] == lab: break
                if fn.defaults and fn.defaults[i] is not None: pos.append(None); i += 1; continue
                return None
            pos.append(lab); i += 1
        while i < len(L):
            if not (fn.defaults and fn.defaults[i] is not None): return None
            pos.append(None); i += 1
        return pos
    def pick_by_labels(self, ms, args, e):
        labels = [l for l, a in args]; best = []
        for m in ms:
            p = self.match_labels(m, labels)
            if p is not None: best.append((m, p))
        if len(best) > 1:
            vals = [a for l, a in args]
            good = [(m, p) for m, p in best if len(m.params) == len(vals) and all(self.arg_fits(v, t) for v, (n, t) in zip(vals, m.params))]
            best = good or best
        if not best: return None
        m, p = best[0]; out = []; it = iter(args)
        for x in p: out.append(None if x is None and not (x is None and None in labels and False) else 0)
        # positions with an argument take them in order
        vals = [a for l, a in args]; k = 0; res = []
        for i, x in enumerate(self.match_mask(m, labels)):
            if x: res.append(vals[k]); k += 1
            else: res.append(None)
        return m, res
    def match_mask(self, fn, labels):
        mask = []; i = 0; L = fn.labels
        for lab in labels:
            while not (L[i] == lab or (lab == "$trailing" and i == len(L) - 1)): mask.append(False); i += 1
            mask.append(True); i += 1
        return mask + [False] * (len(L) - i)
    def arg_fits(self, v, ty):
        ty = self.resolve(ty)
        if ty is None: return True
        if ty[0] == "opt": ty = ty[1]
        p = self.prim(ty)
        if isinstance(v, Num): return p is not None and (v.ty == p or v.ty == "int" or (v.ty == "float" and p[0] == "f"))
        if isinstance(v, Bool): return ty == ("name", "Bool")
        if isinstance(v, Str): return ty == ("name", "String")
        if isinstance(v, EnumV): return ty[0] == "name" and tail(ty[1]) == v.enum
        if isinstance(v, Obj): return ty[0] == "name" and tail(ty[1]) in self.lineage(v.cls)
        if isinstance(v, Bytes): return ty[0] == "name" and tail(ty[1]) in ("Data", "DataProtocol")
        return True
    def e_call(self, e, sc):
        f = e.f
        if f.k == "mem":
            o = self.place(f.o, sc) if f.f != "self" else None
            if o is NULL and f.o.k == "optchain": return NULL
            fv = self.member(o, f.f, e) if not (o is None) else self.ev(f, sc)
        elif f.k == "name" and f.id in ("fatalError", "preconditionFailure", "assertionFailure"): self.panic(f.id)
        elif f.k == "name" and f.id in ("print", "debugPrint", "NSLog"): return None
        elif f.k == "name" and f.id in ("precondition", "assert"):
            if not self.ctx.branch(self.cond(e.args[0][1], sc)): self.panic(f.id)
            return None
        else: fv = self.ev(f, sc)
        args = [(l, self.ev(a, sc)) for l, a in e.args]
        return self.apply_l(fv, args, e, sc)
    def apply(self, f, args, e, sc): return self.apply_l(f, [(None, a) for a in args], e, sc)
    def apply_l(self, f, args, e, sc):
        vals = [a for l, a in args]
        if isinstance(f, FnV): return self.invoke(f.fn, vals, f.this, f.env)
        if isinstance(f, TypeV): return self.make(f, args, e, sc)
        if isinstance(f, Opq):
            if f.tag == "methods":
                cls, name, th = f.a
                ms = [m for c in self.lineage(cls) for m in self.methods.get((c, name), ())] or list(self.methods.get((cls, name), ()))
                r = self.pick_by_labels(ms, args, e)
                if r is None: self.err(e, "no method %s.%s with labels %s" % (cls, name, [l for l, a in args]))
                m, a = r
                return self.invoke(m, a, (TypeV(("name", cls)) if not isinstance(th, Obj) else TypeV(("name", th.cls))) if m.static else th)
            if f.tag == "funcs":
                r = self.pick_by_labels(self.overloads[f.a[0]], args, e)
                if r is None: self.err(e, "no function %s with labels %s" % (f.a[0], [l for l, a in args]))
                return self.invoke(r[0], r[1])
            if f.tag == "superinit": return None
            if f.tag == "pkg": return self.lib_call(f.a[0], args, e, sc)
        if isinstance(f, Bound):
            if isinstance(f.o, AbsMsg): return self.abs_method(f.o, f.name, vals, e)
            return self.lib_method_l(f.o, f.name, args, e, sc)
        self.err(e, "call of %r" % (f,))
    def make(self, t, args, e, sc):
        """construction or conversion"""
        ty = self.resolve(t.ty); ctx = self.ctx; d = dict(args)
        if ty[0] == "slice" or (ty[0] == "gen" and tail(ty[1]) == "Array") or ty == ("name", "Array"): l = self.array(args, e); return l
        if ty[0] == "opt": return args[0][1]
        n = tail(ty[1]); p = self.prim(ty)
        if n in self.structs: return self.construct_l(n, args, e)
        if n in self.enums:
            v = d.get("rawValue")
            if v is None: self.err(e, "construction of enum " + n)
            vals = sorted(self.enum_table(n).values()); l = self.num(v, e); o = l.one()
            st = self.storage_of(n)
            if isinstance(v, Num) and v.ty != st and v.ty != "int": self.err(e, "raw value of another type")
            if l.is_const(): return EnumV(n, l) if l.c in vals else NULL
            if o and o[1] == 1:
                if ctx.branch(c_in(o[0], IntSet.of([x - o[2] for x in vals]))): return EnumV(n, l)
                return NULL
            self.err(e, "enum from %r" % (v,))
        if p:
            lab, v = args[0]
            if isinstance(v, Ref): v = self.load(v.loc, e)
            if lab in ("littleEndian",): return Num(v.lin, p) if v.ty == p or v.ty == "int" else self.reinterpret(v, p)
            if lab == "bigEndian": return self.swapped(Num(v.lin, p))
            if lab == "bitPattern": return self.reinterpret(v if isinstance(v, Num) else Num(self.num(v, e), "int"), p)
            if lab == "truncatingIfNeeded": return OO.conv(self, v, p)
            if lab == "exactly":
                l = self.num(v, e)
                if p in INTS and not self.in_range(l, p):
                    lo, hi = int_range(p)
                    if not ctx.branch(c_ge(l - lo)) or not ctx.branch(c_ge(l.scale(-1) + hi)): return NULL
                return Num(l, p)
            if lab == "clamping":
                l = self.num(v, e); lo, hi = int_range(p)
                if not ctx.branch(c_ge(l - lo)): return Num(lo, p)
                if not ctx.branch(c_ge(l.scale(-1) + hi)): return Num(hi, p)
                return Num(l, p)
            if lab is None and isinstance(v, (Num, EnumV)): return self.trapconv(v, p, e) if p in INTS else (OO.conv(self, v, p) if p == "f32" and v.ty == "f64" else Num(v.lin, p))
            self.err(e, "%s(%s)" % (n, lab))
        if n == "Bool": return args[0][1] if args else Bool(F)
        if n == "Data":
            if not args: return mkbytes(("lit", b""), 0)
            lab, v = args[0]
            if lab in ("repeating", "count", "capacity"): self.err(e, "Data(%s)" % lab)
            if isinstance(v, Bytes): return mkbytes(v.src, v.ln)
            if isinstance(v, Raw): return mkbytes(v.b.src, v.b.ln)
            if isinstance(v, RawV): return self.num_bytes(v.v)
            if isinstance(v, ListV): return self.list_bytes(v, e)
            if lab == "bytes" and isinstance(v, Ref) and "count" in d:
                b = self.num_bytes(self.load(v.loc, e))
                if same(ctx, self.num(d["count"]), b.ln): return b
            self.err(e, "Data of %r" % (v,))
        if n == "String":
            if not args: return Str("lit", "")
            lab, v = args[0]
            if isinstance(v, ListV): v = self.list_bytes(v, e)
            if isinstance(v, Raw): v = v.b
            if lab in ("data", "bytes", "validatingUTF8") and isinstance(v, Bytes):
                enc = d.get("encoding")
                if isinstance(enc, Opq) and enc.tag == "encoding" and enc.a[0] != "utf8": return Opq("text", enc.a[0])
                return self.text(v, True, e)
            if lab == "decoding" and isinstance(v, Bytes): return self.text(v, False, e)
            if lab is None and isinstance(v, Str): return v
            return Opq("text")
        if n in ("NSMutableData",): self.err(e, "new output")
        self.err(e, "construction of %s" % n)
    def text(self, b, maybe, e):
        ctx = self.ctx
        if b.src[0] == "lit":
            try: return Str("lit", b.src[1].decode())
            except UnicodeDecodeError: return NULL
        if b.src[0] == "utf8": return b.src[1]
        if b.src[0] != "buf": self.err(e, "text of %r" % (b,))
        if maybe and ctx.decide(c_eq(b.ln)) is not True and ctx.choose(2) == 1:
            ctx.flags["badtext"] = True
            if self.stream is not None: ctx.flags["hdrbad"] = True       # bytes that are no UTF-8 are not the label
            return NULL
        return Str("rd", None, b.src[2], b.ln)
    def list_bytes(self, v, e):
        if all(s[0] == "one" for s in v.segs) and all(self.num(s[1]).is_const() for s in v.segs): return mkbytes(("lit", bytes(self.num(s[1]).c for s in v.segs)), len(v.segs))
        if len(v.segs) == 1 and v.segs[0][0] == "bulk" and v.segs[0][3] == 1: return mkbytes(("buf", None, v.segs[0][2]), v.segs[0][1])
        self.err(e, "bytes of %r" % (v,))
    def construct_l(self, cls, args, e):
        d = self.structs[cls]; ctx = self.ctx
        if len(ctx.callstack) > 40: raise Budget("construction depth")
        o = Obj(ctx, cls, {}, "val" if d.flavor == "struct" else "obj")
        for c in reversed([c for c in self.lineage(cls) if c in self.structs]):
            dd = self.structs[c]; s = Scope(ctx, self.gscope); s.f["$this"] = o; s.f["$cls"] = TypeV(("name", cls))
            for nm, ty in dd.fields:
                init = dd.inits.get(nm)
                o.f[nm] = self.default_of(ty, e) if init is None else self.coerce(self.copyval(self.ev_as(init, ty, s)), ty, e)
        ms = self.methods.get((cls, "$init"), [])
        if not ms and d.flavor == "class":
            for c in self.lineage(cls)[1:]:
                ms = self.methods.get((c, "$init"), [])
                if ms: break
        if not ms:
            if d.flavor == "struct":
                for l, v in args: self.store(("cell", o.f, l), self.copyval(v), e)
            elif args: self.err(e, "no initialiser of %s" % cls)
            return o
        r = self.pick_by_labels(ms, args, e)
        if r is None: self.err(e, "no initialiser of %s with labels %s" % (cls, [l for l, a in args]))
        self.invoke(r[0], r[1], o); return o
    def construct(self, cls, args, e): return self.construct_l(cls, [(None, a) for a in args], e)
    def closure(self, f, vals): return self.invoke(f.fn, vals, f.this, f.env)
    # ---- library
    def put_bytes(self, b, e):
        if isinstance(b, ListV): b = self.list_bytes(b, e)
        if isinstance(b, Raw): b = b.b
        if isinstance(b, RawV): b = self.num_bytes(b.v)
        if isinstance(b, Bytes):
            k = b.src[0]
            if k == "num": v = b.src[1]; return self.put(WIDTH[v.ty], "f" if v.ty[0] == "f" or self.is_float(v) else "i", v.lin)
            if k == "lit":
                for x in b.src[1]: self.put(1, "i", Lin(x))
                return
            if k == "utf8": return self.put_text(b.src[1])
            if k == "cat":
                for x in b.src[1]: self.put_bytes(x, e)
                return
        self.err(e, "output of %r" % (b,))
    def is_float(self, v):
        """number holding the bits of a floating-point value"""
        o = v.lin.one()
        return bool(o and o[1:] == (1, 0) and isinstance(o[0].key, tuple) and (o[0].lo, o[0].hi) == (-INF, INF) and o[0] in self.float_syms())
    def float_syms(self): return self.ctx.flags.get("floats", ())
    def in_value(self, kind, path):
        v = OO.in_value(self, kind, path)
        if kind[0] == "num" and kind[1] in ("float", "double"): self.ctx.flags.setdefault("floats", set()).add(v.lin.one()[0])
        return v
    def lib_method_l(self, o, name, args, e, sc):
        ctx = self.ctx; vals = [a for l, a in args]; d = dict(args)
        if isinstance(o, Opq) and o.tag == "out":
            if name == "append":
                if "length" in d:
                    n = self.num(d["length"], e); v = vals[0]
                    if isinstance(v, (Ref, RawV)):
                        x = self.load(v.loc, e) if getattr(v, "loc", None) is not None else v.v
                        if isinstance(x, Bool): x = self.conv(x, "u8")
                        b = self.num_bytes(x)
                        if same(ctx, n, b.ln): return self.put_bytes(b, e)
                        if n.is_const() and n.c < b.ln.c: return self.put(n.c, "f" if b.src[1].ty[0] == "f" else "i", b.src[1].lin)
                        self.note("C02", "writes %r bytes of a variable that has %r" % (n, b.ln)); return self.put(n.c if n.is_const() else 8, "i", b.src[1].lin)
                    if isinstance(v, (Bytes, Raw)):
                        b = v.b if isinstance(v, Raw) else v
                        if same(ctx, n, b.ln): return self.put_bytes(b, e)
                    if isinstance(v, RawP) and v.off == Lin(0) and same(ctx, n, v.b.ln): return self.put_bytes(v.b, e)
                    if isinstance(v, ListV):
                        b = self.list_bytes(v, e)
                        if same(ctx, n, b.ln): return self.put_bytes(b, e)
                    self.err(e, "append of %r, %r bytes" % (v, n))
                return self.put_bytes(vals[0] if not isinstance(vals[0], Num) else Bytes(("num", Num(vals[0].lin, "u8")), 1), e)
            self.err(e, "output method " + name)
        if isinstance(o, ListV):
            if name == "append":
                if "contentsOf" in d:
                    x = d["contentsOf"]
                    if isinstance(x, ListV): return self.list_concat(o, x)
                    self.err(e, "append of %r" % (x,))
                return self.list_push(o, self.el_coerce(o, self.copyval(vals[0])))
            if name == "reserveCapacity":
                n = self.num(vals[0], e)
                if ctx.decide(c_ge(n)) is not True and not ctx.branch(c_ge(n)): self.panic("negative capacity")
                return None
            if name == "removeAll": ctx.set(o.f, "segs", ()); return None
            if name == "enumerated": return It(o)
            if name in ("compactMap", "map", "filter") and isinstance(vals[0], FnV): return self.mapped(o, name, vals[0], e, sc)
            if name == "forEach": return self.fold(o, None, lambda a, x: self.closure(vals[0], [x]), e, sc)
            if name == "reduce":
                f = vals[1]; init = vals[0]
                if isinstance(init, Num) and init.ty == "int": init = Num(init.lin, "i64")
                if "into" in d: self.err(e, "reduce(into:)")
                return self.fold(o, init, lambda a, x: self.closure(f, [a, x]) if isinstance(f, FnV) else self.arith("+", a, x, e), e, sc)
            if name in ("withUnsafeBytes", "withUnsafeBufferPointer"): return self.closure(vals[-1], [Raw(self.list_bytes(o, e))])
            if ("Array", name) in self.methods: return self.apply_l(Opq("methods", "Array", name, o), args, e, sc)
        if isinstance(o, Range) and name == "contains":
            l = self.num(vals[0], e); c = T
            if o.lo is not None: c = c_and(c, c_ge(l - self.num(o.lo)))
            if o.hi is not None: c = c_and(c, c_ge(self.num(o.hi) - l - (0 if o.incl else 1)))
            return Bool(c)
        if isinstance(o, Range) and name == "forEach":
            N_ = self.num(o.hi) - self.num(o.lo) + (1 if o.incl else 0)
            if ctx.decide(c_ge(N_)) is not True and not ctx.branch(c_ge(N_)): self.panic("range")
            ty = o.hi.ty if o.lo.ty == "int" else o.lo.ty; lo = self.num(o.lo)
            def bind(s, ix): s.f["$x"] = Num(lo + ix, ty)
            self.foreach(e, sc, N_, bind, lambda s: self.closure(vals[0], [s.f["$x"]])); return None
        if isinstance(o, Range) and name in ("map",):
            N_ = self.num(o.hi) - self.num(o.lo) + (1 if o.incl else 0)
            if ctx.decide(c_ge(N_)) is not True and not ctx.branch(c_ge(N_)): self.panic("range")
            ty = o.hi.ty if o.lo.ty == "int" else o.lo.ty; lo = self.num(o.lo); out = ListV(ctx, ())
            def bind(s, ix): s.f["$x"] = Num(lo + ix, ty)
            self.foreach(e, sc, N_, bind, lambda s: self.list_push(out, self.closure(vals[0], [s.f["$x"]]))); return out
        if isinstance(o, Bytes):
            if name == "withUnsafeBytes": return self.closure(vals[-1], [Raw(o)])
            if name == "subdata": b = self.slice_bytes(o, d["in"], e); b.base = Lin(0); return b
            if name in ("prefix", "suffix", "dropFirst", "dropLast"):
                k = self.num(vals[0], e) if vals else Lin(1); b0 = self.based(o)
                if "upTo" in d: return self.slice_bytes(o, Range(None, d["upTo"], False), e)
                if "from" in d: return self.slice_bytes(o, Range(d["from"], None, False), e)
                if ctx.decide(c_ge(k)) is not True and not ctx.branch(c_ge(k)): self.panic("negative length")
                if not ctx.branch(c_ge(o.ln - k)): k = o.ln
                r = {"prefix": (b0, b0 + k), "dropFirst": (b0 + k, b0 + o.ln), "suffix": (b0 + o.ln - k, b0 + o.ln), "dropLast": (b0, b0 + o.ln - k)}[name]
                return self.slice_bytes(o, Range(Num(r[0], "i64"), Num(r[1], "i64"), False), e)
            if name in ("elementsEqual", "starts"):
                x = vals[0]
                if isinstance(x, ListV): x = self.list_bytes(x, e)
                if name == "elementsEqual": return Bool(self.bytes_equal(o, x, e))
                if o.src[0] == "buf" and x.src[0] in ("lit", "utf8"):
                    if not ctx.branch(c_ge(o.ln - x.ln)): return Bool(F)
                    return Bool(self.bytes_equal(mkbytes(o.src, x.ln), x, e))
            if name == "copyBytes" and isinstance(d.get("to"), RawV):
                r = d.get("from"); b = o if r is None else self.slice_bytes(o, r, e)
                return self.fill(d["to"], b, b.ln, e)
            if name == "append" : self.err(e, "append to Data")
        if isinstance(o, Str):
            if name == "data":
                enc = d.get("using")
                if isinstance(enc, Opq) and enc.tag in ("encoding",) and enc.a[0] == "utf8": return Bytes(("utf8", o), self.str_ulen(o))
                if isinstance(enc, Opq): return Bytes(("enc", enc.a[0], o), Lin.of(sym(("enc", enc.a[0], o.key()), 0)))
            if name == "lengthOfBytes":
                enc = d.get("using")
                if isinstance(enc, Opq) and enc.a[0] == "utf8": return Num(self.str_ulen(o), "i64")
                return Num(sym(("enc", enc.a[0], o.key()), 0), "i64")
            if name == "hasPrefix" and o.kind == "rd" and isinstance(vals[0], Str) and vals[0].kind == "lit": 
                k = len(vals[0].val.encode())
                if not ctx.branch(c_ge(o.ln - k)): return Bool(F)
                return Bool(self.rd_equals(o.off, Lin(k), vals[0].val.encode(), e))
            t = self.text_op(o, name, vals)
            if t is not None: return t
        if isinstance(o, Raw):
            if name in ("load", "loadUnaligned"):
                t = self.prim(d["as"].ty) if isinstance(d.get("as"), TypeV) else None
                off = self.num(d["fromByteOffset"], e) if "fromByteOffset" in d else Lin(0)
                if t is None: self.err(e, "load")
                if name == "load" and WIDTH[t] > 1 and o.b.src[0] == "buf": self.panic("aligned load of data that may be anywhere")
                return self.raw_load(o.b, off, t, e, True)
            if name == "copyBytes": self.err(e, "copyBytes")
        if isinstance(o, RawP):
            if name in ("load", "loadUnaligned"):
                t = self.prim(d["as"].ty); off = self.num(d["fromByteOffset"], e) if "fromByteOffset" in d else Lin(0)
                if name == "load" and WIDTH[t] > 1 and o.b.src[0] == "buf": self.panic("aligned load of data that may be anywhere")
                return self.raw_load(o.b, o.off + off, t, e, False)
            if name == "advanced": return RawP(o.b, o.off + self.num(d["by"]))
        if isinstance(o, RawV):
            if name in ("load", "loadUnaligned"):
                t = self.prim(d["as"].ty); off = self.num(d["fromByteOffset"], e) if "fromByteOffset" in d else Lin(0)
                return self.raw_load(self.num_bytes(o.v), off, t, e, True)
            if name == "copyBytes" and "from" in d and isinstance(d["from"], (Raw, Bytes)):
                b = d["from"]; b = b.b if isinstance(b, Raw) else b
                return self.fill(o, b, b.ln, e)
        if isinstance(o, Num):
            if name in ("addingReportingOverflow", "multipliedReportingOverflow", "subtractingReportingOverflow"):
                r = OO.arith(self, {"a": "+", "m": "*", "s": "-"}[name[0]], o, vals[0], e); lo, hi = int_range(r.ty)
                if ctx.branch(c_ge(r.lin.scale(-1) + hi)) and ctx.branch(c_ge(r.lin - lo)): return Tup([r, Bool(F)], ["partialValue", "overflow"])
                return Tup([Num(sym(("wrap", r.ty, r.lin.key), lo, hi), r.ty), Bool(T)], ["partialValue", "overflow"])
            if name == "isMultiple": self.err(e, "isMultiple")
        if isinstance(o, Opq) and o.tag in ("pkg",): return self.lib_call(o.a[0] + "." + name, args, e, sc)
        self.err(e, "method %s of %r" % (name, o))
    def mapped(self, o, name, f, e, sc):
        b = f.fn.body.body
        if name != "filter" and len(b) == 1 and b[0].k == "ret" and b[0].e is not None and b[0].e.k == "name" and (b[0].e.id == "$0" or (f.fn.params and b[0].e.id == f.fn.params[0][0])): return ListV(self.ctx, o.segs, o.ty)
        if name == "filter": self.err(e, "filter")
        out = ListV(self.ctx, ())
        def bind(s, ix): s.f["$x"] = self.list_get(o, ix, e)
        def body(s):
            r = self.closure(f, [s.f["$x"]])
            if name == "compactMap" and r is NULL: return
            self.list_push(out, r)
        self.foreach(e, sc, o.length(), bind, body); return out
    def fold(self, o, init, f, e, sc):
        s0 = Scope(self.ctx, sc); s0.f["$acc"] = init if init is not None else NULL
        def bind(s, ix): s.f["$x"] = self.list_get(o, ix, e)
        def body(s):
            r = f(s0.f["$acc"], s.f["$x"])
            if init is not None: self.ctx.set(s0.f, "$acc", r)
        self.foreach(e, s0, o.length(), bind, body)
        return s0.f["$acc"] if init is not None else None
    def el_coerce(self, l, v):
        ty = self.resolve(l.ty) if l.ty is not None else None
        if ty is not None and ty[0] == "slice": return self.coerce(v, ty[1], None)
        return v
    def list_set(self, l, i, v, e): return OO.list_set(self, l, i, self.el_coerce(l, v), e)
    def fill(self, raw, b, n, e):
        """copy n bytes over a scalar variable"""
        old = self.load(raw.loc, e) if raw.loc is not None else raw.v
        w = WIDTH[old.ty] if isinstance(old, Num) and old.ty in WIDTH else None
        if w is None: self.err(e, "copy into %r" % (old,))
        if not n.is_const(): self.err(e, "copy of %r bytes" % (n,))
        if n.c > w: self.note("C09", "copies %d bytes over a variable of %d" % (n.c, w)); raise PathEnd("noted")
        if n.c == w: v = self.raw_load(mkbytes(b.src, b.ln), Lin(0), old.ty, e, False)
        else: v = Num(self.raw_load(mkbytes(b.src, b.ln), Lin(0), {1: "u8", 2: "u16", 4: "u32"}[n.c], e, False).lin, old.ty)
        self.store(raw.loc, v, e); return Num(n, "i64")
    def lib_call(self, nm, args, e, sc):
        ctx = self.ctx; f = tail(nm); vals = [a for l, a in args]; d = dict(args)
        if f in ("memcpy", "memmove"):
            dst, src, n = vals; n = self.num(n, e)
            if isinstance(dst, Ref) and isinstance(src, RawP):
                if not n.is_const(): self.err(e, "memcpy of %r bytes" % (n,))
                ctx.count("bounds")
                if not (ctx.entails_ge(src.off) and ctx.entails_ge(src.b.ln - src.off - n)):
                    self.note("C09", "copies %r bytes at %r which may be outside the %r bytes present" % (n, src.off, src.b.ln)); raise PathEnd("noted")
                if src.b.src[0] != "buf": self.err(e, "memcpy from %r" % (src,))
                self.fill(RawV(None, dst.loc), mkbytes(("buf", None, src.b.src[2] + src.off), n), n, e); return None
            self.err(e, "memcpy")
        if f in ("withUnsafeBytes", "withUnsafePointer") and "of" in d | {"of": 1} and args:
            v = vals[0]; x = self.load(v.loc, e) if isinstance(v, Ref) else v
            return self.closure(vals[-1], [RawV(x, v.loc if isinstance(v, Ref) else None)])
        if f in ("withUnsafeMutableBytes",) and isinstance(vals[0], Ref): return self.closure(vals[-1], [RawV(self.load(vals[0].loc, e), vals[0].loc)])
        if f in ("min", "max") and len(vals) == 2:
            a, b = vals; dl = self.num(b) - self.num(a) if f == "min" else self.num(a) - self.num(b)
            return a if ctx.branch(c_ge(dl)) else b
        if f == "numericCast": self.err(e, "numericCast")
        if f == "type" and "of" in d and isinstance(d["of"], Obj): return TypeV(("name", d["of"].cls))
        if f == "stride": self.err(e, "stride")
        if f == "zip": self.err(e, "zip")
        self.err(e, "library call " + nm)
    # ---- messages of unknown type
    def abs_method(self, m, name, args, e):
        n = norm(name)
        if n == "getsizeinbytes": return Num(m.size(), "u32")
        if n == "getmessagetype": return EnumV("MessageType", m.which)
        if n == "writebytes":
            t = next((a for a in args if isinstance(a, Bool)), None)
            tag = self.ctx.decide(t.c) if t is not None else None
            out = self.io["out"].lin
            self.ctx.events.append(("msg", out, m.path, tag, m.size()))
            self.ctx.set(self.io, "out", Num(out + m.size() + (1 if tag else 0))); return None
        self.err(e, "method %s of a message" % name)
    # ---- tasks
    def start(self, ctx):
        OO.start(self, ctx); self.strict = False; self.sizing = False
    def guard(self, f):
        try: return f()
        except ThrowX as t: return ("err", "clean", repr(t.v))
        except PathEnd as p:
            if p.why == "panic": return ("err", "panic: " + str(p.detail), str(p.detail))
            raise
    def in_enum_value(self, e, s): return EnumV(next(n for n in self.enums if norm(n) == norm(e)), Lin.of(s))
    def in_field(self, T, f, v): return self.coerce(v, self.field_type(T, f), None)
    def new_obj(self, T):
        n = self.type_name(T); return Obj(self.ctx, n, {}, "val" if self.structs[n].flavor == "struct" else "obj")
    def reader_fn(self, T):
        for m in self.methods.get((self.type_name(T), "FromBytes"), ()):
            if len(m.params) == 1 and self.is_reader_type(m.params[0][1]): return m
        raise AnalysisError("swift: no reader of " + T)
    def is_reader_type(self, ty): return ty is not None and ty[0] == "name" and tail(ty[1]) in self.structs and not any(norm(tail(ty[1])) == norm(T) for T in list(self.schema.structs) + list(self.schema.messages))
    def data(self): return mkbytes(("buf", None, Lin.of(P0)), Lin.of(LEN) - Lin.of(P0), sym(("dbase",), 0, 1 << 60))
    def reader(self, T):
        cls = tail(self.reader_fn(T).params[0][1][1]); ms = self.methods.get((cls, "$init"), [])
        m = next((m for m in ms if len([x for x in m.defaults if x is None]) == 1), None)
        if m is None: raise AnalysisError("swift: no initialiser of " + cls)
        lab = next(l for l, dd in zip(m.labels, m.defaults) if dd is None)
        r = self.construct_l(cls, [(lab, mkbytes(("buf", None, Lin(0)), Lin.of(LEN), sym(("dbase",), 0, 1 << 60)))], None)
        f = self.posfield(r)
        self.ctx.set(r.f, f, Num(r.f[f].lin + Lin.of(P0), r.f[f].ty)); self.strict = True
        return r
    def posfield(self, r):
        c = [k for k, v in r.f.items() if isinstance(v, Num)]
        if len(c) != 1: raise AnalysisError("swift: the reader's position is not one field")
        return c[0]
    def at(self, r):
        """offset in the whole input the reader stands at"""
        b = next((v for v in r.f.values() if isinstance(v, Bytes)), None)
        if b is None or b.src[0] != "buf": raise AnalysisError("swift: the reader keeps no data")
        return b.src[2] + r.f[self.posfield(r)].lin - self.based(b)
    def run_reader(self, ctx, T):
        m = self.reader_fn(T)
        def go():
            r = self.reader(T)
            v = self.invoke(m, [r], TypeV(("name", self.type_name(T))))
            if v is NULL: return ("err", "clean", "nil")
            return ("ok", v, self.at(r))
        return self.guard(go)
    def reader_of(self, fn):
        if not hasattr(self, "_rd"): self._rd = {id(self.reader_fn(T)): T for T in self.schema.messages}
        return self._rd.get(id(fn))
    def summary_call(self, T, fn, args, this):
        r = args[0]; pos = self.at(r)
        okk, end = self.read_summary(T, pos)
        if not okk: raise ThrowX(ErrV("reader"))
        f = self.posfield(r); self.ctx.set(r.f, f, Num(r.f[f].lin + (end - pos), r.f[f].ty))
        return MsgV(T, pos)
    def stream_pos(self, cands, state, mods): return cands[0] + self.ctx.flags.get("sbase", Lin(0))
    def loop_top(self, n, ix, mods, before, top, key):
        if self.stream is not None and self.is_stream_loop(mods):
            for sq, k, cl, dd in mods:
                if cl == "sum" and any(s.key[0] == "mcons" for s in dd.t):
                    o = self.ctx.cells[sq].owner
                    if isinstance(o, Obj):
                        b = next((v for v in o.f.values() if isinstance(v, Bytes) and v.src[0] == "buf"), None)
                        if b is not None: self.ctx.flags["sbase"] = b.src[2] - self.based(b)
        return OO.loop_top(self, n, ix, mods, before, top, key)
    def out_writer(self): return Opq("out")
    def method_like(self, cls, name):
        for c in self.lineage(cls):
            for m in self.methods.get((c, name), ()): return m
        raise AnalysisError("swift: no method %s.%s" % (cls, name))
    def run_writer(self, ctx, T, tagged):
        fn = self.method_like(self.type_name(T), "WriteBytes"); o = self.in_value(("struct", T), (T,))
        def go():
            args = [Bool(T_ if tagged else F_) if p[1] == ("name", "Bool") else Opq("out") for p in fn.params]
            self.invoke(fn, args, o); return ("ok", self.io["out"].lin)
        return self.guard(go)
    def run_size(self, ctx, T):
        fn = self.method_like(self.type_name(T), "GetSizeInBytes"); self.sizing = True
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [], self.in_value(("struct", T), (T,))))))
    def run_default(self, ctx, T, how): return self.guard(lambda: ("ok", self.construct_l(self.type_name(T), [], None)))
    def entry(self, name):
        """static function wherever it is declared"""
        for n, ms in getattr(self, "overloads", {}).items():
            if norm(n) == norm(name): return ms[0], None
        for (c, n), ms in self.methods.items():
            if norm(n) == norm(name): return ms[0], c
        raise AnalysisError("swift: no function " + name)
    def ret_list(self, r):
        if not isinstance(r, ListV): raise AnalysisError("swift: list expected, got %r" % (r,))
        return ("ok", r)
    def run_process(self, ctx, mx):
        fn, c = self.entry("ProcessRawBytes"); self.strict = True
        args = [Num(mx, "i64") if self.prim(p[1]) else self.data() for p in fn.params]
        return self.guard(lambda: self.ret_list(self.invoke(fn, args, TypeV(("name", c)) if c else None)))
    def run_unpack(self, ctx):
        fn, c = self.entry("UnpackMessages"); self.strict = True
        return self.guard(lambda: self.ret_list(self.invoke(fn, [self.data()], TypeV(("name", c)) if c else None)))
    def run_pack(self, ctx):
        fn, c = self.entry("PackMessages")
        def go():
            l = self.msgs(ctx)
            if fn.static: self.invoke(fn, [l if p[1] is not None and p[1][0] in ("slice",) else Opq("out") for p in fn.params], TypeV(("name", c)))
            else: self.invoke(fn, [Opq("out")], l)
            return ("ok", self.io["out"].lin)
        return self.guard(go)
    def run_packed_size(self, ctx):
        fn, c = self.entry("GetPackedSize"); self.sizing = True
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [self.msgs(ctx)], TypeV(("name", c))) if fn.static else self.invoke(fn, [], self.msgs(ctx)))))
    def run_type(self, ctx, T):
        fn = self.method_like(self.type_name(T), "GetMessageType")
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [], self.in_value(("struct", T), (T,))))))
    def type_constants(self):
        self.start(Ctx()); return {norm(n)[:-4]: v for n, v in self.enum_table("MessageType").items() if norm(n).endswith("type")}
    # ---- declarations
    def type_ok(self, ty, k):
        ty = self.resolve(ty)
        if ty is None: return False
        if k[0] == "list": return (ty[0] == "slice" and self.type_ok(ty[1], k[1])) or (ty[0] == "gen" and tail(ty[1]) == "Array" and self.type_ok(ty[2][0], k[1]))
        if ty[0] != "name": return False
        if k[0] == "str": return ty[1] == "String"
        if k[0] == "num": return ty[1] == "Bool" if k[1] == "bool" else self.prim(ty) == self.native(k[1]) and ty[1] not in ("Int", "UInt")
        n = tail(ty[1])
        return (n in self.enums if k[0] == "enum" else n in self.structs) and norm(n) == norm(k[1])
    def enum_decl(self, e):
        en = next((n for n in self.enums if norm(n) == norm(e)), None)
        if en is None: return None, None
        self.start(Ctx()); tab = self.enum_table(en)
        return [(n, tab[n]) for n, x in self.enums[en].values], self.storage_of(en)
T_, F_ = T, F
def build(src, schema): return Swift(parse_swift.parse(src), schema)
