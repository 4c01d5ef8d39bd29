"""TypeScript and AssemblyScript: abstract semantics of the generated module (DataView, text codecs, arrays modelled)."""
from .lang_oo import *
from . import parse_ts

ASNUM = {"u8": "u8", "i8": "i8", "u16": "u16", "i16": "i16", "u32": "u32", "i32": "i32", "u64": "u64", "i64": "i64", "usize": "usize", "isize": "isize", "f32": "f32", "f64": "f64", "number": "f64"}
GETS = {"Uint8": (1, "u", "u8"), "Int8": (1, "s", "i8"), "Int16": (2, "s", "i16"), "Uint16": (2, "u", "u16"), "Int32": (4, "s", "i32"), "Uint32": (4, "u", "u32"),
        "BigInt64": (8, "s", "big"), "BigUint64": (8, "u", "big"), "Float32": (4, "f", "f32"), "Float64": (8, "f", "f64"), "Int64": (8, "s", "i64"), "Uint64": (8, "u", "u64")}
EXCS = {"Error": None, "RangeError": "Error", "TypeError": "Error", "ReferenceError": "Error", "SyntaxError": "Error", "EvalError": "Error"}
SAFE = 1 << 53
class UndefV(V):
    def __repr__(self): return "undefined"
UNDEF = UndefV()
class DView(V):
    """DataView: base = position (in input/output coordinates) of its index 0, bo = its byteOffset in the underlying buffer"""
    def __init__(self, base, ln, bo): self.base = Lin.of(base); self.ln = Lin.of(ln); self.bo = Lin.of(bo)
    def __repr__(self): return "DataView(%r,%r)" % (self.base, self.ln)
class ABuf(V):
    def __init__(self, base, ln): self.base = Lin.of(base); self.ln = Lin.of(ln)
    def __repr__(self): return "ArrayBuffer(%r)" % self.base
class TArr(V):
    """Uint8Array over the input or output"""
    def __init__(self, base, ln): self.base = Lin.of(base); self.ln = Lin.of(ln)
    def __repr__(self): return "Uint8Array(%r,%r)" % (self.base, self.ln)
class Exc(V):
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return self.cls
BO = sym(("byteOffset",), 0, 1 << 50); UL = sym(("bufferLength",), 0, 1 << 53)
PERM = [BO, UL]

class TS(OO):
    lang = "typescript"; ctor_name = "constructor"; numty = "num"; writing = False
    maxlen = 1 << 53
    # ---- classes
    def external_base(self, n): return n in EXCS
    def external_parent(self, n): return EXCS.get(n)
    def default_of(self, ty, n): return UNDEF
    def throw(self, cls): raise ThrowX(Exc(cls))
    def uninit_read(self, cells, k, e): return UNDEF
    def coerce(self, v, ty, n):
        if ty is not None and ty[0] in ("slice", "gen") and isinstance(v, ListV) and v.ty is None: v.ty = ty
        return v
    def run_ctor(self, o, cls, args, e):
        for c in self.lineage(cls):
            ms = self.methods.get((c, "constructor"))
            if ms: self.invoke(ms[0], args, o); return
    def suffix_type(self, e): return "big" if e.suf == "n" else "int"
    def result_type(self, a, b):
        ta = a.ty if isinstance(a, Num) else "int"; tb = b.ty if isinstance(b, Num) else "int"
        if "big" in (ta, tb): return "big"
        return self.numty
    def conv(self, v, ty): return v if ty in ("num", "big") else OO.conv(self, v, ty)
    def s_var(self, n, sc):
        v = UNDEF if n.init is None else self.copyval(self.ev_as(n.init, n.ty, sc))
        self.declare(sc, n.name, self.coerce(v, n.ty, n) if n.ty is not None and n.init is not None else v)
    def ev_as(self, e, ty, sc):
        if e.k == "alit":
            l = ListV(self.ctx, tuple(("one", self.ev(x, sc)) for x in e.elems)); l.ty = ty; return l
        return self.ev(e, sc)
    def e_alit(self, e, sc): return self.ev_as(e, None, sc)
    def e_objlit(self, e, sc): return Opq("objlit", *[(k, self.ev(x, sc)) for k, x in e.fields])
    def e_nonnull(self, e, sc): return self.ev(e.e, sc)
    def e_cast(self, e, sc): return self.cast(self.ev(e.e, sc), e.ty, e)
    def cast(self, v, ty, e): return v
    def e_cond(self, e, sc):
        c = self.cond(e.c, sc); d = self.ctx.decide(c)
        if d is not None: return self.ev(e.a if d else e.b, sc)
        if e.a.k == "lit" and e.b.k == "lit" and e.a.t == e.b.t == "int":
            return Num(Lin(e.b.v) + self.b2i(Bool(c)).scale(e.a.v - e.b.v), "int")
        if e.a.k in ("name", "mem", "lit", "cast") and e.b.k in ("name", "mem", "lit", "cast"):
            s = self.select(c, self.ev(e.a, sc), self.ev(e.b, sc))
            if s is not None: return s
        return self.ev(e.a if self.ctx.branch(c) else e.b, sc)
    def select(self, c, a, b): return None
    def e_spread(self, e, sc): return Opq("spread", self.ev(e.e, sc))
    def e_typeof(self, e, sc): return Opq("text")
    def unop(self, op, v, e, sc):
        if op in ("void", "delete"): return UNDEF
        if op == "typeof" and isinstance(v, Opq) and v.tag == "enumname": return Opq("typeofname", *v.a)
        if op == "typeof": return Str("lit", {"Num": "number", "Str": "string", "Bool": "boolean", "UndefV": "undefined", "FnV": "function"}.get(type(v).__name__, "object") if not (isinstance(v, Num) and v.ty == "big") else "bigint")
        if op == "~" and isinstance(v, Num) and v.lin.is_const(): return Num(~v.lin.c, v.ty)
        return OO.unop(self, op, v, e, sc)
    def truth(self, v, n=None):
        if isinstance(v, (Obj, ListV, DView, ABuf, TArr, Exc, MsgV, AbsMsg)): return T
        if v is NULL or v is UNDEF: return F
        if isinstance(v, Str): return c_not(c_eq(self.str_ulen(v)))
        if isinstance(v, Opq) and v.tag == "enumname": return self.in_enum_table(v.a[0], v.a[1], n)
        return OO.truth(self, v, n)
    def cond(self, e, sc):
        if e.k == "bin" and e.op in ("&&", "||"): return OO.cond(self, e, sc)
        return OO.cond(self, e, sc)
    def binop(self, op, a, b, e):
        if op == "instanceof": return Bool(T if self.is_instance(a, b) else F)
        if op == "in" and isinstance(b, TypeV) and b.ty[1] in self.enums: return Bool(self.in_enum_table(b.ty[1], a, e))
        if op == "??": return b if a is NULL or a is UNDEF else a
        if op == "+" and (isinstance(a, (Str, Opq)) or isinstance(b, (Str, Opq))): return Opq("text")
        if op == ">>>" and b.lin == Lin(0): return Num(self.conv(Num(a.lin, "i64"), "u32").lin, self.numty)
        return OO.binop(self, op, a, b, e)
    def is_instance(self, a, t):
        n = t.ty[1] if isinstance(t, TypeV) else t.a[0] if isinstance(t, Opq) else "?"
        if isinstance(a, Obj): return n in self.lineage(a.cls)
        if isinstance(a, DView): return n == "DataView"
        if isinstance(a, ABuf): return n == "ArrayBuffer"
        if isinstance(a, TArr): return n == "Uint8Array"
        if isinstance(a, ListV): return n == "Array"
        if isinstance(a, Exc):
            c = a.cls
            while c: 
                if c == n: return True
                c = EXCS.get(c)
            return False
        if isinstance(a, MsgV): return n == "Message" or norm(n) == norm(a.T)
        return False
    def equal(self, a, b, n):
        for p, q in ((a, b), (b, a)):
            if p is UNDEF or p is NULL:
                if q is UNDEF or q is NULL: return T if (p is q or n.op in ("==", "!=")) else F
                if isinstance(q, Opq) and q.tag == "enumname": return c_not(self.in_enum_table(q.a[0], q.a[1], n)) if p is UNDEF or n.op in ("==", "!=") else F
                if isinstance(q, (Num, Bool, Str, Obj, ListV, DView, ABuf, TArr, MsgV, AbsMsg, EnumV, FnV, Exc, TypeV)): return F
            if isinstance(p, Opq) and p.tag == "typeofname" and isinstance(q, Str) and q.kind == "lit":
                known = self.in_enum_table(p.a[0], p.a[1], n)
                return known if q.val == "string" else c_not(known) if q.val == "undefined" else F
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            if isinstance(a, (Num, EnumV)) and isinstance(b, (Num, EnumV)): return c_eq(a.lin - b.lin)
        return OO.equal(self, a, b, n)
    def in_enum_table(self, en, v, e):
        vals = set(self.enum_table(en).values())
        if not isinstance(v, (Num, EnumV)): return T if isinstance(v, Str) and v.val in self.enum_table(en) else F
        if v.lin.is_const(): return T if v.lin.c in vals else F
        o = v.lin.one()
        if o and o[1] == 1: return c_in(o[0], IntSet.of([x - o[2] for x in vals]))
        self.err(e, "enum membership of %r" % (v,))
    def mk_enum(self, n, c): return Num(c, self.numty)
    def global_name(self, name, e, sc):
        if name == "undefined": return UNDEF
        if name == "Infinity": return Num(1 << 1000, self.numty)
        return OO.global_name(self, name, e, sc)
    def e_name(self, e, sc):
        if e.id == "this":
            th = self.this_of(sc)
            if th is not None: return th
            c = self.cls_of(sc)
            if c is not None: return TypeV(("name", c))
        if e.id == "super": return Opq("super", self.cls_of(sc), self.this_of(sc))
        return OO.e_name(self, e, sc)
    # ---- exceptions
    def s_throw(self, n, sc): raise ThrowX(self.ev(n.e, sc))
    def s_trycatch(self, n, sc):
        try:
            try: self.run_block(n.body, sc)
            except ThrowX as t:
                if not n.catches: raise
                nm, ty, b = n.catches[0]
                s2 = Scope(self.ctx, sc)
                if nm: self.declare(s2, nm, t.v)
                self.run_block(b, s2)
        finally:
            if n.fin is not None: self.run_block(n.fin, sc)
    # ---- construction
    def e_new(self, e, sc):
        ty = e.ty; n = ty[1].split(".")[-1]
        args = [self.ev(a, sc) for _, a in e.args]
        if n in self.structs: return self.construct(n, args, e)
        if n in EXCS: return Exc(n)
        return self.new_lib(n, ty, args, e)
    def new_lib(self, n, ty, args, e):
        ctx = self.ctx
        if n == "DataView" and isinstance(args[0], ABuf):
            off = self.num(args[1]) if len(args) > 1 and args[1] is not UNDEF else Lin(0); ln = self.num(args[2]) if len(args) > 2 and args[2] is not UNDEF else args[0].ln - off
            return DView(args[0].base + off, ln, off)
        if n == "Array":
            if len(args) == 1 and isinstance(args[0], Num): return self.new_array(args[0].lin, ty, e)
            l = ListV(ctx, tuple(("one", a) for a in args)); l.ty = ty; return l
        if n == "Uint8Array":
            if isinstance(args[0], ABuf):
                ab = args[0]; off = self.num(args[1]) if len(args) > 1 else Lin(0)
                if len(args) < 3: return TArr(ab.base + off, ab.ln - off)
                ln = self.num(args[2])
                if ctx.decide(c_ge(ln)) is not True and not ctx.branch(c_ge(ln)): self.throw("RangeError")
                return TArr(ab.base + off, ln)
            if isinstance(args[0], Num): return self.new_bytes(args[0].lin, e)
            if isinstance(args[0], (Bytes, TArr, ListV)): return args[0]
        if n == "TextDecoder":
            opt = args[1] if len(args) > 1 else None
            enc = args[0] if args else Str("lit", "utf-8")
            ib = opt is not None and isinstance(opt, Opq) and any(k == "ignoreBOM" and isinstance(v, Bool) and v.c.k == "t" for k, v in opt.a)
            return Opq("decoder", enc.val.lower() if isinstance(enc, Str) else "?", ib)
        if n == "TextEncoder": return Opq("encoder")
        if n in ("Set", "Map"): return Opq("collection", *args)
        self.err(e, "new " + n)
    def new_array(self, n, ty, e):
        ctx = self.ctx
        if ctx.decide(c_ge(n)) is not True and not ctx.branch(c_ge(n)): ctx.flags["toolarge"] = True; self.throw("RangeError")
        top = Lin((1 << 32) - 1)
        if ctx.decide(c_ge(top - n)) is not True and not ctx.branch(c_ge(top - n)): ctx.flags["toolarge"] = True; self.throw("RangeError")
        l = ListV(ctx, (("fill", n, UNDEF),) if n != Lin(0) else ()); l.ty = ty; return l
    def new_bytes(self, n, e):
        l = ListV(self.ctx, (("fill", n, Num(0, "u8")),) if n != Lin(0) else ()); l.ty = ("name", "Uint8Array"); return l
    # ---- members
    def value_member(self, o, f, e):
        if isinstance(o, DView):
            if f == "byteLength": return Num(o.ln, self.lenty)
            if f == "byteOffset": return Num(o.bo, self.lenty)
            if f == "buffer": return ABuf(o.base - o.bo, UL if not o.bo.is_const() else o.ln + o.bo)
        if isinstance(o, ABuf) and f == "byteLength": return Num(o.ln, self.lenty)
        if isinstance(o, TArr):
            if f in ("length", "byteLength"): return Num(o.ln, self.lenty)
        if isinstance(o, Bytes) and f in ("length", "byteLength"): return Num(o.ln, self.lenty)
        if isinstance(o, Bytes) and f == "buffer": return o
        if isinstance(o, ListV) and f in ("length", "byteLength"): return Num(o.length(), self.lenty)
        if isinstance(o, ListV) and f == "buffer": return o
        if isinstance(o, Str) and f == "length": return Num(self.str_clen(o), self.lenty)
        if isinstance(o, Exc) or isinstance(o, Opq) and o.tag == "text": return Opq("text")
        if isinstance(o, Opq) and o.tag == "pkg": return self.pkg_member(o.a[0], f, e)
        return Bound(o, f)
    lenty = "num"
    def pkg_member(self, p, f, e):
        if p == "Number" and f == "MAX_SAFE_INTEGER": return Num(SAFE - 1, "num")
        if f in self.structs or f in self.enums: return TypeV(("name", f))
        if f in self.funcs: return FnV(self.funcs[f])
        return Opq("pkg", p + "." + f)
    def type_member(self, o, f, e):
        if o.ty[1] in EXCS: return Opq("text")
        return OO.type_member(self, o, f, e)
    def obj_prop(self, o, f, e): return UNDEF
    def null_member(self, o, f, e): self.throw("TypeError")
    def member(self, o, f, e):
        if o is UNDEF: self.throw("TypeError")
        if isinstance(o, Opq) and o.tag == "super":
            for c in self.lineage(o.a[0])[1:]:
                if (c, f) in self.methods: return FnV(self.methods[(c, f)][0], o.a[1])
        return OO.member(self, o, f, e)
    def set_prop(self, o, f, v, e):
        if isinstance(o, ListV) and f == "length":
            n = self.num(v)
            if n == Lin(0): self.ctx.set(o.f, "segs", ()); return
            if self.ctx.decide(c_eq(o.length())) is True: self.ctx.set(o.f, "segs", (("fill", n, UNDEF),)); return
        self.err(e, "property %s of %r" % (f, o))
    def index_value(self, o, i, e):
        if isinstance(o, TypeV) and o.ty[1] in self.enums:
            if isinstance(i, Str): 
                c = self.enum_const(o.ty[1], i.val, e); return UNDEF if c is None else self.mk_enum(o.ty[1], c)
            return Opq("enumname", o.ty[1], i)
        if isinstance(o, TArr):
            i = self.num(i, e)
            if not self.ctx.entails_ge(Lin.of(LEN) - o.base - i - 1): return UNDEF if self.ctx.decide(c_ge(o.ln - i - 1)) is False else self.oob(e)
            return Num(self.rd(o.base + i, 1, "u").lin, self.elty)
        if isinstance(o, Bytes):
            i = self.num(i, e)
            if o.src[0] == "lit" and i.is_const(): return Num(o.src[1][i.c], self.elty)
            if o.src[0] == "utf8":
                if o.src[1].kind == "lit" and i.is_const(): return Num(o.src[1].val.encode()[i.c], self.elty)
                if o.src[1].kind == "lit": return Num(sym(("litat", o.src[1].val, i.key), 0, 255), self.elty)
                if o.src[1].kind == "in": return Num(sym(("u8at", o.src[1].val, i.key), 0, 255), self.elty)
            if o.src[0] == "buf": return Num(self.rd(o.src[2] + i, 1, "u").lin, self.elty)
        self.err(e, "index into %r" % (o,))
    elty = "num"
    def oob(self, e):
        self.note("C09", "the input is read outside the buffer given to the reader"); raise PathEnd("noted")
    def index_oob(self, l, i, e): return UNDEF
    def list_set(self, l, i, v, e):
        i = Lin.of(i); n = l.length()
        if self.ctx.decide(c_eq(i - n)) is True: return self.list_push(l, v)
        return OO.list_set(self, l, i, v, e)
    # ---- DataView access
    def view_get(self, d, kind, args, e):
        w, k, ty = GETS[kind]; off = self.num(args[0], e); ctx = self.ctx; ctx.count("reads")
        if not ctx.entails_ge(off): ctx.branch(c_ge(off)) or self.get_oob(d, w, off, e)
        if not self.ctx.branch(c_ge(d.ln - off - w)): self.get_oob(d, w, off, e)
        if w > 1 and not (len(args) > 1 and isinstance(args[1], Bool) and args[1].c.k == "t"): return Num(self.big_endian(d.base + off, w) if k == "u" else sym(("bigendian", (d.base + off).key, w, k)), self.gotty(ty))
        return Num(self.rd(d.base + off, w, k).lin, self.gotty(ty))
    def big_endian(self, off, w):
        l = Lin(0)
        for i in range(w): l = l + self.rd(off + i, 1, "u").lin.scale(256 ** (w - 1 - i))
        return l
    def gotty(self, ty): return "big" if ty == "big" else "num"
    def get_oob(self, d, w, off, e): self.throw("RangeError")
    def view_set(self, d, kind, args, e):
        w, k, ty = GETS[kind]; off = self.num(args[0], e); self.ctx.count("stores")
        self.store_ok(d, off, Lin(w), e)
        le = w == 1 or (len(args) > 2 and isinstance(args[2], Bool) and args[2].c.k == "t")
        v = args[1]
        if isinstance(v, Bool): l = self.b2i(v)
        elif isinstance(v, (Num, EnumV)): l = v.lin
        else: self.throw("TypeError")
        self.emit(d.base + off, w, ("f" if k == "f" else "i") if le else "bigendian", l)
    def store_ok(self, d, off, w, e): pass
    def bytes_store(self, t, b, off, e):
        """copy bytes into a Uint8Array over the output"""
        at = t.base + off
        if isinstance(b, Bytes) and b.src[0] == "utf8": self.emit_text(at, b.src[1])
        elif isinstance(b, Bytes) and b.src[0] == "lit":
            for i, x in enumerate(b.src[1]): self.emit(at + i, 1, "i", Lin(x))
        elif isinstance(b, ListV) and all(s[0] == "one" for s in b.segs):
            for i, s in enumerate(b.segs): self.emit(at + i, 1, "i", self.num(s[1]))
        else: self.err(e, "bytes %r" % (b,))
    def set_at(self, o, i, v, e):
        if isinstance(o, TArr): self.emit(o.base + self.num(i), 1, "i", self.num(v)); return
        self.err(e, "element assignment into %r" % (o,))
    def lib_method(self, o, name, args, e, sc):
        ctx = self.ctx
        if isinstance(o, DView):
            if name[:3] == "get" and name[3:] in GETS: return self.view_get(o, name[3:], args, e)
            if name[:3] == "set" and name[3:] in GETS: return self.view_set(o, name[3:], args, e)
        if isinstance(o, Opq) and o.tag == "encoder" and name == "encode" and isinstance(args[0], Str): return Bytes(("utf8", args[0]), self.str_ulen(args[0]))
        if isinstance(o, Opq) and o.tag == "decoder" and name == "decode": return self.decode_text(args[0], e, o)
        if isinstance(o, TArr):
            if name == "set": return self.bytes_store(o, args[0], self.num(args[1]) if len(args) > 1 else Lin(0), e)
            if name in ("subarray", "slice"):
                a = self.num(args[0]) if args else Lin(0); b = self.num(args[1]) if len(args) > 1 else o.ln
                if ctx.entails_ge(o.ln - b): return TArr(o.base + a, b - a)
                # the end is clamped to the array
                if ctx.branch(c_ge(o.ln - b)): return TArr(o.base + a, b - a)
                return TArr(o.base + a, o.ln - a)
        if isinstance(o, ABuf) and name == "slice":
            a = self.num(args[0]); b = self.num(args[1]) if len(args) > 1 else o.ln
            if ctx.entails_ge(o.ln - b) or ctx.entails_ge(Lin.of(LEN) - o.base - b) or ctx.branch(c_ge(o.ln - b)): return ABuf(o.base + a, b - a)
            return ABuf(o.base + a, o.ln - a)
        if isinstance(o, ListV):
            if name == "push":
                for a in args: self.list_push(o, self.el_coerce(o, a))
                return Num(o.length(), self.lenty)
            if name in ("slice",) and not args: l = ListV(ctx, o.segs); l.ty = o.ty; return l
            if name == "concat" and isinstance(args[0], ListV): l = ListV(ctx, o.segs + args[0].segs); l.ty = o.ty; return l
            if name == "fill":
                if all(s[0] == "fill" for s in o.segs): ctx.set(o.f, "segs", tuple(("fill", s[1], args[0]) for s in o.segs)); return o
            if name == "forEach":
                self.foreach(e, sc, o.length(), lambda s, ix: None, lambda s: self.invoke(args[0].fn, [self.list_get(o, s.f["$i"].lin, e)], args[0].this, args[0].env)) if False else self.each(o, args[0], e, sc)
                return UNDEF
            if name == "reduce" and len(args) == 2 and isinstance(args[1], Num): return self.reduce(o, args[0], args[1], e, sc)
            if name == "set" and isinstance(args[0], (ListV, Bytes)): self.err(e, "set on a local array")
            if name in ("every", "some") and isinstance(args[0], FnV) and all(s[0] == "one" for s in o.segs):
                for i, s in enumerate(o.segs):
                    a = [s[1], Num(i, self.numty), o]
                    if ctx.branch(self.truth(self.invoke(args[0].fn, a[:len(args[0].fn.params)], args[0].this, args[0].env), e)) is (name == "some"): return Bool(T if name == "some" else F)
                return Bool(F if name == "some" else T)
            if name in ("includes", "has") and all(s[0] == "one" for s in o.segs): return Bool(self.member_of(args[0], [s[1] for s in o.segs], e))
            if name == "indexOf" and all(s[0] == "one" for s in o.segs):
                return Num(self.b2i(Bool(self.member_of(args[0], [s[1] for s in o.segs], e))) - 1, self.numty)     # only its sign is looked at
        if isinstance(o, Opq) and o.tag == "collection":
            l = o.a[0] if o.a else None
            if isinstance(l, ListV) and all(s[0] == "one" for s in l.segs):
                pairs = [s[1] for s in l.segs]
                if all(isinstance(x, ListV) and len(x.segs) == 2 for x in pairs):
                    keys = [x.segs[0][1] for x in pairs]
                    if name == "get":
                        for k, x in zip(keys, pairs):
                            if ctx.branch(self.equal(args[0], k, e)): return x.segs[1][1]
                        return UNDEF
                    if name == "has": return Bool(self.member_of(args[0], keys, e))
                elif name == "has": return Bool(self.member_of(args[0], pairs, e))
        if isinstance(o, Str) and o.kind == "lit" and o.val.isascii() and name in ("charCodeAt", "codePointAt"):
            i = self.num(args[0], e)
            if i.is_const() and 0 <= i.c < len(o.val): return Num(ord(o.val[i.c]), self.numty)
            return Num(sym(("litat", o.val, i.key), 0, 255), self.numty)
        if isinstance(o, Str) and name in ("toString", "valueOf"): return o
        if isinstance(o, Str):
            t = self.text_op(o, name, args)
            if t is not None: return t
        if isinstance(o, Bytes) and o.src[0] == "utf8" and name in ("slice", "subarray"):
            a = self.num(args[0], e) if args else Lin(0); b = self.num(args[1], e) if len(args) > 1 else o.ln
            if a == Lin(0) and ctx.decide(c_eq(b - o.ln)) is True: return o
            t = Str("alt", ("slice", o.src[1].key(), a.key, b.key)); return Bytes(("utf8", t), self.str_ulen(t))
        if isinstance(o, (Num, Bool, Str, EnumV, Opq)) and name in ("toString", "toFixed", "padStart"): return Opq("text")
        if isinstance(o, Opq) and o.tag == "enumvals" and name in ("includes", "has"): return Bool(self.in_enum_table(o.a[0], args[0], e))
        if isinstance(o, Opq) and o.tag == "pkg": return self.pkg_call(o.a[0] + "." + name, args, e, sc)
        self.err(e, "method %s of %r" % (name, o))
    def member_of(self, v, vals, e):
        if isinstance(v, (Num, EnumV)) and all(isinstance(x, (Num, EnumV)) and x.lin.is_const() for x in vals):
            if v.lin.is_const(): return T if v.lin.c in [x.lin.c for x in vals] else F
            o = v.lin.one()
            if o and o[1] == 1: return c_in(o[0], IntSet.of([x.lin.c - o[2] for x in vals]))
        c = F
        for x in vals: c = c_or(c, self.equal(v, x, e))
        return c
    def each(self, l, f, e, sc):
        cell = Scope(self.ctx, sc)
        def bind(s, ix): s.f["$ix"] = Num(ix)
        def body(s):
            a = [self.list_get(l, s.f["$ix"].lin, e), s.f["$ix"], l]
            self.invoke(f.fn, a[:len(f.fn.params)], f.this, f.env)
        self.foreach(e, cell, l.length(), bind, body)
    def reduce(self, l, f, init, e, sc):
        cell = Scope(self.ctx, sc); cell.f["$acc"] = Num(init.lin, self.numty)
        def bind(s, ix): s.f["$ix"] = Num(ix)
        def body(s):
            r = self.invoke(f.fn, [cell.f["$acc"], self.list_get(l, s.f["$ix"].lin, e)], f.this, f.env)
            self.ctx.set(cell.f, "$acc", r)
        self.foreach(e, cell, l.length(), bind, body)
        return cell.f["$acc"]
    def invoke(self, fn, args, this=None, env=None, names=None, targs=None):
        return OO.invoke(self, fn, args, this, env, names, targs)
    def default_arg(self, fn, i, s):
        p = fn.params[i]
        if len(p) > 2 and p[2] != "opt": return self.ev(p[2], s)
        return UNDEF
    def el_coerce(self, l, v): return v
    def decode_text(self, b, e, dec):
        r = self.text_of(b, e)
        if r is None: return Opq("text")
        if dec is not None:
            if dec.a[0] not in ("utf-8", "utf8", "unicode-1-1-utf-8"): return Opq("text", dec.a[0])
            if not dec.a[1]: return Str("bomcut", None, r.off, r.ln) if r.kind == "rd" else r
        return r
    def text_of(self, b, e):
        ctx = self.ctx
        if isinstance(b, (TArr, ABuf)):
            if not ctx.entails_ge(Lin.of(LEN) - b.base - b.ln):
                self.note("C09", "text is taken from %r.. which may extend past the data given to the reader" % b.base); raise PathEnd("noted")
            return Str("rd", None, b.base, b.ln)
        if isinstance(b, Bytes) and b.src[0] == "buf": return Str("rd", None, b.src[2], b.ln)
        if isinstance(b, Bytes) and b.src[0] == "utf8": return b.src[1]
        if isinstance(b, Bytes) and b.src[0] == "lit": return Str("lit", b.src[1].decode("latin-1"))
        if isinstance(b, ListV):
            segs = b.segs
            if not segs: return Str("lit", "")
            if len(segs) == 1 and segs[0][0] == "loop":
                v = segs[0][3]; ix = segs[0][2]
                s = v.lin.one() if isinstance(v, Num) else None
                if s and s[1] == 1 and s[2] == 0 and s[0].key[0] == "rd" and s[0].key[2] == 1:
                    off = Lin(s[0].key[1][0], dict(s[0].key[1][1])) - Lin.of(ix)
                    if ix not in off.t: return Str("rd", None, off, segs[0][1])
            vals = [s[1] for s in segs if s[0] == "one"]
            if len(segs) == 1 and segs[0][0] == "fill" and len(segs[0]) > 3 and segs[0][1].is_const():
                ov = {o[0].c: o[1] for o in segs[0][3] if o[0].is_const()}; n = segs[0][1].c
                vals = [ov.get(i, segs[0][2]) for i in range(n)] if n < 64 else []
            elif len(vals) != len(segs): return None
            if vals and all(isinstance(v, Num) for v in vals):
                o0 = vals[0].lin.one()
                if o0 and o0[0].key[0] == "rd":
                    off = Lin(o0[0].key[1][0], dict(o0[0].key[1][1]))
                    if all(v.lin == Lin.of(rd_sym(off + i, 1, "u")) for i, v in enumerate(vals)): return Str("rd", None, off, Lin(len(vals)))
        return None
    def pkg_call(self, nm, args, e, sc):
        ctx = self.ctx
        if nm == "Number" and isinstance(args[0], (Num, Bool, EnumV)):
            v = args[0]
            if not isinstance(v, Num) or v.ty != "big": return Num(self.num(v), "num")
            if ctx.bounds(v.lin)[1] > SAFE and not ctx.branch(c_ge(v.lin.scale(-1) + SAFE)): ctx.flags["huge"] = True; return Num(sym(("f64of", v.lin.key), SAFE, 1 << 64), "num")
            if ctx.bounds(v.lin)[0] < -SAFE and not ctx.branch(c_ge(v.lin + SAFE)): return Num(sym(("f64of", v.lin.key, "n"), -(1 << 64), -SAFE), "num")
            return Num(v.lin, "num")
        if nm == "BigInt": return Num(self.num(args[0]), "big")
        if nm == "BigInt.asUintN": return Num(self.conv(Num(args[1].lin, "int"), "u%d" % args[0].lin.c).lin, "big")
        if nm == "BigInt.asIntN": return Num(self.conv(Num(args[1].lin, "int"), "i%d" % args[0].lin.c).lin, "big")
        if nm == "Math.fround": return args[0]
        if nm in ("Math.min", "Math.max"):
            a, b = args; d = (b.lin - a.lin) if nm.endswith("min") else (a.lin - b.lin)
            return a if ctx.branch(c_ge(d)) else b
        if nm in ("Math.floor", "Math.trunc", "Math.ceil", "Math.round") and isinstance(args[0], Num):
            if any(isinstance(s.key, tuple) and (s.key[0] == "rd" and s.key[3] == "f" or s.key[0] == "inf") for s in args[0].lin.t): return Num(sym((nm, args[0].lin.key)), args[0].ty)
            return args[0]
        if nm == "Number.isInteger" or nm == "Number.isSafeInteger": return Bool(c_and(c_ge(args[0].lin + (SAFE - 1)), c_ge(args[0].lin.scale(-1) + (SAFE - 1))))
        if nm == "String.fromCharCode":
            if len(args) == 1 and isinstance(args[0], Opq) and args[0].tag == "spread":
                r = self.text_of(args[0].a[0], e)
                if r is not None and r.kind == "rd": return Str("rdenc", "Latin1", r.off, r.ln)
            elif args and all(isinstance(a, Num) for a in args):
                r = self.text_of(ListV(ctx, tuple(("one", a) for a in args)), e)
                if r is not None and r.kind == "rd": return Str("rdenc", "Latin1", r.off, r.ln)
        if nm == "Boolean": return Bool(self.truth(args[0], e))
        if nm == "String": return Opq("text")
        if nm == "Object.values" and isinstance(args[0], TypeV): return Opq("enumvals", args[0].ty[1])
        if nm == "Array.isArray": return Bool(T if isinstance(args[0], ListV) else F)
        if nm.startswith("console."): return UNDEF
        if nm == "Array" and len(args) == 1: return self.new_array(self.num(args[0]), None, e)
        if nm in EXCS: return Exc(nm)
        self.err(e, "library call " + nm)
    def iterable(self, it, n):
        if isinstance(it, ListV): return it
        if isinstance(it, Opq) and it.tag == "enumvals": self.err(n, "iteration over enum values")
        return OO.iterable(self, it, n)
    def as_text(self, v):
        return None if isinstance(v, Str) and v.kind == "bomcut" else OO.as_text(self, v)
    def equal_text(self, a, b): pass
    def rd_str(self, s): return s
    # ---- entries
    def access(self, off, what):
        """(argument, position base) of one way to hand over the data"""
        da = "DataAccess"; ctx = self.ctx
        o = Obj(ctx, da, {}, "obj")
        dv = DView(0, LEN, BO)
        o = self.construct(da, [dv], None)
        ctx.set(o.f, self.offname(), Num(off, self.numty if self.numty == "num" else "u32")); self.da = o; self.base = Lin(0)
        return o
    def offname(self):
        if not hasattr(self, "_offname"):
            d = self.structs["DataAccess"]
            c = [n for n, ty in d.fields if ty is not None and ty[0] == "name" and (ty[1] == "number" or ty[1] in ASNUM)]
            if len(c) != 1: raise AnalysisError("position member of DataAccess")
            self._offname = c[0]
        return self._offname
    def view(self, off):
        self.base = Lin.of(off); self.da = None
        return DView(off, Lin.of(LEN) - off, BO)
    def pos(self):
        return None if self.da is None else self.base + self.da.f[self.offname()].lin
    def inside(self, l): return Lin.of(LEN) - self.base - l
    def stays_inside(self, now): return isinstance(now, Num) and not now.lin.is_const() and self.ctx.entails_ge(Lin.of(LEN) - self.base - now.lin)
    def still_inside(self, old, v):
        if isinstance(old, Num) and self.ctx.entails_ge(Lin.of(LEN) - self.base - old.lin): self.ctx.assume(c_ge(Lin.of(LEN) - self.base - v.lin))
    def start(self, ctx):
        OO.start(self, ctx); self.base = Lin(0); self.da = None
        ctx.assume(c_in(LEN, IntSet([(0, self.maxlen)]))); ctx.assume(c_in(P0, IntSet([(0, self.maxlen)]))); ctx.assume(c_in(W0, IntSet([(0, self.maxlen)])))
        ctx.assume(c_ge(Lin.of(UL) - BO - LEN))
    def static(self, cls, name):
        for (c, n), ms in self.methods.items():
            if c == cls and norm(n) == norm(name): return ms[0]
        raise AnalysisError("%s: no method %s.%s" % (self.lang, cls, name))
    def takes(self, fn, i):
        """class names a parameter accepts"""
        ty = fn.params[i][1]; out = []
        for t in (ty[1] if ty[0] == "union" else [ty]): out.append(t[1] if t[0] in ("name", "gen") else "?")
        return out
    def entry(self, fn, i, off, only_da=False):
        """argument i of an entry point: every accepted way, one per explored path"""
        ways = [w for w in self.takes(fn, i) if w in ("DataAccess", "DataView", "ArrayBuffer")]
        if only_da and "DataAccess" in ways: ways = ["DataAccess"]
        w = ways[self.ctx.choose(len(ways))]
        if w == "DataAccess": return self.access(off, "")
        if w == "DataView": return self.view(off)
        self.base = Lin.of(off); self.da = None
        return ABuf(off, Lin.of(LEN) - off)
    def run_reader(self, ctx, T):
        fn = self.static(self.type_name(T), "fromBytes")
        def go():
            r = self.invoke(fn, [self.entry(fn, 0, P0)], TypeV(("name", self.type_name(T))))
            if r is NULL or r is UNDEF: return ("err", "clean", "null")
            return ("ok", r, self.pos())
        return self.guard(go)
    def in_enum_value(self, e, s): return Num(Lin.of(s), self.numty)
    def native(self, ty): return "big" if ty in ("int64", "uint64") else "num"
    def run_writer(self, ctx, T, tagged):
        fn = self.static(self.type_name(T), "writeBytes"); o = self.in_value(("struct", T), (T,))
        def go():
            ctx.assume(c_ge(Lin.of(LEN) - W0))
            a = self.entry(fn, 0, W0)
            self.invoke(fn, [a, Bool(T_ if tagged else F_)], o); return ("ok", self.pos())
        return self.guard(go)
    def run_size(self, ctx, T):
        fn = self.static(self.type_name(T), "getSizeInBytes")
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [], self.in_value(("struct", T), (T,))))))
    def run_default(self, ctx, T, how): return self.guard(lambda: ("ok", self.construct(self.type_name(T), [], None)))
    def reader_methods(self, T): return [self.static(self.type_name(T), "fromBytes")]
    def da_of(self, args):
        for a in args:
            if isinstance(a, Obj) and a.cls == "DataAccess": return a
        return None
    def summary_call(self, T, fn, args, this):
        a = args[0]
        if isinstance(a, Obj):
            dv = [v for v in a.f.values() if isinstance(v, DView)][0]; off = dv.base + a.f[self.offname()].lin
        elif isinstance(a, DView): off = a.base
        else: raise AnalysisError("typescript: reader argument %r" % (a,))
        ok, end = self.read_summary(T, off)
        if not ok: return self.reader_failed(a)
        if isinstance(a, Obj): self.ctx.set(a.f, self.offname(), Num(end - dv.base, a.f[self.offname()].ty))
        return MsgV(T, off)
    def reader_failed(self, a): self.throw("Error")
    def stream_pos(self, cands, state, mods): return self.base + cands[0]
    def ret_list(self, r):
        if not isinstance(r, ListV): raise AnalysisError("%s: list expected, got %r" % (self.lang, r))
        return ("ok", r)
    def run_process(self, ctx, mx):
        fn = self.fn("ProcessRawBytes")
        def go():
            a = [self.entry(fn, 0, P0), Num(mx, self.numty)]
            return self.ret_list(self.invoke(fn, a))
        return self.guard(go)
    def run_unpack(self, ctx):
        fn = self.fn("UnpackMessages")
        return self.guard(lambda: self.ret_list(self.invoke(fn, [self.entry(fn, 0, P0)])))
    def run_pack(self, ctx):
        fn = self.fn("PackMessages")
        def go(): ctx.assume(c_ge(Lin.of(LEN) - W0)); a = self.entry(fn, 1, W0); self.invoke(fn, [self.msgs(ctx), a]); return ("ok", self.pos())
        return self.guard(go)
    def run_packed_size(self, ctx): return self.guard(lambda: ("ok", self.num(self.invoke(self.fn("GetPackedSize"), [self.msgs(ctx)]))))
    def run_type(self, ctx, T):
        fn = self.static(self.type_name(T), "getMessageType")
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [], self.in_value(("struct", T), (T,))))))
    def type_map(self, ctx):
        """the table from message types to classes, when the output has one"""
        if "MessageTypeMap" not in self.globals_ast: return None
        v = self.global_cell("MessageTypeMap", N("name", 0, id="MessageTypeMap"), None).f["MessageTypeMap"]
        if not (isinstance(v, Opq) and v.tag == "collection" and v.a and isinstance(v.a[0], ListV)): return None
        out = []
        for s in v.a[0].segs:
            if s[0] != "one" or not isinstance(s[1], ListV) or len(s[1].segs) != 2: return None
            out.append((self.num(s[1].segs[0][1]), s[1].segs[1][1]))
        return out
    def type_constants(self):
        self.start(Ctx()); return {norm(n)[:-4]: v for n, v in self.enum_table("MessageType").items() if norm(n).endswith("type")}
    def abs_method(self, m, name, args, e):
        n = norm(name)
        if n == "getsizeinbytes": return Num(m.size(), self.sizety)
        if n == "getmessagetype": return Num(m.which, self.numty)
        if n in ("writebytes", "writebytesda"): return self.write_abs(m, args, e)
        self.err(e, "method %s of a message" % name)
    sizety = "num"
    def write_abs(self, m, args, e):
        a = args[0]; t = args[1] if len(args) > 1 else None
        tag = self.ctx.decide(t.c) if isinstance(t, Bool) else None
        if isinstance(a, Obj): dv = [v for v in a.f.values() if isinstance(v, DView)][0]; out = dv.base + a.f[self.offname()].lin
        else: out = a.base
        self.ctx.events.append(("msg", out, m.path, tag, m.size()))
        if isinstance(a, Obj): self.ctx.set(a.f, self.offname(), Num(a.f[self.offname()].lin + m.size() + (1 if tag else 0), a.f[self.offname()].ty))
        return UNDEF
    # ---- declarations
    NATIVE = None
    def type_ok(self, ty, k):
        if k[0] == "list":
            if ty[0] == "gen" and ty[1] == "Array": return self.type_ok(ty[2][0], k[1])
            return ty[0] == "slice" and self.type_ok(ty[1], k[1])
        if ty[0] != "name": return False
        if k[0] == "str": return ty[1] == "string"
        if k[0] == "num": return ty[1] == self.type_of(k[1])
        if k[0] == "enum": return ty[1] in self.enums and norm(ty[1]) == norm(k[1])
        return ty[1] in self.structs and norm(ty[1]) == norm(k[1])
    def type_of(self, ty): return "boolean" if ty == "bool" else "bigint" if ty in ("int64", "uint64") else "number"
    def enum_decl(self, e):
        en = next((n for n in self.enums if norm(n) == norm(e)), None)
        if en is None: return None, None
        self.start(Ctx()); tab = self.enum_table(en)
        return [(n, tab[n]) for n, x in self.enums[en].values], None
    def default_ways(self, T): return ("new",)
T_, F_ = T, F

class AS(TS):
    lang = "assemblyscript"; numty = "i32"; lenty = "i32"; elty = "u8"; sizety = "usize"
    maxlen = 1 << 30; inductive = True; checked_output = True; enum_by_value = True
    def __init__(self, decls, schema):
        TS.__init__(self, decls, schema); self.cap = 1 << 30; self.layout.cap = 1 << 30
    def prim(self, ty): return ASNUM.get(ty[1]) if ty is not None and ty[0] == "name" else None
    def default_of(self, ty, n):
        p = self.prim(ty)
        if p: return Num(0, p)
        if ty is not None and ty[0] == "name":
            if ty[1] in ("bool", "boolean"): return Bool(F)
            if ty[1] in self.enums: return EnumV(ty[1], 0)
        return NULL
    def mk_enum(self, n, c): return EnumV(n, c)
    def s_var(self, n, sc):
        if n.init is None: return self.declare(sc, n.name, self.default_of(n.ty, n) if n.ty is not None else NULL)
        v = self.copyval(self.ev_as(n.init, n.ty, sc))
        if n.ty is None and isinstance(v, Num) and v.ty in ("int", "float"): v = self.conv(v, "i32" if v.ty == "int" else "f64")
        self.declare(sc, n.name, self.coerce(v, n.ty, n) if n.ty is not None else v)
    def coerce(self, v, ty, n):
        if ty is None: return v
        p = self.prim(ty)
        if p: return self.conv(v, p) if isinstance(v, (Num, EnumV, Bool)) else v
        if ty[0] == "name" and ty[1] in ("bool", "boolean") and isinstance(v, Num): return Bool(c_not(c_eq(v.lin)))
        return TS.coerce(self, v, ty, n)
    def cast(self, v, ty, e):
        if isinstance(v, (Num, EnumV, Bool)): return self.coerce(v, ty, e)
        return v
    def fit(self, v, old, t, e):
        if isinstance(old, Num) and isinstance(v, (Num, EnumV, Bool)): return self.conv(v, old.ty)
        return v
    def conv(self, v, ty):
        if isinstance(v, EnumV): v = Num(v.lin, "i32")
        if isinstance(v, Num) and v.ty == ty and ty in ("i32", "i64", "usize", "isize") and not v.lin.is_const(): return v
        if isinstance(v, Num) and ty in ("usize", "isize"): return Num(v.lin, ty)
        return OO.conv(self, v, ty)
    def result_type(self, a, b):
        ta = a.ty if isinstance(a, Num) else "i32"; tb = b.ty if isinstance(b, Num) else "i32"
        if ta == "int": return tb
        if tb == "int": return ta
        for f in ("f64", "float", "f32"):
            if f in (ta, tb): return "f64" if f == "float" else f
        if ta in INTS and tb in INTS:
            wa = 32 if ta in ("usize", "isize") else INTS[ta][0]; wb = 32 if tb in ("usize", "isize") else INTS[tb][0]
            if "usize" in (ta, tb) and max(wa, wb) == 32: return "usize"
            return ta if wa >= wb else tb
        return ta
    def arith(self, op, a, b, n):
        r = TS.arith(self, op, a, b, n)
        if r.ty in ("u8", "u16", "u32", "u64", "i8", "i16"): return OO.conv(self, r, r.ty)
        return r
    def suffix_type(self, e): return "int"
    def select(self, c, a, b):
        """c ? a : b where one is the tested symbol and the other a constant"""
        if not isinstance(a, (Num, EnumV)) or not isinstance(b, (Num, EnumV)): return None
        if c.k != "in": return None
        for x, y, st in ((a.lin, b.lin, c.b), (b.lin, a.lin, c_not(c).b if c_not(c).k == "in" else None)):
            if st is not None and x == Lin.of(c.a) and y.is_const(): return Num(sym(("keep", c.a, st.iv, y.c), -(1 << 31), (1 << 31) - 1), "i32")
        return None
    def s_if(self, n, sc):
        """if (cond) name = constant: both outcomes in one symbol when the tested value is the variable itself"""
        a = n.a
        body = a.body if a.k == "block" else [a]
        if n.b is None and len(body) == 1 and body[0].k == "expr" and body[0].e.k == "asg" and body[0].e.op == "=" and body[0].e.l.k == "name":
            c = self.cond(n.c, sc)
            if self.ctx.decide(c) is None:
                s = sc.find(body[0].e.l.id)
                if s is not None:
                    v = self.select(c, self.ev(body[0].e.r, sc), s.f[body[0].e.l.id])
                    if v is not None: self.ctx.set(s.f, body[0].e.l.id, Num(v.lin, s.f[body[0].e.l.id].ty if isinstance(s.f[body[0].e.l.id], Num) else "i32")); return
            if self.ctx.branch(c): self.run_block(a, sc)
            return
        return TS.s_if(self, n, sc)
    def apply(self, f, args, e, sc):
        if isinstance(f, FnV) and f.fn.k == "fn" and len(args) == 1 and isinstance(args[0], (Num, EnumV)) and f.fn.ret is not None and f.fn.ret[0] == "name" and f.fn.ret[1] in ("bool", "boolean"):
            r = self.predicate(f, args[0])
            if r is not None: return r
        return TS.apply(self, f, args, e, sc)
    def predicate(self, f, v):
        """a side-effect free test of one value as a condition on it"""
        o = v.lin.one(); ctx = self.ctx
        if not o or o[1] != 1 or o[2] != 0: return None
        s = o[0]; dom = ctx.domain(s); true = IntSet([]); m = ctx.mark(); vec = []; sv, sp = ctx.vec, ctx.pos; base = len(ctx.log); seq0 = ctx.seq; t0 = len(ctx.taken); nf = len(ctx.facts); pure = True
        try:
            for _ in range(600):
                ctx.vec = [0] * ctx.pos + vec
                try: r = self.invoke(f.fn, [v], f.this, f.env)
                except (PathEnd, ThrowX): r = None
                if r is not None:
                    d = None if not isinstance(r, Bool) else ctx.decide(r.c)
                    if any(d2.seq <= seq0 for d2, k, old, _ in ctx.log[base:]) or len(ctx.facts) != nf: pure = False
                    if isinstance(r, Bool) and d is None and r.c.k == "in" and r.c.a is s: true = true.union(ctx.domain(s).inter(r.c.b))
                    elif d is None: pure = False
                    elif d: true = true.union(ctx.domain(s))
                t = ctx.taken[t0:]
                ctx.rollback(m)
                if not pure: break
                while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
                if not t: break
                vec = [x for x, _ in t[:-1]] + [t[-1][0] + 1]
            else: pure = False
        finally:
            ctx.vec, ctx.pos = sv, sp
        return Bool(c_in(s, true)) if pure else None
    def type_member(self, o, f, e):
        if o.ty[1] in ASNUM and f in ("MAX_VALUE", "MIN_VALUE"): return Num(int_range(ASNUM[o.ty[1]])[1 if f[1] == "A" else 0], ASNUM[o.ty[1]])
        return TS.type_member(self, o, f, e)
    def pkg_member(self, p, f, e):
        if p in ASNUM and f in ("MAX_VALUE", "MIN_VALUE"): return Num(int_range(ASNUM[p])[1 if f[1] == "A" else 0], ASNUM[p])
        return TS.pkg_member(self, p, f, e)
    def gotty(self, ty): return ty
    def new_array(self, n, ty, e):
        el = ty[2][0] if ty is not None and ty[0] == "gen" and ty[2] else None
        if self.ctx.decide(c_ge(n)) is not True and not self.ctx.branch(c_ge(n)): raise PathEnd("negcount")
        l = ListV(self.ctx, (("fill", n, self.default_of(el, e)),) if n != Lin(0) else ()); l.ty = ty; return l
    def new_bytes(self, n, e):
        if self.ctx.decide(c_ge(n)) is not True and not self.ctx.branch(c_ge(n)): raise PathEnd("negcount")
        return TS.new_bytes(self, n, e)
    def el_coerce(self, l, v):
        ty = l.ty
        if ty is not None and ty[0] == "gen" and ty[2]: return self.coerce(v, ty[2][0], None)
        if ty is not None and ty[0] == "slice": return self.coerce(v, ty[1], None)
        return v
    def list_set(self, l, i, v, e): return TS.list_set(self, l, i, self.el_coerce(l, v), e)
    def index_oob(self, l, i, e):
        self.note("C09", "list index %r not proven inside the list of length %r (traps)" % (i, l.length())); raise PathEnd("noted")
    def get_oob(self, d, w, off, e):
        self.note("C09", "a %d-byte read at %r is not proven inside the buffer (traps instead of reporting)" % (w, d.base + off)); raise PathEnd("noted")
    def view_get(self, d, kind, args, e):
        w, k, ty = GETS[kind]; off = self.num(args[0], e)
        if not (self.ctx.entails_ge(off) and self.ctx.entails_ge(d.ln - off - w)): self.get_oob(d, w, off, e)
        return TS.view_get(self, d, kind, args, e)
    def store_ok(self, d, off, w, e):
        self.ctx.count("bounds")
        if not (self.ctx.entails_ge(off) and self.ctx.entails_ge(d.ln - off - w)):
            self.note("C10", "a %r-byte store at %r is not proven inside the buffer" % (w, d.base + off)); raise PathEnd("noted")
    def throw_value(self): pass
    def pkg_call(self, nm, args, e, sc):
        if nm == "String.UTF8.encode" and isinstance(args[0], Str) and (len(args) < 2 or args[1].c.k == "f"): return Bytes(("utf8", args[0]), self.str_ulen(args[0]))
        if nm == "String.UTF8.byteLength" and isinstance(args[0], Str) and (len(args) < 2 or args[1].c.k == "f"): return Num(self.str_ulen(args[0]), "i32")
        if nm == "String.UTF8.decode" and (len(args) < 2 or args[1].c.k == "f"):
            r = self.text_of(args[0], e); return Opq("text") if r is None else r
        if nm == "Uint8Array.wrap": return args[0]
        if nm.split(".")[0] in ASNUM and nm.count(".") == 0: return self.coerce(args[0], ("name", nm), e)
        return TS.pkg_call(self, nm, args, e, sc)
    def bytes_store(self, t, b, off, e): self.err(e, "bulk store")
    def in_enum_value(self, e, s): return EnumV(next(n for n in self.enums if norm(n) == norm(e)), s)
    def native(self, ty): return "bool" if ty == "bool" else ModelBase.native(self, ty)
    def in_field(self, T, f, v): return self.coerce(v, self.field_type(T, f), None)
    # ---- entries
    def errflag(self):
        if not hasattr(self, "_ef"):
            c = [n for n, ty in self.structs["DataAccess"].fields if ty in (("name", "bool"), ("name", "boolean"))]
            if len(c) != 1: raise AnalysisError("error flag of DataAccess")
            self._ef = c[0]
        return self._ef
    def failed(self):
        return self.da is not None and self.ctx.branch(self.da.f[self.errflag()].c)
    def two(self, da, plain, i, off):
        """entry through the DataAccess form or the DataView form of a routine"""
        if plain is None or (da is not None and self.ctx.choose(2) == 0): return da, self.access(off, "")
        return plain, self.view(off)
    def method(self, cls, name):
        for (c, n), ms in self.methods.items():
            if c == cls and norm(n) == norm(name): return ms[0]
        return None
    def run_reader(self, ctx, T):
        cls = self.type_name(T)
        def go():
            fn, a = self.two(self.method(cls, "fromBytesDA"), self.method(cls, "fromBytes"), 0, P0)
            r = self.invoke(fn, [a], TypeV(("name", cls)))
            if r is NULL or r is UNDEF: return ("err", "clean", "null")
            if self.failed(): return ("err", "clean", "error flag")
            return ("ok", r, self.pos())
        return self.as_guard(go)
    def as_guard(self, f):
        try: return f()
        except ThrowX as t: return ("err", "panic: an exception", repr(t.v))
    def run_writer(self, ctx, T, tagged):
        cls = self.type_name(T); o = self.in_value(("struct", T), (T,))
        def go():
            fn, a = self.two(self.method(cls, "writeBytesDA"), self.method(cls, "writeBytes"), 0, W0)
            ctx.assume(c_ge(Lin.of(LEN) - W0))
            r = self.invoke(fn, [a, Bool(T_ if tagged else F_)], o)
            if not isinstance(r, Bool): raise AnalysisError("assemblyscript: writer result %r" % (r,))
            if not ctx.branch(r.c): return ("err", "clean")
            if self.failed(): return ("err", "clean")
            return ("ok", self.pos())
        return self.as_guard(go)
    def reader_methods(self, T):
        return [m for m in (self.method(self.type_name(T), "fromBytesDA"), self.method(self.type_name(T), "fromBytes")) if m is not None]
    def reader_failed(self, a):
        if isinstance(a, Obj) and self.ctx.choose(2) == 0: self.ctx.set(a.f, self.errflag(), Bool(T))
        return NULL
    def run_process(self, ctx, mx):
        def go():
            da = self.funcs.get("ProcessRawBytesDA")
            fn = da or self.fn("ProcessRawBytes")
            a = self.access(P0, "") if da is not None else self.view(P0)
            r = self.invoke(fn, [a, Num(mx, "f64")])
            if self.failed(): return ("err", "clean", "error flag")
            return self.ret_list(r)
        return self.as_guard(go)
    def run_unpack(self, ctx): return TS.run_unpack(self, ctx)
    def run_pack(self, ctx):
        fn = self.fn("PackMessages")
        def go():
            ctx.assume(c_ge(Lin.of(LEN) - W0))
            a = self.entry(fn, 1, W0); r = self.invoke(fn, [self.msgs(ctx), a])
            if not ctx.branch(r.c): return ("err", "clean")
            return ("ok", self.pos())
        return self.as_guard(go)
    def write_abs(self, m, args, e):
        a = args[0]; t = args[1]; ctx = self.ctx; tag = ctx.decide(t.c) if isinstance(t, Bool) else None
        if not isinstance(a, Obj): self.err(e, "message written to a view of its own")
        n = m.size() + (1 if tag else 0)
        dv = [v for v in a.f.values() if isinstance(v, DView)][0]; off = a.f[self.offname()].lin
        if ctx.choose(2) == 0:
            ctx.assume(c_ge(dv.ln - off - n))
            ctx.events.append(("msg", dv.base + off, m.path, tag, m.size())); ctx.set(a.f, self.offname(), Num(off + n, a.f[self.offname()].ty))
            return Bool(T)
        ctx.flags["writeerr"] = True; ctx.set(a.f, self.errflag(), Bool(T))
        return Bool(F)
    def type_of(self, ty): return {"bool": "bool", "byte": "u8", "float": "f32", "double": "f64"}.get(ty) or {"int16": "i16", "uint16": "u16", "int32": "i32", "uint32": "u32", "int64": "i64", "uint64": "u64"}[ty]
    def enum_decl(self, e):
        vals, st = TS.enum_decl(self, e)
        if vals is None: return vals, st
        decl = [v for _, v in self.schema.enums[e]]
        return [(n, v) for n, v in vals if not (norm(n) == "unknown" and not any(norm(x) == "unknown" for x, _ in self.schema.enums[e]))], None
    # ---- enum values: kept only when declared, otherwise replaced by the stand-in
    def check_enum(self, tree, l, path):
        ctx = self.ctx; s = tree[2]; decl = IntSet.of([v for _, v in self.schema.enums[tree[1]]]); ctx.count("enum-check")
        dom = ctx.flags.get("enumdom", {}).get(s) or ctx.domain(s); full = IntSet([(s.lo, s.hi)])
        o = l.one()
        if l == Lin.of(s):
            return None if dom.subset(decl) else Mismatch("enumvalid", path, "is kept although it may be %s, which is not declared" % trim(dom.minus(decl)))
        if o and o[1] == 1 and o[2] == 0 and isinstance(o[0].key, tuple) and o[0].key[0] == "keep" and o[0].key[1] is s:
            kept = IntSet(o[0].key[2]); stand = o[0].key[3]
            kept = full.minus(kept) if False else IntSet(o[0].key[2])
            kept = kept.inter(full)
            if decl.inter(IntSet([(stand, stand)])).iv: return Mismatch("enumvalid", path, "undeclared values become %d, which is declared" % stand)
            if not kept.subset(decl): return Mismatch("enumvalid", path, "is kept although it may be %s, which is not declared" % trim(kept.minus(decl)))
            if not decl.inter(full).subset(kept): return Mismatch("value", path, "declared values %s are replaced" % trim(decl.minus(kept)))
            return None
        if l.is_const():
            if dom.lo() == dom.hi() == l.c and decl.inter(dom).iv: return None
            if decl.inter(IntSet([(l.c, l.c)])).iv: return Mismatch("enumvalid", path, "becomes %r for %s" % (l, trim(dom)))
            if dom.inter(decl).iv: return Mismatch("value", path, "declared values %s are replaced" % trim(dom.inter(decl)))
            return None
        return Mismatch("value", path, "is %r, expected the %s at %s" % (l, tree[1], s))
    def iteration_end(self, n, N, ix):
        d = dict(self.ctx.flags.get("enumdom", {}))
        for s, vals in self.enum_obl.get(ix, ()): d[s] = self.ctx.domain(s)
        self.ctx.flags["enumdom"] = d
def build(src, schema, assembly=False): return (AS if assembly else TS)(parse_ts.parse(src), schema)
