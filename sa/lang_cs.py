"""C#: abstract semantics of the generated namespace (BinaryReader/BinaryWriter, UTF8 and collections modelled)."""
from .lang_oo import *
from . import parse_cs

CSNUM = {"byte": "u8", "sbyte": "i8", "ushort": "u16", "short": "i16", "uint": "u32", "int": "i32", "ulong": "u64", "long": "i64", "float": "f32", "double": "f64", "char": "u16",
         "Byte": "u8", "SByte": "i8", "UInt16": "u16", "Int16": "i16", "UInt32": "u32", "Int32": "i32", "UInt64": "u64", "Int64": "i64", "Single": "f32", "Double": "f64", "nint": "i64"}
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}
EXTBASE = {"Exception": None, "SystemException": "Exception", "IOException": "SystemException", "EndOfStreamException": "IOException", "ArgumentException": "SystemException",
           "ArgumentOutOfRangeException": "ArgumentException", "InvalidDataException": "SystemException", "OverflowException": "ArithmeticException", "ArithmeticException": "SystemException",
           "FormatException": "SystemException", "InvalidOperationException": "SystemException", "NotSupportedException": "SystemException", "NullReferenceException": "SystemException", "ArgumentNullException": "ArgumentException",
           "InvalidCastException": "SystemException", "IndexOutOfRangeException": "SystemException"}
READS = {"ReadByte": (1, "u", "u8"), "ReadSByte": (1, "s", "i8"), "ReadInt16": (2, "s", "i16"), "ReadUInt16": (2, "u", "u16"), "ReadInt32": (4, "s", "i32"), "ReadUInt32": (4, "u", "u32"),
         "ReadInt64": (8, "s", "i64"), "ReadUInt64": (8, "u", "u64"), "ReadSingle": (4, "f", "f32"), "ReadDouble": (8, "f", "f64")}
class Exc(V):
    def __init__(self, cls): self.cls = cls
    def __repr__(self): return self.cls
def tail(n): return n.split(".")[-1]

class CS(OO):
    lang = "csharp"; implicit_this = True
    def external_base(self, n): return tail(n) in EXTBASE
    def external_parent(self, n): return EXTBASE.get(tail(n))
    # ---- types
    def prim(self, ty):
        if ty is not None and ty[0] == "name": return CSNUM.get(ty[1]) or CSNUM.get(tail(ty[1])) if ty[1] not in self.structs else None
        return None
    def default_of(self, ty, n):
        p = self.prim(ty)
        if p: return Num(0, p)
        if ty is not None and ty[0] == "name":
            if ty[1] in ("bool", "Boolean"): return Bool(F)
            if ty[1] in self.enums: return EnumV(ty[1], 0)
        return NULL
    def zero_local(self, ty, n): return UNINIT
    def uninit_read(self, cells, k, e): self.err(e, "use of unassigned %r" % (k,))
    def storage_of(self, en):
        b = self.enums[en].base
        return "i32" if b is None else self.prim(b)
    def coerce(self, v, ty, n):
        if ty is None: return v
        p = self.prim(ty)
        if p:
            if isinstance(v, Num):
                if v.ty in ("int", "float") or p[0] == "f" or v.ty not in INTS: return self.conv(v, p)
                return self.conv(v, p)
            return v
        if ty[0] == "name" and ty[1] in self.enums and isinstance(v, Num): return EnumV(ty[1], v.lin)
        if isinstance(v, ListV) and getattr(v, "ty", None) is None: v.ty = ty
        return v
    def copyval(self, v):
        if isinstance(v, Obj) and v.kind == "val": return Obj(self.ctx, v.cls, {k: self.copyval(x) for k, x in v.f.items()}, "val")
        return v
    def s_var(self, n, sc):
        if n.init is None: return self.declare(sc, n.name, UNINIT)
        v = self.copyval(self.ev_as(n.init, n.ty, sc))
        if n.ty is None and isinstance(v, Num) and v.ty in ("int", "float"): v = self.conv(v, "i32" if v.ty == "int" else "f64")
        self.declare(sc, n.name, self.coerce(v, n.ty, n) if n.ty is not None else v)
    def fit(self, v, old, t, e):
        if isinstance(old, Num) and isinstance(v, Num) and v.ty != old.ty: return self.conv(v, old.ty)
        return v
    def result_type(self, a, b):
        ta = a.ty if isinstance(a, Num) else "int"; tb = b.ty if isinstance(b, Num) else "int"
        if ta == tb == "int": return "int"
        ta = "i32" if ta == "int" else ta; tb = "i32" if tb == "int" else tb
        for f in ("f64", "float", "f32"):
            if f in (ta, tb): return "f64" if f == "float" else f
        if "u64" in (ta, tb): return "u64"
        if "i64" in (ta, tb): return "i64"
        if "u32" in (ta, tb): return "u32" if all(isinstance(x, Num) and (x.ty in ("u8", "u16", "u32") or (x.lin.is_const() and x.lin.c >= 0)) for x in (a, b)) else "i64"
        return "i32"
    def suffix_type(self, e):
        s = e.suf.lower()
        return {"u": "u32", "l": "i64", "ul": "u64", "lu": "u64"}.get(s, "int")
    def e_cast(self, e, sc):
        v = self.ev(e.e, sc); ty = e.ty
        if ty[0] == "opt": ty = ty[1]
        p = self.prim(ty)
        if p:
            r = self.conv(v, p)
            if p == "i32" and isinstance(v, Num) and self.ctx.decide(c_ge(v.lin.scale(-1) + ((1 << 31) - 1))) is False: self.ctx.flags["toolarge"] = True    # no array is that long
            return r
        if ty[0] == "name" and ty[1] in self.enums and isinstance(v, (Num, EnumV)): 
            c = self.conv(Num(v.lin, v.ty if isinstance(v, Num) else "int"), self.storage_of(ty[1]))
            return EnumV(ty[1], c.lin)
        return v
    def conv(self, v, ty):
        if isinstance(v, EnumV): v = Num(v.lin, self.storage_of(v.enum))
        if isinstance(v, Num) and v.ty == ty and not v.lin.is_const(): return v       # checked sums of native lengths: the native width is taken to suffice
        return OO.conv(self, v, ty)
    def equal(self, a, b, n):
        if isinstance(a, EnumV) and isinstance(b, EnumV) or isinstance(a, (Num, EnumV)) and isinstance(b, (Num, EnumV)): return c_eq(a.lin - b.lin)
        if isinstance(a, Str) and isinstance(b, Str) and "opq" in (a.kind, b.kind): return Cond("op", ("streq", a.key(), b.key()))
        return OO.equal(self, a, b, n)
    def arith(self, op, a, b, n):
        if op == "+" and (isinstance(a, (Str, Opq)) or isinstance(b, (Str, Opq))): return Opq("text")
        return OO.arith(self, op, a, b, n)
    # ---- names
    def lib_name(self, name, e):
        if name in CSNUM or name in ("string", "String", "bool", "object"): return TypeV(("name", name))
        return Opq("pkg", name)
    def e_name(self, e, sc):
        if e.id == "this":
            th = self.this_of(sc)
            if th is None: self.err(e, "this")
            return th
        return OO.e_name(self, e, sc)
    def e_tyref(self, e, sc): return TypeV(e.ty)
    def e_default(self, e, sc): return self.default_of(e.ty, e) if e.ty is not None else NULL
    def ev_as(self, e, ty, sc):
        if e.k == "default" and e.ty is None: return self.default_of(ty, e)
        if e.k == "new" and e.ty is None:
            e = N("new", e.line, ty=ty, args=e.args, init=e.init)
        if e.k == "alit" and e.ty is None: e = N("alit", e.line, elems=e.elems, ty=ty)
        return self.ev(e, sc)
    def e_throwx(self, e, sc): raise ThrowX(self.ev(e.e, sc))
    def e_nameof(self, e, sc): return Opq("text")
    def e_sizeof(self, e, sc):
        p = self.prim(e.ty)
        if p: return Num(WIDTH[p], "i32")
        if e.ty[1] in self.enums: return Num(WIDTH[self.storage_of(e.ty[1])], "i32")
        self.err(e, "sizeof")
    def e_alit(self, e, sc):
        l = ListV(self.ctx, tuple(("one", self.ev(x, sc)) for x in e.elems)); l.ty = e.ty; return l
    def e_newarr(self, e, sc):
        n = self.num(self.ev(e.n, sc), e)
        if self.ctx.decide(c_ge(n)) is not True and not self.ctx.branch(c_ge(n)): self.throw("OverflowException")
        l = ListV(self.ctx, (("fill", n, self.default_of(e.ty, e)),) if n != Lin(0) else ()); l.ty = ("slice", e.ty); return l
    def e_new(self, e, sc):
        ty = e.ty
        if ty is None: self.err(e, "target-typed new")
        args = [self.ev(a, sc) for _, a in e.args]
        n = ty[1]
        if ty[0] == "name" and n in self.structs: o = self.construct(n, args, e)
        elif ty[0] == "gen" and tail(n) == "List":
            l = ListV(self.ctx, ()); l.ty = ty
            if len(args) == 1 and isinstance(args[0], (Num,)):
                if self.ctx.decide(c_ge(args[0].lin)) is not True and not self.ctx.branch(c_ge(args[0].lin)): self.throw("ArgumentOutOfRangeException")
            elif len(args) == 1 and isinstance(args[0], ListV): l.f["segs"] = args[0].segs
            for f, x in e.init or ():
                self.list_push(l, self.ev(x, sc))
            return l
        elif tail(n) in EXTBASE: return Exc(tail(n))
        elif tail(n) == "string": return Opq("text")
        else: self.err(e, "new " + repr(ty))
        for f, x in (e.init or ()): self.store(("cell", o.f, f), self.copyval(self.ev(x, sc)), e)
        return o
    def run_ctor(self, o, cls, args, e):
        ms = self.methods.get((cls, "$ctor"), [])
        ok = [m for m in ms if len([p for p in m.params if len(p) < 3]) <= len(args) <= len(m.params)]
        if ms and not ok: self.err(e, "no constructor of %s" % cls)
        m = ok[0] if ok else None
        par = [c for c in self.lineage(cls)[1:2] if c in self.structs]
        if m is None:
            if par: self.run_ctor(o, par[0], [], e)
            return
        if m.sup is not None and m.sup[0] == "base" and par: 
            s = Scope(self.ctx, self.gscope)
            for p, a in zip(m.params, args): s.f[p[0]] = a
            self.run_ctor(o, par[0], [self.ev(a, s) for _, a in m.sup[1]], e)
        elif par and m.sup is None: self.run_ctor(o, par[0], [], e)
        if m.body is not None: self.invoke(m, args, o)
    def throw(self, cls): raise ThrowX(Exc(cls))
    def exc_chain(self, v):
        if isinstance(v, Obj): return [tail(c) for c in self.lineage(v.cls)] + ["Exception"]
        if isinstance(v, Exc):
            out = []; c = v.cls
            while c: out.append(c); c = EXTBASE.get(c)
            return out
        return ["Exception"]
    def s_throw(self, n, sc):
        if n.e is None:
            s = sc.find("$exc"); raise ThrowX(s.f["$exc"] if s else Exc("Exception"))
        raise ThrowX(self.ev(n.e, sc))
    def s_trycatch(self, n, sc):
        try:
            try: self.run_block(n.body, sc)
            except ThrowX as t:
                ch = self.exc_chain(t.v)
                for nm, ty, b in n.catches:
                    if ty is None or tail(ty[1]) in ch:
                        s2 = Scope(self.ctx, sc); s2.f["$exc"] = t.v
                        if nm: self.declare(s2, nm, t.v)
                        self.run_block(b, s2); break
                else: raise
        finally:
            if n.fin is not None: self.run_block(n.fin, sc)
    def e_ispat(self, e, sc):
        v = self.ev(e.e, sc); c = F
        for a in e.alts:
            if a[0] == "v": c = c_or(c, self.equal(v, self.ev(a[1], sc), e))
            elif a[0] == "r":
                c = c_or(c, self.compare(a[1], v, self.ev(a[2], sc), e).c)
            else:
                # a type pattern may denote a constant
                ty = a[1]
                if ty[0] == "name" and "." in ty[1] and ty[1].split(".")[0] in self.enums:
                    en, nm = ty[1].split(".", 1); c = c_or(c, self.equal(v, EnumV(en, self.enum_const(en, nm, e)), e)); continue
                self.err(e, "type pattern")
        return Bool(c)
    def e_switchx(self, e, sc):
        v = self.ev(e.e, sc)
        for p, x in e.arms:
            if p is None or self.ctx.branch(self.equal(v, self.ev(p, sc), e)): return self.ev(x, sc)
        self.throw("InvalidOperationException")
    # ---- members of library values
    def value_member(self, o, f, e):
        if isinstance(o, ListV) and f in ("Count", "Length", "LongLength"): return Num(self.clip(o.length()), "i32" if f != "LongLength" else "i64")
        if isinstance(o, Bytes) and f in ("Length", "LongLength"): return Num(o.ln, "i32" if f == "Length" else "i64")
        if isinstance(o, Str) and f == "Length": return Num(self.str_clen(o), "i32")
        if isinstance(o, Opq) and o.tag in ("reader", "writer"):
            if f == "BaseStream": return Opq("stream", o.tag)
        if isinstance(o, Opq) and o.tag == "stream":
            if f == "Position": return self.io["pos" if o.a[0] == "reader" else "out"] if o.a[0] == "reader" else Num(self.io["out"].lin, "i64")
            if f == "Length": return Num(LEN, "i64")
        if isinstance(o, (Exc,)) or (isinstance(o, Opq) and o.tag == "text" and f == "Length"): return Opq("text")
        if isinstance(o, Opq) and o.tag == "pkg":
            p = o.a[0] + "." + f
            en = [x for x in p.split(".") if x in self.structs or x in self.enums]
            if f in self.structs or f in self.enums: return TypeV(("name", f))
            if f in ("MaxValue", "MinValue") and tail(o.a[0]) in CSNUM: return Num(int_range(CSNUM[tail(o.a[0])])[0 if f == "MinValue" else 1], CSNUM[tail(o.a[0])])
            return Opq("pkg", p)
        return Bound(o, f)
    def type_member(self, o, f, e):
        if o.ty[1] in CSNUM and f in ("MaxValue", "MinValue"): return Num(int_range(CSNUM[o.ty[1]])[0 if f == "MinValue" else 1], CSNUM[o.ty[1]])
        if o.ty[1] in ("string", "String") and f == "Empty": return Str("lit", "")
        return OO.type_member(self, o, f, e)
    def obj_prop(self, o, f, e):
        if any(tail(c) == "Exception" for c in self.lineage(o.cls)): return Opq("text")
        return OO.obj_prop(self, o, f, e)
    def null_member(self, o, f, e): self.throw("NullReferenceException")
    def clip(self, l): return l
    def set_prop(self, o, f, v, e):
        if isinstance(o, Opq) and o.tag == "stream" and f == "Position": self.ctx.set(self.io, "pos" if o.a[0] == "reader" else "out", Num(v.lin, "i64")); return
        self.err(e, "property %s of %r" % (f, o))
    def index_value(self, o, i, e):
        if isinstance(o, Bytes) and o.src[0] == "buf":
            i = self.num(i, e)
            if not (self.ctx.entails_ge(i) and self.ctx.entails_ge(o.ln - i - 1)):
                if not self.ctx.branch(c_ge(o.ln - i - 1)): self.throw("IndexOutOfRangeException")
            return self.rd(o.src[2] + i, 1, "u")
        if isinstance(o, Bytes) and o.src[0] == "lit": return Num(o.src[1][self.num(i, e).c], "u8")
        if isinstance(o, Bytes) and o.src[0] == "utf8" and o.src[1].kind == "lit": return Num(o.src[1].val.encode()[self.num(i, e).c], "u8")
        self.err(e, "index into %r" % (o,))
    def index_oob(self, l, i, e): self.throw("ArgumentOutOfRangeException")
    def take(self, n, e):
        ctx = self.ctx; pos = self.io["pos"].lin; n = Lin.of(n)
        ctx.count("reads")
        if ctx.branch(c_ge(Lin.of(LEN) - pos - n)):
            ctx.set(self.io, "pos", Num(pos + n, "i64")); return pos
        self.throw("EndOfStreamException")
    def lib_method(self, o, name, args, e, sc):
        ctx = self.ctx
        if isinstance(o, Opq) and o.tag == "reader":
            if name in READS:
                w, k, ty = READS[name]; pos = self.take(w, e); v = self.rd(pos, w, k); return Num(v.lin, ty)
            if name == "ReadBoolean": pos = self.take(1, e); return Bool(c_not(c_eq(self.rd(pos, 1, "u").lin)))
            if name == "ReadBytes":
                n = self.num(args[0], e)
                if ctx.decide(c_ge(n)) is not True and not ctx.branch(c_ge(n)): ctx.flags["toolarge"] = True; self.throw("ArgumentOutOfRangeException")
                pos = self.io["pos"].lin
                if ctx.branch(c_ge(Lin.of(LEN) - pos - n)): ctx.set(self.io, "pos", Num(pos + n, "i64")); return Bytes(("buf", None, pos), n)
                got = Lin.of(LEN) - pos
                if ctx.decide(c_ge(got)) is not True: ctx.assume(c_ge(got))
                ctx.set(self.io, "pos", Num(LEN, "i64")); return Bytes(("buf", None, pos), got)
            if name in ("ReadString", "ReadChars", "ReadChar"):
                pos = self.take(1, e); return Opq("text", name)
            if name in ("PeekChar",): return Num(sym(("peek",), -1, 65535), "i32")
        if isinstance(o, Opq) and o.tag == "stream" and name == "Seek":
            w = args[1]; k = "pos" if o.a[0] == "reader" else "out"
            if isinstance(w, Opq) and w.a[0].endswith("Current"): ctx.set(self.io, k, Num(self.io[k].lin + self.num(args[0]), "i64")); return self.io[k]
            self.err(e, "Seek")
        if isinstance(o, Opq) and o.tag == "writer":
            if name == "Write":
                v = args[0]
                if len(args) == 3 and isinstance(v, Bytes):
                    if self.num(args[1]) == Lin(0) and self.num(args[2]) == v.ln: args = [v]
                if len(args) != 1: self.err(e, "Write overload")
                if isinstance(v, Bool): return self.put(1, "i", self.b2i(v))
                if isinstance(v, EnumV): self.err(e, "Write of an enum")
                if isinstance(v, Num):
                    ty = {"int": "i32", "float": "f64"}.get(v.ty, v.ty)
                    return self.put(WIDTH[ty], "f" if ty[0] == "f" else "i", v.lin)
                if isinstance(v, Bytes):
                    if v.src[0] == "utf8": return self.put_text(v.src[1])
                    if v.src[0] == "lit":
                        for b in v.src[1]: self.put(1, "i", Lin(b))
                        return
                if isinstance(v, ListV):
                    if all(s[0] == "one" for s in v.segs):
                        for s in v.segs: self.put(1, "i", self.num(s[1]))
                        return
                if isinstance(v, Str): self.put(1, "leb", self.str_ulen(v)); return self.put_text(v)
            if name == "Flush": return None
        if isinstance(o, Opq) and o.tag == "pkg": return self.pkg_call(o.a[0] + "." + name, args, e, sc)
        if isinstance(o, ListV):
            if name == "Add": return self.list_push(o, self.el_coerce(o, self.copyval(args[0])))
            if name in ("ToArray", "ToList"): l = ListV(ctx, o.segs); l.ty = o.ty; return l
            if name == "AddRange" and isinstance(args[0], ListV): return self.list_concat(o, args[0])
            if name == "Clear": ctx.set(o.f, "segs", ()); return
            if name in ("Capacity", "EnsureCapacity", "TrimExcess"): return Opq("none")
            if name == "Insert":
                at = self.num(args[0])
                if ctx.decide(c_eq(at - o.length())) is True: return self.list_push(o, args[1])
                if at == Lin(0): ctx.set(o.f, "segs", (("one", args[1]),) + o.segs); return
        if isinstance(o, Str) and name in ("ToString", "Clone"): return o
        if isinstance(o, Str):
            t = self.text_op(o, name, args)
            if t is not None: return t
        if isinstance(o, (Num, EnumV, Bool, Str, Opq, Exc, Obj)) and name in ("ToString", "GetType"): return Opq("text")
        if isinstance(o, (Num, EnumV, Str)) and name == "Equals": return Bool(self.equal(o, args[0], e))
        if isinstance(o, Num) and name == "CompareTo": self.err(e, "CompareTo")
        if isinstance(o, Bytes) and name == "SequenceEqual": return Bool(self.bytes_equal(o, args[0], e))
        self.err(e, "method %s of %r" % (name, o))
    def el_coerce(self, l, v):
        ty = l.ty
        if ty is not None and ty[0] == "gen" and ty[2]: return self.coerce(v, ty[2][0], None)
        if ty is not None and ty[0] == "slice": return self.coerce(v, ty[1], None)
        return v
    def list_set(self, l, i, v, e): return OO.list_set(self, l, i, self.el_coerce(l, v), e)
    def pkg_call(self, nm, args, e, sc):
        ctx = self.ctx; parts = nm.split("."); f = parts[-1]
        own = parts[-2] if len(parts) > 1 else ""
        if len(parts) > 2 and parts[-3] == "Encoding":
            if own == "UTF8":
                if f == "GetBytes" and isinstance(args[0], Str): return Bytes(("utf8", args[0]), self.str_ulen(args[0]))
                if f == "GetByteCount" and isinstance(args[0], Str): return Num(self.str_ulen(args[0]), "i32")
                if f == "GetString":
                    b = args[0]
                    if isinstance(b, Bytes):
                        if len(args) == 3:
                            if self.num(args[1]) == Lin(0): b = Bytes(b.src, self.num(args[2]))
                            else: return Opq("text")
                        if b.src[0] == "buf": return Str("rd", None, b.src[2], b.ln)
                        if b.src[0] == "utf8": return b.src[1]
                        if b.src[0] == "lit": return Str("lit", b.src[1].decode("latin-1"))
            else:
                if own in ("ASCII", "Latin1") and isinstance(args[0], Str) and args[0].kind == "lit" and args[0].val.isascii():
                    if f == "GetBytes": return Bytes(("utf8", args[0]), Lin(len(args[0].val)))
                    if f == "GetByteCount": return Num(len(args[0].val), "i32")
                if f == "GetString" and own in ("ASCII", "Latin1") and len(args) == 1 and isinstance(args[0], Bytes) and args[0].src[0] == "buf":
                    return Str("rdenc", own, args[0].src[2], args[0].ln)
                if f in ("GetBytes", "GetByteCount") and len(args) == 1 and isinstance(args[0], Str):
                    alt = Str("alt", ("enc", own, args[0].key()))
                    return Bytes(("utf8", alt), self.str_ulen(alt)) if f == "GetBytes" else Num(self.str_ulen(alt), "i32")
                if f == "GetString": return Opq("text", own)
        if f == "IsDefined" and own == "Enum":
            t = args[0]; v = args[1]
            if not isinstance(t, TypeV) or t.ty[1] not in self.enums: self.err(e, "IsDefined")
            if isinstance(v, Num) and v.ty != self.storage_of(t.ty[1]): self.throw("ArgumentException")
            vals = list(self.enum_table(t.ty[1]).values())
            o = v.lin.one()
            if v.lin.is_const(): return Bool(T if v.lin.c in vals else F)
            if o and o[1] == 1: return Bool(c_in(o[0], IntSet.of([x - o[2] for x in vals])))
            self.err(e, "IsDefined of %r" % (v,))
        if own == "Convert" and f.startswith("To"):
            ty = CSNUM.get(f[2:])
            if ty and isinstance(args[0], (Num, EnumV, Bool)):
                v = args[0]
                if isinstance(v, Bool): return self.conv(v, ty)
                lo, hi = int_range(ty)
                if ctx.decide(c_ge(v.lin - lo)) is not True and not ctx.branch(c_ge(v.lin - lo)): self.throw("OverflowException")
                if ctx.decide(c_ge(v.lin.scale(-1) + hi)) is not True and not ctx.branch(c_ge(v.lin.scale(-1) + hi)): ctx.flags["toolarge"] = True; self.throw("OverflowException")
                return Num(v.lin, ty)
            if f == "ToBoolean" and isinstance(args[0], Num): return Bool(c_not(c_eq(args[0].lin)))
        if own == "Array" and f == "Empty": l = ListV(ctx, ()); return l
        if own in ("String", "string") and f in ("Format", "Concat", "Join"): return Opq("text")
        if own in ("Console", "Debug"): return None
        if own == "Math" and f in ("Min", "Max"):
            a, b = args; d = (b.lin - a.lin) if f == "Min" else (a.lin - b.lin)
            return a if ctx.branch(c_ge(d)) else b
        if own == "BitConverter" and f == "GetBytes" and isinstance(args[0], Num): self.err(e, "BitConverter")
        if f == "SequenceEqual" and len(args) == 1: self.err(e, "SequenceEqual")
        self.err(e, "library call " + nm)
    def abs_method(self, m, name, args, e):
        n = norm(name)
        if n == "getsizeinbytes": return Num(m.size(), "i32")
        if n == "getmessagetype": return EnumV("MessageType", m.which)
        if n == "writebytes":
            t = args[1]; tag = self.ctx.decide(t.c) if isinstance(t, Bool) else None
            out = self.io["out"].lin
            self.ctx.events.append(("msg", out, m.path, tag, m.size()))
            self.ctx.set(self.io, "out", Num(out + m.size() + (1 if tag else 0)))
            return None
        self.err(e, "method %s of a message" % name)
    def pick(self, cls, name, args, th, e):
        ms = []
        for c in self.lineage(cls):
            ms += [m for m in self.methods.get((c, name), ()) if len([p for p in m.params if len(p) < 3]) <= len(args) <= len(m.params) and m.body is not None]
        if len(ms) > 1 and ms[0].cls == ms[1].cls:
            for m in ms:
                if all(self.fits(a, p[1]) for a, p in zip(args, m.params)): return m
        return ms[0] if ms else None
    def fits(self, v, ty):
        if isinstance(v, Num): return self.prim(ty) is not None
        if isinstance(v, Bool): return ty == ("name", "bool")
        if isinstance(v, Opq) and v.tag in ("reader", "writer"): return tail(ty[1]) == ("BinaryReader" if v.tag == "reader" else "BinaryWriter")
        return True
    # ---- tasks
    def in_enum_value(self, e, s): return EnumV(next(n for n in self.enums if norm(n) == norm(e)), s)
    def in_field(self, T, f, v): return self.coerce(v, self.field_type(T, f), None)
    def static(self, cls, name):
        for (c, n), ms in self.methods.items():
            if c == cls and norm(n) == norm(name): return ms[0]
        raise AnalysisError("csharp: no method %s.%s" % (cls, name))
    def run_reader(self, ctx, T):
        fn = self.static(self.type_name(T), "FromBytes")
        def go():
            r = self.invoke(fn, [Opq("reader")])
            if r is NULL: return ("err", "clean", "null")
            return ("ok", r, self.io["pos"].lin)
        return self.guard(go)
    def run_writer(self, ctx, T, tagged):
        fn = self.static(self.type_name(T), "WriteBytes"); o = self.in_value(("struct", T), (T,))
        def go():
            self.invoke(fn, [Opq("writer"), Bool(T_ if tagged else F_)], o); return ("ok", self.io["out"].lin)
        return self.guard(go)
    def run_size(self, ctx, T):
        fn = self.static(self.type_name(T), "GetSizeInBytes")
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [], self.in_value(("struct", T), (T,))))))
    def run_default(self, ctx, T, how): return self.guard(lambda: ("ok", self.construct(self.type_name(T), [], None)))
    def reader_methods(self, T): return [self.static(self.type_name(T), "FromBytes")]
    def summary_call(self, T, fn, args, this):
        ok, end = self.read_summary(T, self.io["pos"].lin)
        if not ok: self.throw("EndOfStreamException") if self.ctx.choose(2) == 0 else self.throw("InvalidDataException")
        v = MsgV(T, self.io["pos"].lin); self.ctx.set(self.io, "pos", Num(end, "i64")); return v
    def ret_list(self, r):
        if not isinstance(r, ListV): raise AnalysisError("csharp: list expected, got %r" % (r,))
        return ("ok", r)
    def run_process(self, ctx, mx): return self.guard(lambda: self.ret_list(self.invoke(self.static("Message", "ProcessRawBytes"), [Opq("reader"), Num(mx, "i32")])))
    def run_unpack(self, ctx): return self.guard(lambda: self.ret_list(self.invoke(self.static("Message", "UnpackMessages"), [Opq("reader")])))
    def run_pack(self, ctx):
        def go(): self.invoke(self.static("Message", "PackMessages"), [self.msgs(ctx), Opq("writer")]); return ("ok", self.io["out"].lin)
        return self.guard(go)
    def run_packed_size(self, ctx): return self.guard(lambda: ("ok", self.num(self.invoke(self.static("Message", "GetPackedSize"), [self.msgs(ctx)]))))
    def run_type(self, ctx, T):
        fn = self.static(self.type_name(T), "GetMessageType")
        return self.guard(lambda: ("ok", self.num(self.invoke(fn, [], self.in_value(("struct", T), (T,))))))
    def type_constants(self):
        self.start(Ctx()); return {norm(n)[:-4]: v for n, v in self.enum_table("MessageType").items() if norm(n).endswith("type")}
    # ---- declarations
    def type_ok(self, ty, k):
        if k[0] == "list": return ty[0] == "gen" and tail(ty[1]) == "List" and self.type_ok(ty[2][0], k[1])
        if ty[0] != "name": return False
        if k[0] == "str": return ty[1] in ("string", "String")
        if k[0] == "num": return ty[1] in ("bool", "Boolean") if k[1] == "bool" else self.prim(ty) == self.native(k[1])
        if k[0] == "enum": return ty[1] in self.enums and norm(ty[1]) == norm(k[1])
        return ty[1] in self.structs and norm(ty[1]) == norm(k[1])
    def enum_decl(self, e):
        en = next((n for n in self.enums if norm(n) == norm(e)), None)
        if en is None: return None, None
        self.start(Ctx()); self.enum_table(en)
        vals = []; tab = self._enumc[en]
        for n, x in self.enums[en].values: vals.append((n, tab[n]))
        return vals, self.storage_of(en)
T_, F_ = T, F
def build(src, schema): return CS(parse_cs.parse(src), schema)
