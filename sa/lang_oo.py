"""Shared abstract semantics of the class-based languages (C#, TypeScript, AssemblyScript)."""
from .model import *

class Bound(V):
    """method taken from a value the library provides"""
    def __init__(self, o, name): self.o = o; self.name = name
    def __repr__(self): return "Bound(%r.%s)" % (self.o, self.name)
class OO(Model):
    implicit_this = False
    def index(self, decls, prefix=""):
        if not hasattr(self, "structs_all"): self.structs_all = []; self.methods = {}; self.typedefs = {}
        for d in decls:
            if d.k == "ns": self.index(d.decls, prefix); continue
            if d.k == "fn": self.funcs.setdefault(d.name, d)
            elif d.k == "struct":
                self.structs_all.append(d.name); self.structs.setdefault(d.name, d)
                for m in d.methods: self.methods.setdefault((d.name, m.name), []).append(m)
                self.index(getattr(d, "nested", None) or [], prefix)
            elif d.k == "enum": self.enums.setdefault(d.name, d); self.enum_count = getattr(self, "enum_count", {}); self.enum_count[d.name] = self.enum_count.get(d.name, 0) + 1
            elif d.k == "var": self.globals_ast.setdefault(d.name, d)
            elif d.k == "typedef": self.typedefs[d.name] = d.ty
    # ---- names
    def type_name(self, T):
        for n in self.structs:
            if norm(n) == norm(T): return n
        raise AnalysisError("%s: no class for %s" % (self.lang, T))
    def fn(self, name):
        for n, d in self.funcs.items():
            if norm(n) == norm(name): return d
        raise AnalysisError("%s: no function %s" % (self.lang, name))
    def field_name(self, T, m):
        for n, ty in self.structs[self.type_name(T)].fields:
            if norm(n) == norm(m): return n
        raise AnalysisError("%s: no field %s.%s" % (self.lang, T, m))
    def field_type(self, T, f): return dict(self.structs[self.type_name(T)].fields).get(f)
    def new_obj(self, T): return Obj(self.ctx, self.type_name(T), {}, "obj")
    def lineage(self, cls):
        out = []
        while cls is not None and cls not in out:
            out.append(cls); d = self.structs.get(cls); b = [x for x in (d.bases if d else [])]
            nxt = None
            for t in b:
                n = t[1] if t[0] in ("name", "gen") else None
                if n is None: continue
                if n in self.structs or self.external_base(n): nxt = n; break
            cls = nxt if d is not None else self.external_parent(cls)
        return out
    def external_base(self, n): return False
    def external_parent(self, n): return None
    def find_method(self, cls, name, nargs=None, static=None):
        for c in self.lineage(cls):
            ms = self.methods.get((c, name), ())
            ms = [m for m in ms if static is None or bool(m.static) == static]
            if nargs is not None:
                ok = [m for m in ms if len([p for p in m.params if len(p) < 3]) <= nargs <= len(m.params)]
                if ok: return ok[0]
            elif ms: return ms[0]
        return None
    def tag_name(self, cls): return cls
    # ---- objects
    def default_of(self, ty, n): return UNINIT
    def construct(self, cls, args, e):
        d = self.structs[cls]
        if len(self.ctx.callstack) > 40: raise Budget("construction depth")
        o = Obj(self.ctx, cls, {}, "val" if getattr(d, "flavor", "") == "struct" else "obj")
        for c in reversed([c for c in self.lineage(cls) if c in self.structs]):
            dd = self.structs[c]; s = Scope(self.ctx, self.gscope); s.f["$this"] = o; s.f["$cls"] = TypeV(("name", c)); self.bind_field_scope(s, o)
            for nm, ty in dd.fields:
                init = dd.inits.get(nm)
                if init is not None:
                    v = self.copyval(self.ev_as(init, ty, s))
                    o.f[nm] = self.coerce(v, ty, e) if ty is not None else v
                else: o.f[nm] = self.default_of(ty, e)
        self.run_ctor(o, cls, args, e)
        return o
    def run_ctor(self, o, cls, args, e):
        m = self.find_method(cls, self.ctor_name, len(args)) if self.structs.get(cls) else None
        if m is not None and m.cls == cls or (m is not None and not (cls, self.ctor_name) in self.methods): self.invoke(m, args, o)
    ctor_name = "$ctor"
    def bind_field_scope(self, s, o): pass
    def bind_this(self, s, fn, this):
        if this is not None: s.f["$this"] = this
        if getattr(fn, "cls", None): s.f["$cls"] = TypeV(("name", fn.cls))
    def this_of(self, sc):
        s = sc.find("$this")
        return s.f["$this"] if s is not None else None
    def cls_of(self, sc):
        s = sc.find("$cls")
        return s.f["$cls"].ty[1] if s is not None else None
    # ---- enums
    def enum_const(self, en, name, e):
        d = self.enums[en]; prev = -1
        memo = self.__dict__.setdefault("_enumc", {})
        if en not in memo:
            tab = {}
            for n, x in d.values:
                if x is None: prev = prev + 1
                else:
                    l = self.num(self.ev(x, self.enum_scope(tab))); 
                    if not l.is_const(): self.err(e, "enum value")
                    prev = l.c
                tab[n] = prev
            memo[en] = tab
        return memo[en].get(name)
    def enum_scope(self, tab):
        s = Scope(self.ctx, self.gscope)
        for k, v in tab.items(): s.f[k] = Num(v, "int")
        return s
    def enum_table(self, en):
        self.enum_const(en, None, None); return self._enumc[en]
    # ---- expressions
    def e_name(self, e, sc):
        s = sc.find(e.id)
        if s is not None: return self.read_cell(s.f, e.id, e)
        if self.implicit_this:
            c = self.cls_of(sc)
            if c is not None:
                th = self.this_of(sc)
                if th is not None and isinstance(th, Obj) and e.id in th.f: return self.read_cell(th.f, e.id, e)
                v = self.class_member(c, e.id, th, e)
                if v is not None: return v
        return self.global_name(e.id, e, sc)
    def class_member(self, c, name, th, e):
        for k in self.lineage(c):
            d = self.structs.get(k)
            if d is None: break
            if name in d.statics: return self.static_value(k, name, e)
            ms = self.methods.get((k, name))
            if ms:
                if getattr(ms[0], "acc", None) == "get": return self.invoke(ms[0], [], th)
                return Opq("methods", c, name, th)
        return None
    def static_value(self, cls, name, e):
        st = self.statics_cells()
        k = (cls, name)
        if k not in st:
            d = self.structs[cls]; s = Scope(self.ctx, self.gscope); s.f["$cls"] = TypeV(("name", cls))
            ty = getattr(d, "stypes", {}).get(name)
            init = d.statics[name]
            st[k] = self.default_of(ty, e) if init is None else self.coerce(self.ev(init, s), ty, e)
        return st[k]
    def statics_cells(self):
        if not hasattr(self, "_st") or self._st[0] is not self.ctx: self._st = (self.ctx, Cells(self.ctx, {}))
        return self._st[1]
    def global_name(self, name, e, sc):
        if name in self.globals_ast: return self.global_cell(name, e, sc).f[name]
        if name in self.funcs: return FnV(self.funcs[name])
        if name in self.structs or name in self.enums: return TypeV(("name", name))
        return self.lib_name(name, e)
    def global_cell(self, name, e, sc):
        d = self.globals_ast.get(name)
        if d is None: self.err(e, "unknown variable " + name)
        if name not in self.gscope.f:
            if name in self.genv_busy: self.err(e, "cyclic initialiser")
            self.genv_busy.add(name)
            v = self.ev(d.init, self.gscope) if d.init is not None else UNINIT
            self.genv_busy.discard(name)
            self.gscope.f[name] = self.coerce(v, d.ty, e) if d.ty is not None else v
        return self.gscope
    def lib_name(self, name, e): return Opq("pkg", name)
    def l_name(self, e, sc):
        s = sc.find(e.id)
        if s is not None: return ("cell", s.f, e.id)
        if self.implicit_this:
            th = self.this_of(sc)
            if isinstance(th, Obj) and e.id in th.f: return ("cell", th.f, e.id)
            c = self.cls_of(sc)
            if c is not None:
                for k in self.lineage(c):
                    d = self.structs.get(k)
                    if d is not None and e.id in d.statics: self.static_value(k, e.id, e); return ("cell", self.statics_cells(), (k, e.id))
        return ("cell", self.global_cell(e.id, e, sc).f, e.id)
    def l_mem(self, e, sc):
        o = self.ev(e.o, sc)
        if isinstance(o, Obj): return ("cell", o.f, e.f)
        if isinstance(o, TypeV) and o.ty[0] == "name" and o.ty[1] in self.structs and e.f in self.structs[o.ty[1]].statics:
            self.static_value(o.ty[1], e.f, e); return ("cell", self.statics_cells(), (o.ty[1], e.f))
        return ("prop", o, e.f)
    def l_idx(self, e, sc):
        o = self.ev(e.o, sc); i = self.ev(e.i, sc)
        if isinstance(o, ListV): return ("elem", o, self.num(i, e))
        return ("at", o, i)
    def load(self, t, e):
        if t[0] == "prop": return self.member(t[1], t[2], e)
        if t[0] == "at": return self.index_value(t[1], t[2], e)
        return Model.load(self, t, e)
    def store(self, t, v, e):
        if t[0] == "prop": return self.set_prop(t[1], t[2], v, e)
        if t[0] == "at": return self.set_at(t[1], t[2], v, e)
        if t[0] == "cell" and t[1].owner is not None and isinstance(t[1].owner, Obj) and t[1].owner.cls in self.structs:
            ty = self.decl_type(t[1].owner.cls, t[2])
            if ty is not None: v = self.coerce(v, ty, e)
            elif t[2] not in t[1]: self.err(e, "assignment to unknown field %s of %s" % (t[2], t[1].owner.cls))
        return Model.store(self, t, v, e)
    def decl_type(self, cls, f):
        for c in self.lineage(cls):
            d = self.structs.get(c)
            if d is None: return None
            for n, ty in d.fields:
                if n == f: return ty
        return None
    def set_prop(self, o, f, v, e): self.err(e, "assignment to property %s of %r" % (f, o))
    def set_at(self, o, i, v, e): self.err(e, "element assignment into %r" % (o,))
    def index_value(self, o, i, e): self.err(e, "index into %r" % (o,))
    def e_mem(self, e, sc):
        o = self.ev(e.o, sc)
        if o is NULL and getattr(e, "opt", False): return NULL
        return self.member(o, e.f, e)
    def member(self, o, f, e):
        if isinstance(o, Obj):
            if f in o.f: return self.read_cell(o.f, f, e)
            m = self.find_method(o.cls, f)
            if m is not None:
                if getattr(m, "acc", None) == "get": return self.invoke(m, [], o)
                return Opq("methods", o.cls, f, o)
            return self.obj_prop(o, f, e)
        if isinstance(o, TypeV) and o.ty[0] in ("name", "gen"):
            n = o.ty[1]
            if n in self.enums:
                c = self.enum_const(n, f, e)
                if c is None: self.err(e, "no enumerator %s.%s" % (n, f))
                return self.mk_enum(n, c)
            if n in self.structs:
                v = self.class_member(n, f, None, e)
                if v is not None: return v
            return self.type_member(o, f, e)
        if o is NULL or o is UNINIT: return self.null_member(o, f, e)
        return self.value_member(o, f, e)
    def mk_enum(self, n, c): return EnumV(n, c)
    def obj_prop(self, o, f, e): self.err(e, "no member %s in %r" % (f, o))
    def type_member(self, o, f, e): return Opq("pkg", "%s.%s" % (o.ty[1], f))
    def null_member(self, o, f, e): self.err(e, "member %s of %r" % (f, o))
    def value_member(self, o, f, e):
        if isinstance(o, Opq) and o.tag == "pkg": return Opq("pkg", o.a[0] + "." + f)
        return Bound(o, f)
    def e_idx(self, e, sc):
        o = self.ev(e.o, sc); i = self.ev(e.i, sc)
        if isinstance(o, ListV): return self.list_get(o, self.num(i, e), e)
        return self.index_value(o, i, e)
    def e_call(self, e, sc):
        f = self.ev(e.f, sc)
        return self.apply(f, self.call_args(e, sc), e, sc)
    def call_args(self, e, sc): return [self.ev(a, sc) for _, a in e.args]
    def apply(self, f, args, e, sc):
        if isinstance(f, FnV): return self.invoke(f.fn, args, f.this, f.env)
        if isinstance(f, Opq):
            if f.tag == "methods":
                cls, name, th = f.a
                m = self.pick(cls, name, args, th, e)
                if m is None: self.err(e, "no method %s.%s with %d arguments" % (cls, name, len(args)))
                return self.invoke(m, args, None if m.static else th)
            if f.tag == "pkg": return self.pkg_call(f.a[0], args, e, sc)
        if isinstance(f, Bound):
            if isinstance(f.o, AbsMsg): return self.abs_method(f.o, f.name, args, e)
            return self.lib_method(f.o, f.name, args, e, sc)
        self.err(e, "call of %r" % (f,))
    def pick(self, cls, name, args, th, e): return self.find_method(cls, name, len(args))
    def pkg_call(self, nm, args, e, sc): self.err(e, "library call " + nm)
    def lib_method(self, o, name, args, e, sc): self.err(e, "method %s of %r" % (name, o))
    def abs_method(self, o, name, args, e): self.err(e, "method %s of a message" % name)
    def e_lam(self, e, sc):
        return FnV(N("fn", e.line, name="lambda", params=e.params, body=e.body, ret=e.ret, cls=None, static=False), self.this_of(sc), sc)
    def s_foreach(self, n, sc):
        it = self.ev(n.iter, sc)
        l = self.iterable(it, n)
        def bind(s, ix):
            v = self.list_get(l, ix, n)
            vt = getattr(n, "vty", None)
            s.f[n.var] = self.coerce(self.copyval(v), vt, n) if vt is not None else self.copyval(v)
        self.foreach(n, sc, l.length(), bind)
    def iterable(self, it, n):
        if isinstance(it, ListV): return it
        self.err(n, "iteration over %r" % (it,))
    def e_tmpl(self, e, sc):
        for p in e.parts:
            if p.k != "lit": self.ev(p, sc)
        return Opq("text")
    # ---- declarations
    def fields(self, T): return [(n, ty) for n, ty in self.structs[self.type_name(T)].fields]
    def guard(self, f):
        try: return f()
        except ThrowX as t: return ("err", "clean", t.v.cls if isinstance(t.v, Obj) else repr(t.v))
    # ---- library io shared by tasks
    def start(self, ctx):
        Interp.start(self, ctx); self.start_io()
    def start_io(self): self.io = Cells(self.ctx, {"pos": Num(P0), "out": Num(W0)})
    def put(self, width, kind, lin):
        out = self.io["out"].lin
        self.emit(out, width, kind, lin)
        self.ctx.set(self.io, "out", Num(out + width))
    def put_text(self, s):
        out = self.io["out"].lin
        self.emit_text(out, s)
        self.ctx.set(self.io, "out", Num(out + self.str_ulen(s)))
    def reader_of(self, fn):
        if not hasattr(self, "_rd"):
            self._rd = {}
            for T in self.schema.messages:
                for m in self.reader_methods(T): self._rd[id(m)] = T
        return self._rd.get(id(fn))
    def msgs(self, ctx):
        N, mk = msg_list(self, ctx)
        l = ListV(ctx, (("in", ("msgs",), N, mk),)); l.ty = "msgs"
        return l
