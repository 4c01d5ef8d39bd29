"""Zig: who owns an allocation when a reader fails. Every function that takes an allocator and may fail is examined on its own;
a call of another such function either fails or hands over a fresh value of its declared type. On every failing exit the acquire
and release events must cancel, and the elements a list got so far must all be released, once, and no others."""
from .core import *
from .interp import *
from .interp import subst_lin
from .expect import same
from .model import *
from .lang_zig import Zig, VOID
from .mem import subst_many

class ZigOwn(Zig):
    lists = None
    # ---- which functions
    def fallible(self, fn):
        return getattr(fn, "k", None) == "fn" and fn.ret is not None and fn.ret.k == "errunion" and any(te.k == "mem" and te.f == "Allocator" for nm, te in fn.params)
    def owned(self, ty):
        return ty is not None and (ty[0] == "slice" or (ty[0] == "name" and (ty[1], "deinit") in self.methods))
    def fresh(self, ty, what):
        ctx = self.ctx
        if ty[0] == "eu": return self.fresh(ty[1], what)
        if ty[0] == "anon":
            return Obj(ctx, "$anon", {n: self.fresh(self.typ(te, ty[2]), what) for n, te in ty[1].fields}, "val")
        if ty[0] == "slice":
            tok = self.acquire(what, None, False); n = Lin.of(sym(("made", tok[0]) + tuple(l.key for l in tok[1]), 0, 1 << 59))
            ctx.events[-1] = ctx.events[-1][:3] + (n,)
            l = self.mklist((("elems", n, self.owned(ty[1])),), ty); l.aid = tok; self.lists.append(l); return l
        if ty[0] == "name":
            if ty[1] in INTS:
                lo, hi = int_range(ty[1]); return Num(sym(("made", ctx.new()) + tuple(Lin.of(l[0]).key for l in ctx.loops), max(lo, 0) if ty[1] == "usize" else lo, min(hi, 1 << 59)), ty[1])
            if self.owned(ty): return Opq("ownedv", self.acquire(what, None, False), ty[1])
            return Opq("plainv", ty[1])
        raise AnalysisError("zig: result type %r of %s" % (ty, what))
    root = None
    def invoke(self, fn, args, this=None, env=None, names=None, targs=None):
        if self.lists is None or not self.fallible(fn): return Zig.invoke(self, fn, args, this, env, names, targs)
        if self.root is fn:
            self.root = None; return Zig.invoke(self, fn, args, this, env, names, targs)
        key = tuple(a.ty for a in args if isinstance(a, TypeV))
        if (id(fn), key) not in self.seen:
            self.seen.add((id(fn), key)); self.todo.append((fn, key))
        self.ctx.count("summarised-calls")
        if not self.in_defer and self.ctx.choose(2): return ErrV("Any")
        s = Scope(self.ctx, self.gscope)
        if getattr(fn, "cls", None): s.f["$cls"] = TypeV(("name", fn.cls))
        for (nm, te), a in zip(fn.params, args):
            if isinstance(a, TypeV) and nm: s.f[nm] = a
        return self.fresh(self.typ(fn.ret, s), (fn.cls + "." if getattr(fn, "cls", None) else "") + fn.name)
    # ---- lists whose elements own memory
    def lid(self, l): return l.aid
    def list_get(self, l, i, e):
        i = Lin.of(i); pos = Lin(0)
        for s in l.segs:
            n = seg_len(s); rel = i - pos
            if s[0] in ("elems", "hist"):
                if self.ctx.entails_ge(rel) and self.ctx.entails_ge(n - rel - 1): return Opq("elem", l.aid, rel)
            pos = pos + n
        return Zig.list_get(self, l, i, e)
    def index_oob(self, l, i, e):
        if self.in_defer and any(x[0] == "fill" and x[2] is UNINIT for x in l.segs):
            made = Lin(0)
            for s in l.segs: made = made + (len(s[3]) if s[0] == "fill" and s[2] is UNINIT and len(s) > 3 else 0 if s[0] == "fill" and s[2] is UNINIT else seg_len(s))
            if any(s[0] == "fill" and s[2] is UNINIT for s in l.segs) and not self.ctx.entails_ge(made - i - 1):
                self.note("C16", "an element that may not have been read yet is released"); raise PathEnd("noted")
            raise AnalysisError("zig: which element is released in %s" % self.where())
        return Zig.index_oob(self, l, i, e)
    def e_zfor(self, e, sc):
        """a list made of several stretches is walked stretch by stretch"""
        if len(e.iters) == 1 and e.iters[0].k != "rangex":
            v = self.ev(e.iters[0], sc)
            if isinstance(v, ListV) and len(v.segs) > 1 and any(s[0] in ("hist", "elems") for s in v.segs):
                for s in v.segs:
                    part = ListV(self.ctx, (s,), v.ty); part.aid = v.aid
                    ref = e.caps[0][1]
                    def bind(s2, ix): s2.f[e.caps[0][0]] = self.at(part, ix, ref, e)
                    self.foreach(e, sc, seg_len(s), bind, lambda s2: self.ev(e.body, s2))
                return VOID
        return Zig.e_zfor(self, e, sc)
    def e_slice(self, e, sc):
        o = self.ev(e.o, sc)
        if isinstance(o, ListV) and o.segs and o.segs[0][0] in ("elems", "hist"):
            lo = self.num(self.ev(e.lo, sc), e); hi = o.length() if e.hi is None else self.num(self.ev(e.hi, sc), e)
            if lo == Lin(0) and same(self.ctx, hi, seg_len(o.segs[0])):
                p = ListV(self.ctx, o.segs[:1], o.ty); p.aid = o.aid; return p
            if lo == Lin(0) and hi == Lin(0): return ListV(self.ctx, (), o.ty)
        if isinstance(o, ListV) and all(s[0] == "fill" for s in o.segs) and e.hi is not None and self.num(self.ev(e.hi, sc), e) == Lin(0): return ListV(self.ctx, (), o.ty)
        return Zig.e_slice(self, e, sc)
    def lib_method(self, o, n, e, sc):
        if isinstance(o, Opq) and o.tag == "ownedv" and n == "deinit": self.release(o.a[0], e); return VOID
        if o is UNINIT and n == "deinit" or isinstance(o, Opq) and o.tag == "plainv": self.note("C16", "a value that was never read is released"); raise PathEnd("noted")
        r = Zig.lib_method(self, o, n, e, sc)
        if isinstance(o, Opq) and o.tag == "allocator" and n in ("alloc", "alignedAlloc") and isinstance(r, ListV): self.lists.append(r)
        if isinstance(o, Obj) and o.cls == "$ArrayList":
            if n == "toOwnedSlice" and isinstance(r, ListV): self.lists.append(r)
        return r
    def pkg_call(self, nm, e, sc):
        r = Zig.pkg_call(self, nm, e, sc)
        if nm in ("ArrayList.init", "ArrayList.initCapacity") and isinstance(r, Obj):
            l = r.f["items"]; l.aid = r.f["$live"]; l.ty = ("slice", ("name", "Message")); self.lists.append(l)
        return r
    def member(self, o, f, e):
        if o is UNINIT: return Opq("method", UNINIT, f)
        return Zig.member(self, o, f, e)
    def elem_release(self, o, e):
        self.ctx.events.append(("relelem", o.a[0], o.a[1], self.where())); return VOID
    def free_value(self, v, e):
        if v is UNINIT: self.note("C16", "memory is released through a value that was never read"); raise PathEnd("noted")
        if isinstance(v, Opq) and v.tag == "elem": return self.elem_release(v, e)
        if isinstance(v, Opq) and v.tag == "ownedv": raise AnalysisError("zig: free of a struct")
        return Zig.free_value(self, v, e)
    # ---- loops
    def generalise(self, mods, ix, pre, tmp, tag=None):
        Zig.generalise(self, mods, ix, pre, tmp, tag)
        for sq, k, cl, data in mods:
            d = self.ctx.cells[sq]; l = getattr(d, "owner", None)
            if cl != "set" or not isinstance(l, ListV): continue
            if not (l.ty and l.ty[0] == "slice" and self.owned(l.ty[1])): continue
            segs = d[k]
            if len(segs) == 1 and segs[0][0] == "fill" and segs[0][2] is UNINIT and len(segs[0]) == 3:
                self.ctx.set(d, k, (("elems", ix, True), ("fill", segs[0][1] - ix, UNINIT)))
    def generic(self, n, N, mods, cond, body, step):
        ctx = self.ctx; outer = ctx.events; depth = len(ctx.loops)
        gen = [(sq, k, ctx.cells[sq][k]) for sq, k, cl, d in mods if cl == "set"]
        try: Zig.generic(self, n, N, mods, cond, body, step)
        except (RetX, BrkX):
            ev = ctx.events
            if ev is not outer:
                ctx.events = outer
                if ev: outer.append(("part", ev))
            del ctx.loops[depth:]; raise
        for sq, k, was in gen:
            d = ctx.cells[sq]; l = getattr(d, "owner", None)
            if N is not None and isinstance(l, ListV) and l.ty and l.ty[0] == "slice" and self.owned(l.ty[1]) and len(was) == 1 and was[0][0] == "fill" and was[0][2] is UNINIT:
                rest = was[0][1] - N
                ctx.set(d, k, (("elems", N, True),) + (() if same(ctx, rest, Lin(0)) else (("fill", rest, UNINIT),)))
    def iteration_end(self, n, N, ix):
        ctx = self.ctx; moved = []
        for l in self.lists:
            sg = l.segs
            if len(sg) == 2 and sg[0][0] == "elems" and sg[1][0] == "fill" and same(ctx, sg[0][1], Lin.of(ix)):
                if len(sg[1]) != 4 or len(sg[1][3]) != 1 or sg[1][3][0][0] != Lin(0): raise AnalysisError("zig: the list is not filled element by element")
                v = sg[1][3][0][1]; tok = v.aid if isinstance(v, ListV) else v.a[0] if isinstance(v, Opq) and v.tag == "ownedv" else None
                if tok is None: raise AnalysisError("zig: element %r" % (v,))
                moved.append(tok)
        if moved: self.handed = moved
        Zig.iteration_end(self, n, N, ix)
    # ---- the balance on a failing exit
    def settle(self, where):
        ctx = self.ctx; al = []; fr = []; els = []
        def walk(evs, quant):
            for x in evs:
                if x[0] == "acq": al.append((x[1], list(quant), x[2], x[3]))
                elif x[0] == "rel": fr.append((x[1], list(quant), x[2]))
                elif x[0] == "relelem": els.append((x[1], x[2], list(quant), x[3]))
                elif x[0] == "loop": walk(x[3], quant + [(x[2], x[1])])
                elif x[0] == "part": walk(x[1], quant)
        walk(ctx.events, [])
        key = lambda t: (t[0], tuple(l.key for l in t[1]))
        handed = {(t[0]) for t in getattr(self, "handed", ())}
        bad = lambda m: ctx.note("C16", where, m)
        live = lambda q: not any(ctx.bounds(n)[1] <= 0 or ctx.decide(c_eq(n)) is True for s, n in q)
        fr = [f for f in fr if live(f[1])]; els = [f for f in els if live(f[2])]
        for tok, q, what, size in al:
            if not live(q): continue
            if q and tok[0] in handed: continue               # kept by the list it was stored in
            hit = [f for f in fr if key(f[0]) == key(tok)]
            if len(hit) > 1 or any(f[1] and not q for f in hit): bad("memory is released more than once when reading fails: %s" % what)
            elif not hit and not (size is not None and ctx.decide(c_eq(size)) is True): bad("memory is not released when reading fails: %s" % what)
            fr = [f for f in fr if key(f[0]) != key(tok)]
        for f in fr: bad("memory is released that was not acquired, in %s" % (f[2],))
        have = {key(a[0]) for a in al}
        for l in {key(l.aid): l for l in self.lists if l.aid is not None and key(l.aid) in have}.values():
            for s in l.segs:
                if not (s[0] == "hist" or (s[0] == "elems" and s[2])) or ctx.decide(c_eq(s[1])) is True: continue
                mine = [x for x in els if x[0] is not None and key(x[0]) == key(l.aid)]; els = [x for x in els if x not in mine]
                if len(mine) != 1: bad("the elements of a list are %s when reading fails" % ("not released" if not mine else "released more than once")); continue
                _, i, q, w = mine[0]; o = i.one()
                if len(q) == 1 and not same(ctx, q[0][1], s[1]): bad("not exactly the elements that were read are released when reading fails (%r of %r)" % (q[0][1], s[1]))
                elif len(q) != 1 or q[0][0] not in i.t or abs(i.t[q[0][0]]) != 1: raise AnalysisError("zig: which elements are released in %s" % (w,))
                else:
                    lo = i if i.t[q[0][0]] == 1 else subst_lin(i, q[0][0], q[0][1] - 1 - Lin.of(q[0][0]))
                    if not same(ctx, lo, Lin.of(q[0][0])): bad("the wrong elements are released when reading fails")
        for x in els: bad("elements of a list are released that are not there, in %s" % (x[3],))
    def kept(self, where, v):
        """on a normal exit: everything acquired is released here or reachable from the result, not both"""
        ctx = self.ctx; al = []; fr = []; els = []; mine = {}
        def walk(evs, quant):
            for x in evs:
                if x[0] == "acq": al.append((x[1], quant, x[2], x[3]))
                elif x[0] == "rel": fr.append((x[1], quant, x[2]))
                elif x[0] == "relelem": els.append((x[1], quant, x[3]))
                elif x[0] == "loop": walk(x[3], quant + [(x[2], x[1])])
                elif x[0] == "part": walk(x[1], quant)
        walk(ctx.events, [])
        def reach(x):
            if isinstance(x, ListV):
                if x.aid is not None: mine[x.aid[0]] = x
                for s in x.segs:
                    for y in s: reach(y)
            elif isinstance(x, Obj):
                for y in x.f.values(): reach(y)
            elif isinstance(x, (Tup,)):
                for y in x.els: reach(y)
            elif isinstance(x, Variant):
                for y in x.args: reach(y)
            elif isinstance(x, Opq) and x.tag == "ownedv": mine[x.a[0][0]] = x
            elif isinstance(x, tuple):
                for y in x: reach(y)
        reach(v)
        live = lambda q: not any(ctx.bounds(n)[1] <= 0 or ctx.decide(c_eq(n)) is True for s, n in q)
        bad = lambda m: ctx.note("C14", where, m)
        gone = {f[0][0] for f in fr if live(f[1]) and f[0] is not None}
        handed = {t[0] for t in getattr(self, "handed", ())}
        for tok, q, what, size in al:
            if not live(q) or (size is not None and ctx.decide(c_eq(size)) is True): continue
            if tok[0] in mine and tok[0] in gone: bad("what the reader hands out is released before: %s" % what)
            elif tok[0] not in mine and tok[0] not in gone and not (q and tok[0] in handed): bad("memory acquired while reading is neither handed out nor released: %s" % what)
        for lid, q, w in els:
            if lid is not None and lid[0] in mine and live(q): bad("elements of what the reader hands out are released before, in %s" % (w,))
    # ---- the task
    def check_ownership(self, rep):
        self.todo = []; self.seen = set(); self.mem = self.mem_fails = True
        names = {id(f): n for n, f in self.funcs.items()}
        for f in list(self.funcs.values()) + [f for f in self.methods.values()]:
            if self.fallible(f) and not any(te.k == "name" and te.id == "type" for nm, te in f.params): self.seen.add((id(f), ())); self.todo.append((f, ()))
        n = 0; fails = 0
        while self.todo:
            fn, key = self.todo.pop(0); n += 1
            name = (fn.cls + "." if getattr(fn, "cls", None) else "") + fn.name + ("(%s)" % ", ".join(self.ty_text(t) for t in key) if key else "")
            where = "zig ownership in %s" % name
            def run(ctx):
                self.start(ctx); self.lists = []; self.handed = []; self.root = fn; ts = list(key); args = []
                s = Scope(ctx, self.gscope)
                for nm, te in fn.params:
                    if te.k == "name" and te.id == "type": args.append(TypeV(ts.pop(0)))
                    elif te.k == "mem" and te.f == "Allocator": args.append(Opq("allocator"))
                    elif te.k == "name" and te.id == "usize": args.append(Num(P0, "usize"))
                    elif te.k == "slicetype": args.append(BufPtr(Buf("in", LEN), 0, Lin.of(LEN)))
                    elif te.k == "name" and te.id in INTS: args.append(Num(sym(("arg", nm), *int_range(te.id)), te.id))
                    elif te.k == "name" and te.id == "bool": args.append(Bool(c_in(sym(("arg", nm), 0, 1), IntSet([(1, 1)]))))
                    else: raise AnalysisError("zig: parameter %s of %s" % (nm, name))
                ctx.assume(c_ge(Lin.of(LEN) - P0))
                r = self.guard(lambda: self.out_list(self.invoke(fn, args)))
                if r[0] == "err" and not str(r[1]).startswith("panic"): self.settle(where); return ("failed",)
                if r[0] == "ok": self.kept(where, r[1])
                return r[:1]
            try: paths = explore(run)
            finally: self.lists = None
            for c in paths:
                self.ctx = c; rep.absorb(c); o = c.outcome
                if o[0] == "failed": fails += 1
                if o[0] == "end" and o[1] not in ("infeasible", "covered", "negcount", "index", "noted", "backedge", "panic"): rep.broken.append("%s: path ended by %s" % (where, o[1]))
        rep.count("functions", n); rep.count("failing-exits", fails)
        if not fails: rep.broken.append("zig ownership: no failing exit was reached")
    def ty_text(self, t): return t[1] if t[0] == "name" else "[]" + self.ty_text(t[1]) if t[0] == "slice" else repr(t[:2])
