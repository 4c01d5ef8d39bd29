"""What every language model provides, and the analysis tasks run on it."""
from .core import *
from .interp import *
from .interp import total
from .schema import NUM, RANGE
from .expect import *

P0 = sym(("P0",), 0, 1 << 60)
LEN = sym(("L",), 0, 1 << 60)
W0 = sym(("W0",), 0, 1 << 60)
class AbsMsg(V):
    """a message of unknown declared type at a place of a message list; which = symbol 1..n (declaration position)"""
    def __init__(self, path, schema, known=None):
        self.path = path; self.n = len(schema.messages)
        self.which = sym(("mtype", path), 1, max(self.n, 1)); self.known = known
    def size(self): return Lin.of(sym(("msize", self.path), 0))
    def __repr__(self): return "AbsMsg%r" % (self.path,)

class ModelBase(Interp):
    checked_output = False     # writers report an output that does not fit
    enum_by_value = False      # undeclared enum values are replaced instead of rejected
    def __init__(self, decls, schema):
        Interp.__init__(self, decls, schema)
        self.layout = Layout(schema)
        self.enum_obl = {}
    # ---- accessors used by the comparison
    def as_num(self, v):
        if isinstance(v, (Num, EnumV)): return v.lin
        if isinstance(v, Bool): return self.b2i(v)
        return None
    def as_cond(self, v):
        if isinstance(v, Bool): return v.c
        if isinstance(v, Num): return c_not(c_eq(v.lin))
        return None
    def as_text(self, v):
        if isinstance(v, Str) and v.kind == "rd": return v.off, v.ln
        if isinstance(v, Str) and v.kind == "lit" and v.val == "": return Lin(0), Lin(0)
        return None
    def as_list(self, v): return v.segs if isinstance(v, ListV) else None
    def as_fields(self, v, t):
        if isinstance(v, Obj): return {norm(k): x for k, x in v.f.items() if isinstance(k, str)}
        return None
    def enum_value_ok(self, tree, l): return False
    def match_bulk(self, tree, s, path):
        t = tree[3]; sy = t[2] if t[0] in ("num", "enum") else None
        if sy is None: return Mismatch("value", path, "elements are raw bytes")
        if not isinstance(sy.key, tuple) or sy.key[0] != "rd": return Mismatch("value", path, "elements")
        want = canon_off(sy)
        ixl = Lin.of(tree[2])
        v = self.bulk_elem(s, ixl)
        return match(self, t, v, path + ("[]",))
    # ---- inputs of writers
    def in_value(self, kind, path):
        S = self.schema
        if kind[0] == "num":
            s = self.layout.in_num(path, kind[1])
            if kind[1] == "bool": return self.native_bool(s)
            return Num(Lin.of(s), self.native(kind[1]))
        if kind[0] == "enum": return self.in_enum_value(kind[1], self.layout.in_enum(path, kind[1]))
        if kind[0] == "str": self.layout.in_ulen(path); return Str("in", path)
        if kind[0] == "list":
            N = Lin.of(self.layout.in_len(path))
            l = ListV(self.ctx, (("in", path, N, lambda rel, k=kind[1], p=path: self.in_elem(k, p, rel)),)); l.ty = kind
            return l
        o = self.new_obj(kind[1])
        for n, k in S.members(kind[1]):
            f = self.field_name(kind[1], n)
            o.f[f] = self.in_field(kind[1], f, self.in_value(k, path + (n,)))
        return o
    def in_field(self, T, f, v): return v
    def in_elem(self, k, p, rel):
        key = ("inel", p, rel.key)
        c = self.ctx.flags.setdefault("inels", {})
        if key not in c or c[key].__class__ is int: c[key] = self.in_value(k, p + (("#", rel.key),))
        return c[key]
    def native_bool(self, s): return Bool(c_in(s, IntSet([(1, 1)])))
    def native(self, ty): return {"byte": "u8", "bool": "u8", "int16": "i16", "uint16": "u16", "int32": "i32", "uint32": "u32", "int64": "i64", "uint64": "u64", "float": "f32", "double": "f64"}[ty]
    def in_enum_value(self, e, s): return Num(Lin.of(s), self.native(self.schema.storage(e)))
    # ---- emitted bytes
    def emit(self, off, width, kind, lin):
        self.ctx.events.append(("w", Lin.of(off), width, kind, Lin.of(lin)))
    def emit_text(self, off, s):
        """UTF-8 bytes of a string value"""
        if s.kind == "lit":
            for i, b in enumerate(s.val.encode()): self.emit(Lin.of(off) + i, 1, "i", Lin(b))
        elif s.kind == "in": self.ctx.events.append(("utf8", Lin.of(off), s.val, self.str_ulen(s)))
        else: self.ctx.events.append(("utf8", Lin.of(off), s.key(), self.str_ulen(s)))
    # ---- iteration obligations (C11)
    def iteration_end(self, n, N, ix):
        for s, vals in self.enum_obl.get(ix, ()):
            self.ctx.count("enum-check")
            if not self.ctx.domain(s).subset(IntSet.of(vals)):
                bad = self.ctx.domain(s).minus(IntSet.of(vals))
                self.note("C11", "a list element read at %s is kept although it may be %s, which is not declared" % (s, trim(bad)))
    def set_enum_obl(self, tree):
        self.enum_obl = {}; top = []
        def walk(t, ix):
            if t[0] == "enum":
                vals = [v for _, v in self.schema.enums[t[1]]]
                (top if ix is None else self.enum_obl.setdefault(ix, [])).append((t[2], vals))
            elif t[0] == "list": walk(t[3], t[2])
            elif t[0] == "struct":
                for n, k, x in t[2]: walk(x, ix)
        walk(tree, None)
        return top
def trim(st):
    r = repr(st); return r if len(r) < 60 else r[:60] + "..}"
def canon_off(s): return s.key[1]

class Finding2:
    __slots__ = ("cat", "lang", "construct", "msg", "path")
    def __init__(self, cat, lang, construct, msg, path=()): self.cat = cat; self.lang = lang; self.construct = construct; self.msg = msg; self.path = path
    def __repr__(self): return "%s|%s|%s|%s" % (self.cat, self.lang, self.construct, self.msg)
class Report:
    def __init__(self, lang, schema): self.lang = lang; self.schema = schema; self.f = []; self.stats = {}; self.broken = []
    def add(self, cat, construct, msg, path=()):
        x = Finding2(cat, self.lang, construct, msg, path)
        if not any(y.cat == x.cat and y.construct == x.construct and y.msg == x.msg for y in self.f): self.f.append(x)
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def absorb(self, ctx):
        for p, c, m in ctx.notes: self.add(p, c, m)
        for k, v in ctx.obs.items(): self.count(k, v)

def justified(m, ctx, ends, enums, lens, buflen):
    """may this failing path be taken on input that is not a complete valid value?"""
    for e in ends:
        if ctx.entails_ge(e - buflen - 1): return "truncated"
    for s, vals in enums:
        if ctx.domain(s).inter(IntSet.of(vals)).empty(): return "enum"
    for p in lens:
        if ctx.domain(p).hi() < 0: return "negative"
    if ctx.flags.get("allocfail"): return "alloc"
    if ctx.flags.get("badtext"): return "text"
    if ctx.flags.get("toolarge"): return "larger than any native collection"
    # sums of facts: some prefix so large that its elements cannot fit
    return None

class simplifier:
    """replaces every quantity that the path fixed to one value by that value, also inside the positions of later reads; None when there is none"""
    def __new__(cls, c):
        z = [(s, d.lo()) for s, d in c.dom.items() if not d.empty() and d.lo() == d.hi() and isinstance(d.lo(), int)]
        if not z: return None
        self = object.__new__(cls); self.z = sorted(z, key=lambda p: p[0].seq); self.memo = {}
        fixed = {s for s, _ in z}
        for s, d in list(c.dom.items()):
            if s not in fixed and s.deps & fixed:
                t = self.s(s)
                if t is not None and t is not s: c.restrict(t, c.domain(t).inter(d))
        for l in list(c.facts):
            if l.syms() & fixed: c.assume(c_ge(self(l)))
        return self
    def __init__(self, c): pass
    def __call__(self, l):
        l = Lin.of(l)
        for s, v in self.z: l = subst_lin(l, s, Lin(v), self.memo.setdefault(s, {}))
        return l
    def s(self, s):
        """the symbol s becomes, None when it is a number now"""
        o = self(Lin.of(s)).one()
        return o[0] if o and o[1:] == (1, 0) else None
    def value(self, v, ctx):
        for s, k in self.z: v = subst(v, s, Lin(k), ctx)
        return v
    def tree(self, t):
        if t[0] in ("num", "enum"): return (t[0], t[1], self.s(t[2]) or t[2])
        if t[0] == "str": return ("str", self(t[1]), self(t[2]))
        if t[0] == "list": return ("list", self(t[1]), self.s(t[2]) or t[2], self.tree(t[3]))
        return (t[0], t[1], [(n, k, self.tree(x)) for n, k, x in t[2]])
def check_reader(m, rep, T, explore_=explore):
    """generated reader of message T against the documented layout"""
    S = m.schema; L = m.layout
    tree, end, ends, enums, lens = L.decode(("struct", T), P0)
    top = m.set_enum_obl(tree)
    where = "%s reader of %s" % (m.lang, T)
    def run(ctx):
        m.start(ctx)
        ctx.assume(c_ge(Lin.of(LEN) - P0))
        return m.run_reader(ctx, T)
    paths = explore_(run)
    ok = err = 0
    for c in paths:
        m.ctx = c
        rep.absorb(c)
        o = c.outcome
        if o[0] == "end":
            if o[1] in ("infeasible", "covered", "negcount", "index", "noted"): continue
            if o[1] == "backedge": continue
            rep.broken.append("%s: path ended by %s" % (where, o[1])); continue
        if o[0] == "err":
            err += 1
            if o[1] != "clean" and o[1] is not None and o[1].startswith("panic"): rep.add("C09", where, "ends in %s" % o[1]); continue
            if justified(m, c, ends, enums, lens, LEN) is None:
                f = simplifier(c)
                if f is not None and justified(m, c, [f(x) for x in ends], [(f.s(s), vs) for s, vs in enums if f.s(s) is not None], [f.s(p) for p in lens if f.s(p) is not None], LEN) is not None: continue
                rep.add("reject", where, "reports an error (%s) on input that may be complete and valid" % (o[2] if len(o) > 2 else "",))
            continue
        ok += 1
        v, e = o[1], o[2]
        mm = match(m, tree, v, (T,)); xend = end; xtop = top; xlens = lens
        if mm is not None or e is not None and not same(c, e, end) or not c.entails_ge(Lin.of(LEN) - end):
            f = simplifier(c)
            if f is not None:
                # quantities this path fixed to one value: the same comparison with the value put in
                v = f.value(v, c); e = None if e is None else f(e); xend = f(end)
                mm = match(m, f.tree(tree), v, (T,))
                xtop = [(f.s(s) or s, vs) for s, vs in top]; xlens = [f.s(p) for p in lens if f.s(p) is not None]
        if mm is not None and mm.cat == "enumvalid": rep.add("C11", where, repr(mm), mm.path)
        elif mm is not None: rep.add("read", where, repr(mm), mm.path); rep.f[-1].path = (mm.cat,) + tuple(mm.path)
        elif e is not None and not same(c, e, xend): rep.add("read", where, "stops reading at %r, the value ends at %r" % (e, xend), ("end",))
        if not c.entails_ge(Lin.of(LEN) - xend) and not any(c.domain(p).hi() < 0 for p in xlens): rep.add("C09", where, "accepts input that may end before the value does")
        for s, vals in (() if m.enum_by_value else xtop):
            c.count("enum-check")
            if not c.domain(s).subset(IntSet.of(vals)):
                rep.add("C11", where, "the %s value at %s is kept although it may be %s, which is not declared" % (T, s, trim(c.domain(s).minus(IntSet.of(vals)))))
    rep.count("reader paths", len(paths)); rep.count("readers")
    if not ok and not any(f.construct == where for f in rep.f): rep.broken.append("%s: no accepting path was reached" % where)

def check_writer(m, rep, T, tagged):
    S = m.schema; L = m.layout
    where = "%s writer of %s" % (m.lang, T)
    exp = []; off = Lin.of(W0)
    if tagged: exp.append(("w", off, 1, "i", Lin(S.tag(T)), ("tag",), "tag")); off = off + 1
    ev, end = L.encode(("struct", T), (T,), off); exp += ev
    def run(ctx):
        m.start(ctx)
        return m.run_writer(ctx, T, tagged)
    paths = explore(run); ok = 0
    for c in paths:
        m.ctx = c; rep.absorb(c); o = c.outcome
        if o[0] == "end":
            if o[1] in ("infeasible", "covered", "index", "noted", "negcount"): continue
            rep.broken.append("%s: path ended by %s" % (where, o[1])); continue
        if o[0] == "err":
            if not m.writer_error_ok(c, exp, end): rep.add("write-err", where, "reports an error although the space may suffice")
            continue
        ok += 1
        mm = match_events(m, exp, c.events)
        if mm is not None:
            rep.add("tag" if mm.path == ("tag",) else "write", where + (" (tagged)" if tagged else ""), repr(mm)); rep.f[-1].path = (mm.cat,) + tuple(mm.path)
        elif m.checked_output and not c.entails_ge(Lin.of(LEN) - end): rep.add("C10", where, "reports success although the value may not fit the buffer")
        elif o[1] is not None and not same(c, o[1], end): rep.add("write", where, "moves the position to %r instead of %r" % (o[1], end))
        if ok == 1: rep.wend = getattr(rep, "wend", {}); rep.wend[(T, tagged)] = sum_events(m, c.events)
    rep.count("writer paths", len(paths)); rep.count("writers")
    if not ok and not any(f.construct.startswith(where) for f in rep.f): rep.broken.append("%s: no completing path was reached" % where)
def sum_events(m, evs):
    """bytes emitted by an event list"""
    n = Lin(0)
    for e in flatten(evs):
        if e[0] == "w": n = n + e[2]
        elif e[0] == "utf8": n = n + e[3]
        elif e[0] == "loop": n = n + total(sum_events(m, e[3]), e[1])
        elif e[0] == "msg": n = n + e[4] + (1 if e[3] is True else 0)
    return n
def event_ends(evs):
    out = []
    for e in evs:
        if e[0] == "w": out.append(e[1] + e[2])
        elif e[0] == "utf8": out.append(e[1] + e[3])
        elif e[0] == "msg": out.append(e[1] + 1)
        elif e[0] == "loop": out += event_ends(e[3])
    return out
def check_size(m, rep, T):
    S = m.schema; where = "%s size of %s" % (m.lang, T)
    want = getattr(rep, "wend", {}).get((T, False))
    if want is None: want = m.layout.size(("struct", T), (T,)); src = "documented layout"
    else: src = "writer"
    def run(ctx):
        m.start(ctx)
        return m.run_size(ctx, T)
    paths = explore(run); ok = 0
    for c in paths:
        m.ctx = c; rep.absorb(c); o = c.outcome
        if o[0] == "end":
            if o[1] in ("infeasible", "covered", "index", "noted", "negcount"): continue
            rep.broken.append("%s: path ended by %s" % (where, o[1])); continue
        if o[0] == "err": rep.add("size", where, "fails (%s)" % (o[1],)); continue
        ok += 1
        if not same(c, o[1], want): rep.add("size", where, "the reported size exceeds the bytes the %s emits by %r" % (src, o[1] - want))
    rep.count("size functions")
    if not ok and not any(f.construct == where for f in rep.f): rep.broken.append("%s: no completing path" % where)

# ---------------------------------------------------------------- streams and envelopes
class MsgV(V):
    """message of type T decoded at input offset off by its own reader (summary)"""
    def __init__(self, T, off): self.T = T; self.off = Lin.of(off)
    def __repr__(self): return "Msg<%s@%r>" % (self.T, self.off)
def consumed(T, off): return Lin.of(sym(("mcons", T, Lin.of(off).key), 0, 1 << 60))
MAX = sym(("max",), -(1 << 31), (1 << 31) - 1)

class StreamMixin:
    """hooks for analysing stream loops with per-message summaries"""
    stream = None         # dict when a stream task is running
    def read_summary(self, T, off):
        """-> (ok, end): the message's reader either delivers the message or fails"""
        ctx = self.ctx
        ctx.count("dispatches")
        if ctx.choose(2) == 0:
            end = Lin.of(off) + consumed(T, off)
            ctx.assume(c_ge(Lin.of(LEN) - end))
            return True, end
        ctx.flags["msgerr"] = (T, Lin.of(off))
        return False, None
    def is_stream_loop(self, mods):
        return self.stream is not None and any(d is not None and isinstance(d, Lin) and any(isinstance(s.key, tuple) and s.key[0] == "mcons" for s in d.t) for a, b, c, d in mods)
    def recognise(self, cond, mods):
        if self.is_stream_loop(mods): return None
        return Interp.recognise(self, cond, mods)
    def loop_top(self, n, ix, mods, before, top, key):
        ctx = self.ctx
        dropped = ctx.shared.setdefault("dropped", set())
        for sq, k, cl, data in mods:
            old = before[(sq, k)]; now = top[(sq, k)]
            if cl != "sum" and not (cl == "opaque" and isinstance(old, Num) and isinstance(now, Num) and old.ty in INTS): continue
            for nm, f in (("mono", lambda x: x - old.lin), ("len", lambda x: Lin.of(LEN) - x)):
                if (key, sq, repr(k), nm) in dropped: continue
                if ctx.entails_ge(f(old.lin)): ctx.assume(c_ge(f(now.lin)))
                else: dropped.add((key, sq, repr(k), nm))
        if self.stream is not None and self.is_stream_loop(mods):
            cur = [top[(sq, k)].lin for sq, k, cl, d in mods if cl == "sum" and any(s.key[0] == "mcons" for s in d.t)]
            first = [before[(sq, k)].lin for sq, k, cl, d in mods if cl == "sum" and any(s.key[0] == "mcons" for s in d.t)]
            ctx.flags["top"] = (self.stream_pos(cur, top, mods), ix); ctx.flags["base"] = self.stream_pos(first, before, mods)
            ctx.flags["hist"] = [top[(sq, k)] for sq, k, cl, d in mods if cl == "append"]
    def stays_inside(self, now): return isinstance(now, Num) and (P0 in now.lin.t or W0 in now.lin.t) and self.ctx.entails_ge(Lin.of(LEN) - now.lin)
    def still_inside(self, old, v):
        """a position inside the input before the loop and after its last iteration is inside after the loop"""
        if isinstance(old, Num) and self.ctx.entails_ge(Lin.of(LEN) - old.lin): self.ctx.assume(c_ge(Lin.of(LEN) - v.lin))
    def stream_pos(self, cands, state, mods): return cands[0]
    def back_edge(self, n, ix, mods, before, top, after, key, ev):
        ctx = self.ctx; dropped = ctx.shared["dropped"]; again = False
        for sq, k, cl, data in mods:
            old = before[(sq, k)]; now = after[(sq, k)]
            if cl != "sum" and not (cl == "opaque" and isinstance(old, Num) and isinstance(top[(sq, k)], Num) and old.ty in INTS): continue
            for nm, f in (("mono", lambda x: x - old.lin), ("len", lambda x: Lin.of(LEN) - x)):
                kk = (key, sq, repr(k), nm)
                if kk in dropped: continue
                if not isinstance(now, Num) or not ctx.entails_ge(f(now.lin)): dropped.add(kk); again = True
        if again: raise Restart()
        if self.stream is not None and self.is_stream_loop(mods): self.stream_iteration(n, ix, mods, before, top, after)
    def stream_iteration(self, n, ix, mods, before, top, after):
        ctx = self.ctx; st = self.stream; S = self.schema; where = st["where"]
        ctx.count("stream-iterations")
        P, _ = ctx.flags["top"]; base = ctx.flags["base"]
        tag = rd_sym(P, 1, "u")
        def bad(msg, cat="stream"): ctx.note(cat, where, msg)
        if "msgerr" in ctx.flags: bad("continues after the reader of %s failed" % ctx.flags["msgerr"][0]); ctx.note("C09", where, "continues after the reader of %s failed" % ctx.flags["msgerr"][0]); return
        news = []
        for sq, k, cl, data in mods:
            if cl == "append":
                t = top[(sq, k)]; a = after[(sq, k)]
                news.append([s[1] for s in a[len(t):]])
            elif cl == "opaque" and isinstance(after[(sq, k)], tuple): bad("does not append exactly one message per iteration")
        news = [x for x in news if x]
        dom = ctx.domain(tag)
        if len(news) != 1 or len(news[0]) != 1:
            bad("an iteration with tag in %s appends %s" % (trim(dom), news)); return
        v = self.message_of(news[0][0])
        if not isinstance(v, MsgV): bad("appends %r instead of a decoded message" % (v,)); return
        if dom.lo() != dom.hi():
            bad("tag %s is decoded as %s" % (trim(dom), v.T)); ctx.note("tag", where, "the tags %s all lead to %s (tag %d)" % (trim(dom), v.T, S.tag(v.T))); return
        t = S.tag(v.T)
        if dom.lo() != t:
            bad("tag %d is decoded as %s whose tag is %d" % (dom.lo(), v.T, t)); ctx.note("tag", where, "tag %d is dispatched to %s (tag %d)" % (dom.lo(), v.T, t)); return
        ctx.shared.setdefault("seen-tags", set()).add(v.T)
        if not same(ctx, v.off, P + 1): bad("%s is decoded at %r instead of right after its tag" % (v.T, v.off)); return
        after_cur = [after[(sq, k)].lin for sq, k, cl, d in mods if cl == "sum" and any(s.key[0] == "mcons" for s in d.t) and isinstance(after[(sq, k)], Num)]
        if not after_cur or not same(ctx, self.stream_pos(after_cur, after, mods), P + 1 + consumed(v.T, P + 1)): bad("does not continue right after %s" % v.T)
        mx = st["max"]
        if mx is not None:
            cnt = Lin.of(ix)
            if not (ctx.entails_ge(mx.scale(-1) - 1) or ctx.entails_ge(mx - cnt - 1) or (st.get("unpack") and ctx.entails_ge(mx - (1 << 31)))): bad("decodes another message although the maximum may be reached")
        if not same(ctx, base, st["start"]): bad("starts reading at %r instead of %r" % (base, st["start"]))
    def message_of(self, v): return v
    def hist_only(self, v):
        """number of messages in a returned list when it is exactly what the stream loop gathered, else None"""
        segs = self.as_list(v)
        if segs is None: return None
        n = Lin(0)
        for s in segs:
            if s[0] == "hist": n = n + s[1]
            elif s[0] == "loop" and self.ctx.bounds(s[1])[1] <= 0: pass
            elif s[0] == "one": return None
            else: return None
        return n
def check_stream(m, rep):
    S = m.schema; where = "%s stream reader" % m.lang
    m.stream = dict(where=where, max=Lin.of(MAX), start=Lin.of(P0))
    seen = set()
    def run(ctx):
        m.start(ctx); ctx.assume(c_ge(Lin.of(LEN) - P0)); ctx.shared.setdefault("seen-tags", set())
        return m.run_process(ctx, Lin.of(MAX))
    try: paths = explore(run, 40000)
    finally: m.stream = None
    ok = 0; back = 0
    for c in paths:
        m.ctx = c; rep.absorb(c); o = c.outcome
        if o[0] == "end":
            if o[1] == "backedge": back += 1
            elif o[1] not in ("infeasible", "covered", "noted", "index"): rep.broken.append("%s: path ended by %s" % (where, o[1]))
            continue
        top = c.flags.get("top")
        P = top[0] if top else Lin.of(P0); n = Lin.of(top[1]) if top else Lin(0)
        dom = c.domain(rd_sym(P, 1, "u"))
        if o[0] == "ok":
            ok += 1
            if "msgerr" in c.flags:
                rep.add("stream", where, "returns normally although the reader of %s failed" % c.flags["msgerr"][0]); rep.add("C09", where, "returns normally although the reader of %s failed" % c.flags["msgerr"][0]); continue
            got = m.hist_only(o[1])
            if got is None or not same(c, got, n): rep.add("stream", where, "does not return exactly the messages read so far"); continue
            if c.entails_ge(P - LEN): continue
            if c.entails_ge(n - MAX) and c.entails_ge(Lin.of(MAX)): continue
            if dom == IntSet([(0, 0)]): continue
            rep.add("stream", where, "stops with tag in %s before the data, the maximum or a zero tag ends it" % trim(dom))
        else:
            if o[1] and str(o[1]).startswith("panic"): rep.add("C09", where, "ends in %s" % o[1]); continue
            if "msgerr" in c.flags or c.flags.get("allocfail"): continue
            if dom.inter(IntSet([(0, len(S.messages))])).empty() and c.entails_ge(Lin.of(LEN) - P - 1): continue
            if c.entails_ge(P - LEN): rep.add("stream", where, "reports an error when the data is exhausted"); continue
            rep.add("stream", where, "reports an error with tag in %s" % trim(dom))
    for c in paths:
        seen |= c.shared.get("seen-tags", set())
    for T in S.messages:
        if T not in seen and not rep.broken: rep.add("stream", where, "message %s is never decoded" % T)
    rep.count("stream readers"); rep.count("stream paths", len(paths))
    if not ok: rep.broken.append(where + ": no normal exit")

def check_unpack(m, rep):
    S = m.schema; where = "%s unpacker" % m.lang
    cnt = Lin.of(rd_sym(Lin.of(P0) + 4, 4, "u"))
    hdr = [rd_sym(Lin.of(P0) + i, 1, "u") for i in range(4)]
    m.stream = dict(where=where, max=cnt, start=Lin.of(P0) + 8, unpack=True)     # counts beyond 2^31 are compared after decoding
    def run(ctx):
        m.start(ctx); ctx.assume(c_ge(Lin.of(LEN) - P0))
        return m.run_unpack(ctx)
    try: paths = explore(run, 40000)
    finally: m.stream = None
    ok = 0
    for c in paths:
        m.ctx = c
        # dispatch itself is the stream reader's matter
        for p, k, msg in c.notes:
            if p in ("tag",): continue
            rep.add("unpack" if p == "stream" else p, k, msg)
        for k, v in c.obs.items(): rep.count(k, v)
        o = c.outcome
        if o[0] == "end":
            if o[1] not in ("backedge", "infeasible", "covered", "noted", "index"): rep.broken.append("%s: path ended by %s" % (where, o[1]))
            continue
        top = c.flags.get("top"); n = Lin.of(top[1]) if top else Lin(0)
        doms = [c.domain(h) for h in hdr]; good = [IntSet([(b, b)]) for b in b"BSCI"]
        word = c.domain(rd_sym(Lin.of(P0), 4, "u"))
        hdr_ok = all(d.subset(g) for d, g in zip(doms, good)) or word == IntSet([(0x49435342, 0x49435342)])
        hdr_bad = any(d.inter(g).empty() for d, g in zip(doms, good)) or not word.inter(IntSet([(0x49435342, 0x49435342)])).iv or "hdrbad" in c.flags
        if o[0] == "ok":
            ok += 1
            if not hdr_ok: rep.add("unpack", where, "returns messages although the header was not verified"); continue
            if "msgerr" in c.flags: rep.add("unpack", where, "returns normally although reading a message failed"); continue
            got = m.hist_only(o[1])
            if got is None: rep.add("unpack", where, "returns something else than the messages decoded"); continue
            if not same(c, got, cnt): rep.add("unpack", where, "returns %r messages although the count is %r" % (got, cnt)); continue
            if not c.entails_ge(Lin.of(LEN) - P0 - 8): rep.add("unpack", where, "accepts a buffer that may end before the message count")
        else:
            if o[1] and str(o[1]).startswith("panic"): rep.add("unpack", where, "ends in %s" % o[1]); continue
            if hdr_bad or "msgerr" in c.flags: continue
            if c.entails_ge(Lin.of(P0) + 9 - LEN - 1): continue
            if top is not None:
                dom = c.domain(rd_sym(top[0], 1, "u"))
                if dom.inter(IntSet([(0, len(S.messages))])).empty(): continue
            if c.decide(c_eq(n - cnt)) is False:
                if top is None or c.entails_ge(top[0] - LEN) or c.entails_ge(n - cnt - 1) or c.entails_ge(cnt - (1 << 31)) or dom == IntSet([(0, 0)]): continue
                rep.add("unpack", where, "gives up after %s messages although the envelope announces %s and its data goes on" % (show_lin(n.key), show_lin(cnt.key))); continue
            if c.flags.get("allocfail") or c.flags.get("toolarge"): continue
            rep.add("unpack", where, "reports an error on an envelope that may be intact (%s)" % (o[2] if len(o) > 2 else ""))
    rep.count("unpackers"); rep.count("unpack paths", len(paths))
    if not ok and not any(f.construct == where for f in rep.f): rep.broken.append(where + ": no normal exit")
def msg_list(m, ctx):
    N = Lin.of(sym(("len", ("msgs",)), 0, (1 << 32) - 1))
    return N, lambda rel: AbsMsg(("msgs", ("#", rel.key)), m.schema)
def pack_events(m, off):
    N = Lin.of(sym(("len", ("msgs",)), 0, (1 << 32) - 1)); ix = sym(("ix", N.key), 0)
    ev = [("w", off + i, 1, "i", Lin(b), ("header",), "header") for i, b in enumerate(b"BSCI")]
    ev.append(("w", off + 4, 4, "i", N, ("count",), "prefix"))
    P = off + 8
    d0 = AbsMsg(("msgs", ("#", Lin(0).key)), m.schema).size() + 1
    a = AbsMsg(("msgs", ("#", Lin.of(ix).key)), m.schema)
    ev.append(("loop", N, ix, [("msg", P + sym(("pre", N.key, d0.key), 0), a.path, True, ("messages",))], ("messages",)))
    end = P + total(a.size() + 1, N)
    ev.append(("w", end, 1, "i", Lin(0), ("terminator",), "terminator"))
    return ev, end + 1, N, a
def check_pack(m, rep):
    where = "%s packer" % m.lang
    exp, end, N, a = pack_events(m, Lin.of(W0))
    def run(ctx):
        m.start(ctx); return m.run_pack(ctx)
    paths = explore(run); ok = 0
    for c in paths:
        m.ctx = c; rep.absorb(c); o = c.outcome
        if o[0] == "end":
            if o[1] in ("infeasible", "covered", "noted", "index"): continue
            rep.broken.append("%s: path ended by %s" % (where, o[1])); continue
        if o[0] == "err":
            if not m.writer_error_ok(c, exp, end): rep.add("pack", where, "reports an error although the space may suffice")
            continue
        ok += 1
        mm = match_events(m, exp, c.events)
        if mm is not None: rep.add("pack", where, repr(mm))
        elif m.checked_output and not c.entails_ge(Lin.of(LEN) - end): rep.add("C10", where, "reports success although the envelope may not fit the buffer")
        elif o[1] is not None and not same(c, o[1], end): rep.add("pack", where, "moves the position to %r instead of %r" % (o[1], end))
        if ok == 1: rep.packend = sum_events(m, c.events)
    rep.count("packers")
    if not ok and not any(f.construct == where for f in rep.f): rep.broken.append(where + ": no completing path")
def check_packed_size(m, rep):
    where = "%s packed size" % m.lang
    exp, end, N, a = pack_events(m, Lin.of(W0)); want = end - W0
    emitted = getattr(rep, "packend", None)
    def run(ctx):
        m.start(ctx); return m.run_packed_size(ctx)
    ok = 0
    for c in explore(run):
        m.ctx = c; rep.absorb(c); o = c.outcome
        if o[0] == "end":
            if o[1] in ("infeasible", "covered", "noted", "index"): continue
            rep.broken.append("%s: path ended by %s" % (where, o[1])); continue
        if o[0] == "err": rep.add("packsize", where, "fails"); continue
        ok += 1
        if not same(c, o[1], want): rep.add("packsize7", where, "is off by %r" % (o[1] - want))
        if emitted is not None and not same(c, o[1], emitted): rep.add("packsize", where, "differs from the bytes packing emits by %r" % (o[1] - emitted))
    rep.count("packed sizes")
    if not ok and not any(f.construct == where for f in rep.f): rep.broken.append(where + ": no completing path")
def check_tags(m, rep):
    S = m.schema; where = "%s message type constants" % m.lang
    consts = m.type_constants()
    for T in S.messages:
        got = consts.get(norm(T))
        if got is None: rep.add("tag", where, "no constant for %s" % T)
        elif got != S.tag(T): rep.add("tag", where, "constant of %s stands for tag %d, expected %d" % (T, got, S.tag(T)))
        w2 = "%s type of %s" % (m.lang, T)
        def run(ctx):
            m.start(ctx); return m.run_type(ctx, T)
        for c in explore(run):
            m.ctx = c; rep.absorb(c); o = c.outcome
            if o[0] == "skip": continue
            if o[0] == "end":
                if o[1] not in ("infeasible", "covered", "noted"): rep.broken.append("%s: path ended by %s" % (w2, o[1]))
                continue
            if o[0] != "ok" or not same(c, o[1], S.tag(T)): rep.add("tag", w2, "is %r, expected %d" % (o[1], S.tag(T)))
            rep.count("type queries")

    if hasattr(m, "type_map"):
        w2 = "%s message type table" % m.lang
        for c in explore(lambda ctx: (m.start(ctx), m.type_map(ctx))[1]):
            if not isinstance(c.outcome, list): continue
            seen = {}
            for k, v in c.outcome:
                if k.is_const() and isinstance(v, TypeV): seen[k.c] = v.ty[1]      # a later entry replaces an earlier one
            for T in S.messages:
                got = seen.pop(S.tag(T), None)
                if got is None: rep.add("tag", w2, "has no entry for tag %d (%s)" % (S.tag(T), T))
                elif norm(got) != norm(T): rep.add("tag", w2, "tag %d (%s) leads to %s" % (S.tag(T), T, got))
            for k in seen: rep.add("tag", w2, "has an entry for tag %d, which no message has" % k)
            rep.count("type table entries", len(c.outcome))

class Model(StreamMixin, ModelBase):
    summaries = None
    def invoke(self, fn, args, this=None, env=None, names=None, targs=None):
        if self.stream is not None and fn.k == "fn":
            T = self.reader_of(fn)
            if T is not None: return self.summary_call(T, fn, args, this)
        return ModelBase.invoke(self, fn, args, this, env, names, targs)
    def reader_of(self, fn): return None
    def name_ok(self, declared, got): return declared == got
    def enum_name_ok(self, e, declared, got): return declared == got
    def type_text(self, t): return repr(t)
    def count_type(self, T): return sum(1 for n in self.structs_all if norm(n) == norm(self.decl_name(T)))
    def decl_name(self, T): return T
    def default_ways(self, T): return ("new",)
    def writer_error_ok(self, c, exp, end):
        if not self.checked_output: return False
        return "writeerr" in c.flags or any(c.entails_ge(e - LEN - 1) for e in event_ends(exp) + [end])

# ---------------------------------------------------------------- declarations and defaults
def kind_text(k):
    if k[0] == "list": return "[%s]" % kind_text(k[1])
    return "string" if k[0] == "str" else k[1]
def check_decls(m, rep):
    """every struct, message and member once, with name and type; every enum value once"""
    S = m.schema
    for T in list(S.structs) + list(S.messages):
        where = "%s declaration of %s" % (m.lang, T)
        n = m.count_type(T)
        if n != 1: rep.add("decl", where, "declared %d times" % n); 
        if n == 0: continue
        got = m.fields(T)
        want = S.members(T)
        names = [g[0] for g in got]
        for nm, k in want:
            hits = [g for g in got if norm(g[0]) == norm(nm)]
            if len(hits) != 1: rep.add("decl", where, "member %s appears %d times" % (nm, len(hits))); continue
            g = hits[0]
            if not m.name_ok(nm, g[0]): rep.add("decl", where, "member %s is called %s" % (nm, g[0]))
            if not m.type_ok(g[1], k): rep.add("decl", where, "member %s (%s) has type %s" % (nm, kind_text(k), m.type_text(g[1])))
            rep.count("members")
        extra = [g[0] for g in got if not any(norm(g[0]) == norm(nm) for nm, k in want)]
        if extra: rep.add("decl", where, "undeclared members %s" % extra)
        elif [norm(x) for x in names] != [norm(nm) for nm, k in want] and len(names) == len(want): rep.add("decl", where, "members are in the order %s" % names)
    for e, vals in S.enums.items():
        where = "%s enum %s" % (m.lang, e)
        got, storage = m.enum_decl(e)
        if got is None: rep.add("enumdef", where, "not declared"); continue
        for nm, v in vals:
            hits = [g for g in got if m.enum_name_ok(e, nm, g[0])]
            if len(hits) != 1: rep.add("enumdef", where, "value %s appears %d times" % (nm, len(hits))); continue
            if hits[0][1] != v: rep.add("enumdef", where, "%s is %r, declared %d" % (nm, hits[0][1], v))
            rep.count("enumerators")
        if storage is not None and storage != m.native(S.storage(e)): rep.add("enumdef", where, "stored as %s, expected %s" % (storage, m.native(S.storage(e))))
def check_default(m, rep, T):
    S = m.schema; where = "%s default of %s" % (m.lang, T)
    def expect(k, v, path):
        """None or message"""
        if k[0] == "num":
            if k[1] == "bool":
                c = m.as_cond(v)
                return None if c is not None and m.ctx.decide(c) is False else "is %r, not false" % (v,)
            l = m.as_num(v)
            return None if l is not None and same(m.ctx, l, 0) else "is %r, not zero" % (v,)
        if k[0] == "enum":
            l = m.as_num(v); w = S.enums[k[1]][0][1]
            return None if l is not None and same(m.ctx, l, w) else "is %r, not the first value %s" % (v, S.enums[k[1]][0][0])
        if k[0] == "str":
            g = m.as_text(v)
            return None if g is not None and m.ctx.decide(c_eq(g[1])) is True else "is %r, not empty" % (v,)
        if k[0] == "list":
            segs = m.as_list(v)
            n = Lin(0)
            for s in segs or (): n = n + seg_len(s)
            return None if segs is not None and m.ctx.decide(c_eq(n)) is True else "is %r, not an empty list" % (v,)
        got = m.as_fields(v, k[1])
        if got is None: return "is %r, not a fresh %s" % (v, k[1])
        for n, kk in S.members(k[1]):
            x = got.get(norm(n), KeyError)
            if x is KeyError: return "has no member %s" % n
            r = expect(kk, x, path + (n,))
            if r: return "%s %s" % (n, r) if " " in r else r
        return None
    for how in m.default_ways(T):
        def run(ctx):
            m.start(ctx); return m.run_default(ctx, T, how)
        ok = 0
        for c in explore(run):
            m.ctx = c; rep.absorb(c); o = c.outcome
            if o[0] == "skip": ok += 1; continue
            if o[0] == "end":
                if o[1] in ("infeasible", "covered", "noted"): continue
                rep.broken.append("%s: path ended by %s" % (where, o[1])); continue
            if o[0] == "err":
                if not c.flags.get("allocfail"): rep.add("default", where, "creating it fails")
                continue
            ok += 1
            r = expect(("struct", T), o[1], ())
            if r: rep.add("default", where + " (%s)" % how, r)
            rep.count("fresh values")
        if not ok and not any(f.construct.startswith(where) for f in rep.f): rep.broken.append(where + ": no completing path")
