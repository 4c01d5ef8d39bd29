"""Ownership events: what was acquired, what was released, and the balance of both on a path."""
from .core import *
from .interp import *
from .interp import subst_lin
from .expect import same
from . import model
from .model import P0, LEN

class MemMixin:
    mem = False            # a memory task is running
    mem_fails = False      # ... in which allocations may fail
    def start_mem(self): pass
    def alloc_fails(self):
        if not self.mem or not self.mem_fails or self.in_defer: return False
        self.ctx.count("allocations")
        if self.ctx.choose(2) == 0: return False
        self.ctx.flags["allocfail"] = True; return True
    def acquire(self, what, size=None, may_fail=True):
        """token of a new resource, None when the allocation fails"""
        if not self.mem: return (0, ())
        if may_fail and what != "ArrayList" and self.alloc_fails(): return None
        tok = (self.ctx.new(), tuple(Lin.of(l[0]) for l in self.ctx.loops))
        self.ctx.events.append(("acq", tok, what, size)); return tok
    def release(self, tok, e):
        if self.mem: self.ctx.events.append(("rel", tok, self.where()))
    def msg_release(self, m, e):
        a = getattr(m, "aid", None)
        if self.mem: self.ctx.events.append(("rel", a if a is not None else ("msgs", (Lin(*[m.path[1][1][0], dict(m.path[1][1][1])]),)), self.where()))
        return Tup([])
    def elem_release(self, o, e):
        return Tup([])          # followed only where ownership of elements is (zigmem)
    def free_value(self, v, e):
        if not self.mem: return
        if isinstance(v, ListV) and getattr(v, "aid", None) is not None:
            self.release(v.aid, e); return
        n = v.length() if isinstance(v, ListV) else self.str_ulen(v) if isinstance(v, Str) else None
        if n is not None and self.ctx.decide(c_eq(n)) is True: return            # releasing nothing
        self.note("C14", "memory is released that was never allocated (%s)" % ("constant text" if isinstance(v, Str) else "not from the allocator"))
    def balance(self):
        """(leaked, released too often) after cancelling; lists of texts"""
        ctx = self.ctx; al = []; fr = []
        def walk(evs, quant, sub):
            for x in evs:
                if x[0] in ("acq", "rel"):
                    tok = (x[1][0], tuple(subst_many(l, sub) for l in x[1][1])) if x[1] is not None else (None, ())
                    if x[0] == "acq" and self.lang == "zig" and x[3] is not None and ctx.decide(c_eq(subst_many(x[3], sub))) is True: continue      # nothing to release
                    (al if x[0] == "acq" else fr).append((tok, quant, x[2]))
                elif x[0] == "loop": walk(x[3], quant + [(x[2], subst_many(x[1], sub))], sub)
                elif x[0] == "part": raise PathEnd("a loop is left before its end")
        walk(ctx.events, [], [])
        def shape(it):
            tok, q, w = it; out = []
            for l in tok[1]:
                o = l.one()
                b = next((n for s, n in q if o and o[1:] == (1, 0) and s is o[0]), None)
                out.append(("all", b) if b is not None else ("one", l))
            return out
        def forward(it):
            """a loop that counts down releases the same elements: its index is read the other way round"""
            tok, q, w = it
            for k, (s, n) in enumerate(q):
                if any(l.t.get(s) == -1 for l in tok[1]):
                    r = n - 1 - Lin.of(s); tok = (tok[0], tuple(subst_lin(l, s, r) for l in tok[1])); q = q[:k + 1] + [(s2, subst_lin(n2, s, r)) for s2, n2 in q[k + 1:]]
            return (tok, q, w)
        fr = [forward(f) for f in fr]; al = [forward(a) for a in al]
        def live(it): return not any(ctx.bounds(n)[1] <= 0 or ctx.decide(c_eq(n)) is True for s, n in it[1])
        fr = [f for f in fr if live(f)]; left = []
        self.often = lambda f: any(ctx.decide(c_eq(n - 1)) is not True and not any(s in l.t for l in f[0][1]) for s, n in f[1])
        for a in al:
            if not live(a): continue
            sa = shape(a); hit = None
            for f in fr:
                if f[0][0] != a[0][0] or len(f[0][1]) != len(sa) or self.often(f): continue
                if all(p[0] == q[0] and same(ctx, p[1], q[1]) for p, q in zip(sa, shape(f))): hit = f; break
            if hit is not None: fr.remove(hit)
            else: left.append(a)
        return left, fr
    # ---- tasks
    def check_cleanup(self, rep, T):
        """what reading acquired is what releasing releases, element by element; a fresh value can be released too"""
        for how in self.release_ways(T):
            where = "%s release of %s (%s)" % (self.lang, T, how)
            def run(ctx):
                self.mem = True
                try:
                    self.start(ctx); ctx.assume(c_ge(Lin.of(LEN) - P0))
                    if not self.run_release(ctx, T, how): return ("err",)
                    left, extra = self.balance()
                    for a in left: ctx.note("C14", where, "memory acquired while reading is never released: %s%s" % (a[2], " (for every element)" if a[1] else ""))
                    for f in extra: ctx.note("C14", where, "memory is released that reading did not acquire, or twice, in %s" % (f[2],))
                    return ("ok", len(left) + len(extra))
                finally: self.mem = False
            done = 0
            for c in explore(run):
                self.ctx = c; rep.absorb(c); o = c.outcome
                if o[0] == "end" and o[1] not in ("infeasible", "covered", "negcount", "index", "noted", "backedge"): rep.broken.append("%s: path ended by %s" % (where, o[1]))
                done += o[0] == "ok"
            if not done and not any(f.cat == "C14" for f in rep.f): rep.broken.append("%s: no path releases anything" % where)
            rep.count("release-paths", done)
    def check_alloc(self, rep, T):
        """the same interpretation with every allocation free to fail"""
        sub = model.Report(self.lang, self.schema); self.mem = self.mem_fails = True
        try:
            for f, a in ([(model.check_reader, (T,)), (model.check_default, (T,))] if T else [(model.check_stream, ()), (model.check_unpack, ())]): f(self, sub, *a)
        finally: self.mem = self.mem_fails = False
        for f in sub.f:
            if f.cat in ("C15", "C16"): rep.add(f.cat, f.construct, f.msg, f.path)
        rep.broken += sub.broken
        for k, v in sub.stats.items(): rep.count(k, v)
def subst_many(l, sub):
    for s, r in sub: l = subst_lin(l, s, r)
    return l
