"""Abstract domain: linear forms over symbolic quantities, interval-set facts, path exploration by replay, undo log, loop summaries."""
import traceback
import sys
sys.setrecursionlimit(20000)

class AnalysisError(Exception):
    """The analysis does not understand the construct: never a verdict."""
class PathEnd(Exception):
    """Path stops (reason, detail)."""
    def __init__(self, why, detail=None, node=None):
        self.why = why; self.detail = detail; self.node = node
class Budget(Exception): pass
class Restart(Exception): pass
class Cells(dict):
    """mutable state with identity"""
    __slots__ = ("seq", "owner")
    def __init__(self, ctx, d=(), owner=None):
        dict.__init__(self, d); self.seq = ctx.new(); self.owner = owner; ctx.cells[self.seq] = self
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o

INF = float("inf")

class Sym:
    __slots__ = ("key", "lo", "hi", "seq", "allowed", "deps", "text")
    table = {}; count = 0
    def __repr__(self):
        if self.text is None:
            t = show_key(self.key)
            self.text = t if len(t) <= 120 else t[:60] + "..#%d" % self.seq
        return self.text
def show_key(k):
    if isinstance(k, tuple):
        if k and k[0] == "rd" and len(k) == 4: return "rd[%s:%s%d]" % (show_lin(k[1]), k[3], k[2] * 8)
        if k and k[0] == "S": return "sum<%s>(%s)" % (show_lin(k[1]), show_key(k[2].key if isinstance(k[2], Sym) else k[2]))
        if len(k) == 2 and k[0] in ("in", "len", "ulen", "clen", "ulen2") and isinstance(k[1], tuple): return "%s(%s)" % (k[0], ".".join(show_key(x) for x in k[1]))
        if k and k[0] == "ix": return "i<%s>" % show_lin(k[1])
        if k and k[0] == "#": return "[%s]" % show_lin(k[1])
        if len(k) == 2 and isinstance(k[1], frozenset): return show_lin(k)
        return "(" + ",".join(show_key(x) for x in k) + ")"
    return str(k)
def show_lin(key):
    if not isinstance(key, tuple): return str(key)
    c, t = key
    out = []
    for s, a in sorted(t, key=lambda p: p[0].seq):
        out.append(("%s" if a == 1 else "%d*%%s" % a) % s)
    if c or not out: out.append(str(c))
    return "+".join(out)
def sym(key, lo=-INF, hi=INF, allowed=None):
    s = Sym.table.get(key)
    if s is None:
        s = Sym(); s.key = key; s.lo = lo; s.hi = hi; Sym.count += 1; s.seq = Sym.count; s.allowed = allowed; s.text = None
        Sym.table[key] = s
        s.deps = frozenset(_deps(key))
    return s
def _deps(key):
    """symbols a key is built from (through linear-form keys), including itself transitively"""
    out = set()
    def walk(k):
        if isinstance(k, Sym):
            out.add(k); out.update(k.deps)
        elif isinstance(k, (tuple, frozenset)):
            for x in k: walk(x)
        elif isinstance(k, Lin): walk(k.key)
    if isinstance(key, tuple):
        for x in key: walk(x)
    return out

PERMANENT = {}
def reset_syms():
    """forget every symbol but the fixed ones (bounds of a symbol depend on the schema analysed)"""
    if not PERMANENT: PERMANENT.update({k: s for k, s in Sym.table.items() if k[0] in ("P0", "L", "W0", "max", "byteOffset", "bufferLength", "anycap")})
    Sym.table.clear(); Sym.table.update(PERMANENT)
class Lin:
    __slots__ = ("c", "t", "_key")
    def __init__(self, c=0, t=None):
        self.c = c; self.t = {k: v for k, v in t.items() if v} if t else {}
        self._key = None
    @property
    def key(self):
        k = self._key
        if k is None: k = self._key = (self.c, frozenset(self.t.items()))
        return k
    @staticmethod
    def raw(c, t):
        l = Lin.__new__(Lin); l.c = c; l.t = t; l._key = None; return l
    @staticmethod
    def of(x):
        if isinstance(x, Lin): return x
        if isinstance(x, Sym): return Lin.raw(0, {x: 1})
        return Lin.raw(x, {})
    def plus(self, o, m):
        """self + m * o"""
        t = dict(self.t); get = t.get
        for k, v in o.t.items():
            w = get(k, 0) + m * v
            if w: t[k] = w
            else: del t[k]
        return Lin.raw(self.c + m * o.c, t)
    def __add__(self, o): return self.plus(Lin.of(o), 1)
    def __sub__(self, o): return self.plus(Lin.of(o), -1)
    def scale(self, a): return Lin.raw(self.c * a, {k: v * a for k, v in self.t.items()}) if a else Lin.raw(0, {})
    def is_const(self): return not self.t
    def one(self):
        """(sym, coef, const) when a single symbol"""
        if len(self.t) == 1:
            (s, a), = self.t.items(); return s, a, self.c
        return None
    def __eq__(self, o): return isinstance(o, Lin) and self.key == o.key
    def __hash__(self): return hash(self.key)
    def __repr__(self): return show_lin(self.key)
    def syms(self):
        out = set()
        for s in self.t: out.add(s); out |= s.deps
        return out

class IntSet:
    """finite union of closed integer intervals"""
    __slots__ = ("iv",)
    def __init__(self, iv): self.iv = tuple(iv)
    @staticmethod
    def of(vals):
        out = []
        for v in sorted(set(vals)):
            if out and out[-1][1] == v - 1: out[-1] = (out[-1][0], v)
            else: out.append((v, v))
        return IntSet(out)
    def inter(self, o):
        out = []; i = j = 0
        while i < len(self.iv) and j < len(o.iv):
            lo = max(self.iv[i][0], o.iv[j][0]); hi = min(self.iv[i][1], o.iv[j][1])
            if lo <= hi: out.append((lo, hi))
            if self.iv[i][1] < o.iv[j][1]: i += 1
            else: j += 1
        return IntSet(out)
    def compl(self):
        out = []; cur = -INF
        for lo, hi in self.iv:
            if cur <= lo - 1: out.append((cur, lo - 1))
            cur = hi + 1
        if cur <= INF: out.append((cur, INF))
        return IntSet(out)
    def minus(self, o): return self.inter(o.compl())
    def union(self, o):
        return self.compl().inter(o.compl()).compl()
    def empty(self): return not self.iv
    def __eq__(self, o): return self.iv == o.iv
    def __hash__(self): return hash(self.iv)
    def lo(self): return self.iv[0][0]
    def hi(self): return self.iv[-1][1]
    def subset(self, o): return self.minus(o).empty()
    def __repr__(self): return "{" + ",".join(str(a) if a == b else "%s..%s" % (a, b) for a, b in self.iv) + "}"
    def values(self, limit=70000):
        if self.empty(): return []
        if self.lo() == -INF or self.hi() == INF or sum(b - a + 1 for a, b in self.iv) > limit: return None
        return [v for a, b in self.iv for v in range(a, b + 1)]
FULL = IntSet([(-INF, INF)])

# ---- conditions
class Cond:
    __slots__ = ("k", "a", "b", "key")
    def __init__(self, k, a=None, b=None):
        self.k = k; self.a = a; self.b = b
        self.key = (k, a.key if isinstance(a, (Cond, Lin)) else a, b.key if isinstance(b, (Cond, Lin)) else b)
    def __repr__(self):
        if self.k in ("t", "f"): return {"t": "true", "f": "false"}[self.k]
        if self.k == "ge": return "(%r>=0)" % self.a
        if self.k == "in": return "(%r in %r)" % (self.a, self.b)
        return "(%s %r %r)" % (self.k, self.a, self.b)
T = Cond("t"); F = Cond("f")
def c_ge(l):
    l = Lin.of(l)
    if l.is_const(): return T if l.c >= 0 else F
    o = l.one()
    if o and (o[1] in (1, -1) or isinstance(o[1], int) and isinstance(o[2], int)):
        s, a, c = o
        return c_in(s, IntSet([(-(c // a), INF)]) if a > 0 else IntSet([(-INF, c // -a)]))
    return Cond("ge", l)
def c_in(s, st):
    base = IntSet([(s.lo, s.hi)]) if s.allowed is None else s.allowed
    st = st.inter(base)
    if st.empty(): return F
    if st == base: return T
    return Cond("in", s, st)
def c_eq(l):
    l = Lin.of(l)
    if l.is_const(): return T if l.c == 0 else F
    o = l.one()
    if o:
        s, a, c = o
        if c % a: return F
        return c_in(s, IntSet([(-c // a, -c // a)]))
    return Cond("eq", l)
def c_not(c):
    if c.k == "t": return F
    if c.k == "f": return T
    if c.k == "not": return c.a
    if c.k == "ge": return c_ge(c.a.scale(-1) - 1)
    if c.k == "in": return c_in(c.a, c.b.compl())
    if c.k == "and": return c_or(c_not(c.a), c_not(c.b))
    if c.k == "or": return c_and(c_not(c.a), c_not(c.b))
    return Cond("not", c)
def c_and(a, b):
    if a.k == "f" or b.k == "f": return F
    if a.k == "t": return b
    if b.k == "t": return a
    if a.k == "in" and b.k == "in" and a.a is b.a: return c_in(a.a, a.b.inter(b.b))
    return Cond("and", a, b)
def c_or(a, b):
    if a.k == "t" or b.k == "t": return T
    if a.k == "f": return b
    if b.k == "f": return a
    if a.k == "in" and b.k == "in" and a.a is b.a: return c_in(a.a, a.b.union(b.b))
    return Cond("or", a, b)

_seqcache = {}
class Ctx:
    """One abstract run: decisions, facts, mutable state with undo."""
    def __init__(self, vec=()):
        self.vec = list(vec); self.pos = 0; self.taken = []   # (option, count)
        self.dom = {}; self.facts = []; self.memo = {}; self.ver = 0; self.chain = {}; self.known = {}
        self.log = []; self.seq = 0
        self.events = []           # current event list
        self.loops = []            # active generic loops: (ixsym, N, pre syms)
        self.notes = []            # (property, construct, message) raised on this path
        self.flags = {}
        self.steps = 0
        self.probing = 0; self.ptags = []
        self.loopmods = {}
        self.callstack = []
        self.obs = {}              # counters of obligations
        self.cells = {}
    # --- undoable state
    def set(self, d, k, v):
        self.log.append((d, k, d.get(k, KeyError), len(self.events)))
        d[k] = v
    def delete(self, d, k):
        if k in d:
            self.log.append((d, k, d[k], 0)); del d[k]
    def mark(self):
        return (len(self.log), list(self.facts), list(self.events), self.events, dict(self.dom), dict(self.memo), self.seq, list(self.loops), len(self.notes),
                self.pos, list(self.taken), dict(self.flags), list(self.callstack), dict(self.obs), self.ver)
    def rollback(self, m):
        while len(self.log) > m[0]:
            d, k, old, _ = self.log.pop()
            if old is KeyError: d.pop(k, None)
            else: d[k] = old
        self.facts[:] = m[1]
        self.events = m[3]; self.events[:] = m[2]
        self.dom = dict(m[4]); self.memo = dict(m[5]); self.seq = m[6]; self.loops = list(m[7]); del self.notes[m[8]:]
        self.pos = m[9]; self.taken = list(m[10]); self.flags = dict(m[11]); self.callstack[:] = m[12]; self.obs = dict(m[13]); self.ver = m[14]
    def new(self):
        self.seq += 1; return self.seq
    def count(self, what, n=1):
        self.obs[what] = self.obs.get(what, 0) + n
    def note(self, prop, construct, msg):
        self.notes.append((prop, construct, msg))
    # --- decisions
    def choose(self, n, pref=0):
        if n == 1: return 0
        if self.pos < len(self.vec): o = self.vec[self.pos]
        else: o = 0
        self.pos += 1
        self.taken.append((o, n))
        return (o + pref) % n
    # --- facts
    def domain(self, s):
        d = self.dom.get(s)
        if d is None:
            d = s.allowed if s.allowed is not None else IntSet([(s.lo, s.hi)])
        return d
    def bounds(self, l):
        lo = hi = l.c
        dom = self.dom
        for s, a in l.t.items():
            d = dom.get(s)
            if d is None:
                if s.allowed is None: x, y = s.lo, s.hi
                else: x, y = s.allowed.iv[0][0], s.allowed.iv[-1][1]
            elif not d.iv: return (0, -1)
            else: x, y = d.iv[0][0], d.iv[-1][1]
            if a > 0: lo += a * x; hi += a * y
            else: lo += a * y; hi += a * x
        return lo, hi
    def entails_ge(self, l, depth=4):
        lo, hi = self.bounds(l)
        if lo >= 0: return True
        if depth == 0 or not self.facts or hi < 0: return False
        k = (self.ver, l.key, depth); r = self.known.get(k)
        if r is None: r = self.known[k] = self._elim(l, depth, set())
        return r
    def learned(self, k):
        """the assumptions in force have a number: equal numbers mean equal assumptions, on whichever path"""
        self.ver = self.chain.setdefault((self.ver, k), len(self.chain) + 1)
    def restrict(self, s, d):
        self.dom[s] = d; self.learned((s, d.iv))
    def _elim(self, l, depth, seen):
        """eliminate a badly bounded symbol with a fact"""
        if l.key in seen: return False
        seen.add(l.key)
        order = []
        for s, a in l.t.items():
            d = self.dom.get(s)
            if d is not None: x, y = d.iv[0][0], d.iv[-1][1]
            elif s.allowed is None: x, y = s.lo, s.hi
            else: x, y = s.allowed.iv[0][0], s.allowed.iv[-1][1]
            w = a * x if a > 0 else a * y
            if w < -(1 << 31): order.append((w, s.seq, s, a))
        if order:
            cand = list(l.t.items())
            for w, q, s, a in sorted(order):
                if any((f.t.get(s, 0) > 0) == (a > 0) and s in f.t for f in self.facts): cand = [(s, a)]; break
        else: cand = list(l.t.items())
        done = set()
        for s, a in cand:
            for f in reversed(self.facts):
                b = f.t.get(s)
                if b is None or (b > 0) != (a > 0): continue
                tk = f.key[1]
                if (s, tk) in done and f.key in done: continue
                done.add((s, tk)); done.add(f.key)
                if a % b == 0: r = l.plus(f, -(a // b))
                elif b % a == 0: r = l.scale(b // a).plus(f, -1)
                else: continue
                lo, hi = self.bounds(r)
                if lo >= 0: return True
                if depth > 1 and hi >= 0 and self._elim(r, depth - 1, seen): return True
        return False
    def decide(self, c):
        """True/False/None"""
        if c.k == "t": return True
        if c.k == "f": return False
        if c.k == "ge":
            if self.entails_ge(c.a): return True
            if self.entails_ge(c.a.scale(-1) - 1): return False
            return None
        if c.k == "in":
            d = self.domain(c.a)
            if d.subset(c.b): return True
            if d.inter(c.b).empty(): return False
            # bounds through facts when the set is a half line
            if self.facts and len(c.b.iv) == 1:
                lo, hi = c.b.iv[0]
                okl = lo <= d.lo() or self.entails_ge(Lin(-lo, {c.a: 1}), 2)
                okh = hi >= d.hi() or self.entails_ge(Lin(hi, {c.a: -1}), 2)
                if okl and okh: return True
                if lo > d.lo() and self.entails_ge(Lin(lo - 1, {c.a: -1}), 2): return False
                if hi < d.hi() and self.entails_ge(Lin(-hi - 1, {c.a: 1}), 2): return False
            return None
        if c.k == "eq":
            if self.entails_ge(c.a) and self.entails_ge(c.a.scale(-1)): return True
            if self.entails_ge(c.a - 1) or self.entails_ge(c.a.scale(-1) - 1): return False
            return None
        if c.k == "not":
            r = self.decide(c.a); return None if r is None else not r
        if c.k == "and":
            a, b = self.decide(c.a), self.decide(c.b)
            if a is False or b is False: return False
            return True if a and b else None
        if c.k == "or":
            a, b = self.decide(c.a), self.decide(c.b)
            if a or b: return True
            return False if a is False and b is False else None
        if c.k == "op":
            return self.memo.get(c.key)
        raise AnalysisError("condition " + c.k)
    def assume(self, c, val=True):
        if not val: c = c_not(c)
        if c.k == "t": return
        if c.k == "f": raise PathEnd("infeasible")
        if c.k == "ge":
            if self.facts and self.entails_ge(c.a.scale(-1) - 1, 2): raise PathEnd("infeasible")
            self.facts[:] = [f for f in self.facts if self.bounds(f - c.a)[0] < 0]
            self.facts.append(c.a); self.learned(c.a.key)
        elif c.k == "in":
            d = self.domain(c.a).inter(c.b)
            if d.empty(): raise PathEnd("infeasible")
            self.restrict(c.a, d)
        elif c.k == "eq": self.facts.append(c.a); self.facts.append(c.a.scale(-1)); self.learned(("eq", c.a.key))
        elif c.k == "and": self.assume(c.a); self.assume(c.b)
        elif c.k == "or":
            a = self.decide(c.a)
            if a is False: self.assume(c.b)
            elif self.decide(c.b) is False: self.assume(c.a)
            elif a is None:
                if self.choose(2) == 0: self.assume(c.a)
                else: self.assume(c_not(c.a)); self.assume(c.b)
        elif c.k == "not":
            if c.a.k == "eq":
                if self.choose(2) == 0: self.assume(c_ge(c.a.a - 1))
                else: self.assume(c_ge(c.a.a.scale(-1) - 1))
            elif c.a.k == "op": self.memo[c.a.key] = False
            else: raise AnalysisError("assume not " + c.a.k)
        elif c.k == "op": self.memo[c.key] = True
    def branch(self, c, pref=True):
        """concrete truth of a condition, exploring both when undecided"""
        if isinstance(c, bool): return c
        if c.k == "and": return self.branch(c.a, pref) and self.branch(c.b, pref)
        if c.k == "or": return self.branch(c.a, pref) or self.branch(c.b, pref)
        if c.k == "not": return not self.branch(c.a, not pref)
        r = self.decide(c)
        if r is not None: return r
        v = (self.choose(2) == 0) == pref
        self.assume(c, v)
        return v

MAXPATHS = 6000
def explore(run, limit=None):
    """run(ctx) for every decision vector; list of ctx objects with .outcome"""
    vec = []; n = 0; shared = {}; restarts = 0; out = []; chain = {}; known = {}; unmodelled = 0
    while True:
        n += 1
        if n > (limit or MAXPATHS): raise Budget("more than %d paths" % (limit or MAXPATHS))
        ctx = Ctx(vec); ctx.shared = shared; ctx.chain = chain; ctx.known = known
        try:
            ctx.outcome = run(ctx)
        except Restart:
            vec = []; restarts += 1; shared["restarts"] = restarts
            if restarts > 150: raise Budget("restarts")
            for k in [k for k in shared if isinstance(k, tuple) and k[0] in ("probe", "exit")]: del shared[k]      # found out under the assumption given up
            out.clear(); continue
        except PathEnd as e:
            ctx.outcome = ("end", e.why, e.detail, e.node)
        except Budget: raise
        except (AnalysisError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError, ZeroDivisionError) as e:
            # this path uses something the analysis has no model of; the other paths are still decided
            why = "%s" % e if isinstance(e, AnalysisError) else "%s %s @ %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip())
            ctx.outcome = ("end", "construct without a model: " + why, None, None); unmodelled += 1
            if unmodelled > 40: raise AnalysisError(why)
        out.append(ctx)
        t = ctx.taken
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return out
        vec = [o for o, _ in t[:-1]] + [t[-1][0] + 1]
