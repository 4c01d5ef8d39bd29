"""Abstract interpretation of the package's own Python: strings as sequences of literals and character classes, numbers as linear
forms over intervals, collections with summarised stretches of elements; undecided tests split the path."""
import ast, string as _string
from .core import AnalysisError, PathEnd, Lin, sym, Cond, c_ge, c_eq, INF, explore

class PyExc(Exception):
    def __init__(self, v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass
class Return(Exception):
    def __init__(self, v): self.v = v
class NonTerm(Exception): pass

LETTERS = frozenset(_string.ascii_letters); IDCH = frozenset(_string.ascii_letters + _string.digits + "_")
WS = frozenset(_string.whitespace)
# ---------------------------------------------------------------- values
class Chunk:
    """text nobody looked into: a run of characters of one class"""
    table = {}
    def __init__(self, key, chars, lo, hi, first=None, name=False):
        self.key = key; self.chars = chars; self.lo = lo; self.hi = hi; self.first = first or chars; self.name = name
    @staticmethod
    def get(key, chars, lo, hi, first=None, name=False):
        c = Chunk.table.get(key)
        if c is None: c = Chunk.table[key] = Chunk(key, chars, lo, hi, first, name)
        return c
    def __repr__(self): return "<%s>" % "/".join(map(str, self.key if isinstance(self.key, tuple) else (self.key,)))
class AStr:
    """concatenation of literals and chunks"""
    __slots__ = ("segs",)
    def __init__(self, segs): self.segs = segs
    def __repr__(self): return "".join(s if isinstance(s, str) else repr(s) for s in self.segs)
    def __eq__(self, o): return isinstance(o, AStr) and self.segs == o.segs
    def __hash__(self): return hash(self.segs)
def mkstr(segs):
    out = []
    for s in segs:
        if isinstance(s, AStr): parts = s.segs
        else: parts = (s,)
        for p in parts:
            if isinstance(p, str):
                if not p: continue
                if out and isinstance(out[-1], str): out[-1] += p; continue
            out.append(p)
    if not out: return ""
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    return AStr(tuple(out))
def segs_of(s): return (s,) if isinstance(s, str) and s else () if isinstance(s, str) else s.segs
def name_chunk(i): return mkstr([Chunk.get(("name", i), IDCH, 1, INF, LETTERS, True)])
def charset(key, chars): return mkstr([Chunk.get(("cs",) + key, frozenset(chars), 1, 1)])
def anytext(key): return mkstr([Chunk.get(("any",) + key, None, 0, INF)])
def oneof(key, opts): return mkstr([Chunk.get(("oneof", key, tuple(opts)), IDCH, 1, INF, LETTERS)])
def casevar(word, tag=()): return mkstr([charset((word, i) + tag, {c.lower(), c.upper()}) if c.lower() != c.upper() else c for i, c in enumerate(word)])
def is_str(v): return isinstance(v, (str, AStr))
class Seg:
    """k elements of one kind; v is any one of them"""
    __slots__ = ("v", "k")
    def __init__(self, v, k): self.v = v; self.k = k
    def __repr__(self): return "%r*" % (self.v,)
class VList:
    def __init__(self, items, it=None): self.items = list(items); self.born = it.depth() if it else 0
    def __repr__(self): return repr(self.items)
class VDict:
    def __init__(self, items=(), it=None, default=None): self.items = [list(x) if not isinstance(x, Seg) else x for x in items]; self.born = it.depth() if it else 0; self.default = default
    def __repr__(self): return "{%s}" % ", ".join("%r: %r" % tuple(x) if not isinstance(x, Seg) else repr(x) for x in self.items)
class VSet:
    def __init__(self, items=(), it=None): self.items = list(items); self.born = it.depth() if it else 0
    def __repr__(self): return "set%r" % (self.items,)
class View:
    """keys/values/items of a dictionary"""
    def __init__(self, d, kind): self.d = d; self.kind = kind
class Gen:
    """a lazily evaluated sequence; holds pairs (value, k)"""
    def __init__(self, it): self.it = it
class Idx:
    """position of an element of a list with summarised stretches"""
    def __init__(self, lst, i, lin): self.lst = lst; self.i = i; self.lin = lin
class Opaque:
    def __init__(self, name, origin=None): self.name = name; self.origin = origin
    def __repr__(self): return "<%s>" % self.name
class Func:
    def __init__(self, node, env, mod, cls=None): self.node = node; self.env = env; self.mod = mod; self.cls = cls; self.kind = None
    def __repr__(self): return "<function %s>" % getattr(self.node, "name", "lambda")
class Bound:
    def __init__(self, f, self_): self.f = f; self.me = self_
class Class:
    def __init__(self, name, bases, attrs, mod): self.name = name; self.bases = bases; self.attrs = attrs; self.mod = mod; self.fields = []; self.dc = False
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class): out += [x for x in b.mro() if x not in out]
            elif b not in out: out.append(b)
        return out
    def host(self):
        for b in self.mro():
            if isinstance(b, type) and issubclass(b, BaseException): return b
    def __repr__(self): return "<class %s>" % self.name
class Inst:
    def __init__(self, cls, attrs=None, it=None): self.cls = cls; self.attrs = attrs or {}; self.born = it.depth() if it else 0
    def __repr__(self): return "<%s %s>" % (self.cls.name if isinstance(self.cls, Class) else self.cls, self.attrs.get("name", ""))
class Exc:
    def __init__(self, cls, args=(), attrs=None): self.cls = cls; self.args = tuple(args); self.attrs = attrs or {}
    def __repr__(self): return "%s%r" % (self.cls.name if isinstance(self.cls, Class) else self.cls.__name__, self.args)
class Module:
    def __init__(self, name, attrs): self.name = name; self.attrs = attrs
class Super:
    def __init__(self, cls, me): self.cls = cls; self.me = me
class Host:
    """a modelled library function: f(interp, args, kwargs)"""
    def __init__(self, name, f): self.name = name; self.f = f
    def __repr__(self): return "<%s>" % self.name
class Env:
    def __init__(self, up, names=(), it=None): self.v = {}; self.up = up; self.locals = set(names); self.glob = set(); self.nonl = set(); self.born = it.depth() if it else 0
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up
def exc_is(e, c):
    """is the exception an instance of class c (host class, Class)"""
    if isinstance(c, Class): return isinstance(e.cls, Class) and c in e.cls.mro()
    h = e.cls.host() if isinstance(e.cls, Class) else e.cls
    return h is not None and issubclass(h, c)
def assigned(fn):
    out = set()
    def walk(n, top):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and not top: out.add(n.name); return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr): out.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
        for c in ast.iter_child_nodes(n): walk(c, False)
    for s in fn.body if isinstance(fn.body, list) else [fn.body]: walk(s, False)
    return out
TYPES = {"str": str, "int": int, "bool": bool, "float": float, "list": list, "dict": dict, "set": set, "tuple": tuple, "object": object, "bytes": bytes, "frozenset": frozenset, "type": type}
import builtins as _b
EXCS = {n: getattr(_b, n) for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Div: "/", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}

class Interp:
    LIMIT = 60000
    def __init__(self, world, ctx):
        self.world = world; self.ctx = ctx; self.mult = []; self.steps = 0; self.level = 0; self.mods = {}; self.events = []; self.files = 0
        self.hooks = {}            # qualified name -> replacement value
        self.where = []            # (module, line) of the innermost constructs
        self.loop_n = {}
    def depth(self): return len(self.mult)
    def err(self, n, msg):
        raise AnalysisError("%s:%s: %s" % (self.where[-1] if self.where else "?", getattr(n, "lineno", "?"), msg))
    def throw(self, cls, *args): raise PyExc(Exc(cls, args))
    def tick(self):
        self.steps += 1
        if self.steps > self.LIMIT: raise NonTerm()
    # ------------------------------------------------ truth
    def decide(self, key):
        return self.ctx.branch(Cond("op", key))
    def cond(self, c): return self.ctx.branch(c)
    def truth(self, v, n=None):
        if v is None or isinstance(v, (bool, int, float, str, tuple, bytes)): return bool(v)
        if isinstance(v, Lin): return not self.cond(c_eq(v))
        if isinstance(v, AStr):
            if any(isinstance(s, str) or s.lo > 0 for s in v.segs): return True
            return not self.cond(c_eq(self.len(v)))
        if isinstance(v, (VList, VDict, VSet, View)): return self.pos(self.len(v))
        if isinstance(v, Inst):
            m = self.find_attr(v.cls, "__bool__") or self.find_attr(v.cls, "__len__") if isinstance(v.cls, Class) else None
            if m: return self.truth(self.call(Bound(m, v), [], {}, n))
            return True
        if isinstance(v, Opaque): return self.opaque_truth(v, n)
        return True
    def opaque_truth(self, v, n): self.err(n, "truth of %r" % (v,))
    def pos(self, l): return l > 0 if isinstance(l, int) else self.cond(c_ge(l - 1))
    # ------------------------------------------------ numbers
    def lin(self, v): return Lin.of(int(v)) if isinstance(v, (bool, int)) else v
    def unlin(self, l): return l.c if isinstance(l, Lin) and l.is_const() else l
    def is_int(self, v): return isinstance(v, (int, Lin)) 
    # ------------------------------------------------ strings
    def cset(self, ch):
        """characters a one-character chunk may still be"""
        return self.ctx.memo.get(("set", ch.key), ch.chars)
    def restrict(self, ch, chars):
        if not chars: raise PathEnd("infeasible")
        self.ctx.memo[("set", ch.key)] = frozenset(chars); self.ctx.learned(("set", ch.key, frozenset(chars)))
    def char_test(self, ch, chars, key=None):
        """does the character of a one-character chunk belong to the set"""
        s = self.cset(ch)
        if s is None: return self.decide(("char", ch.key, frozenset(chars)))
        a = s & chars
        if a == s: return True
        if not a: return False
        if self.ctx.choose(2) == 0: self.restrict(ch, a); return True
        self.restrict(ch, s - a); return False
    def len(self, v, n=None):
        if isinstance(v, (str, tuple, bytes)): return len(v)
        if isinstance(v, AStr):
            t = Lin.of(0)
            for s in v.segs:
                if isinstance(s, str): t = t + len(s)
                elif s.lo == s.hi: t = t + s.lo
                else: t = t + Lin.of(sym(("slen", s.key), s.lo, s.hi))
            return self.unlin(t)
        if isinstance(v, (VList, VDict, VSet)): return self.count_items(v.items)
        if isinstance(v, View): return self.count_items(v.d.items)
        if isinstance(v, Inst) and isinstance(v.cls, Class):
            m = self.find_attr(v.cls, "__len__")
            if m: return self.call(Bound(m, v), [], {}, n)
        if v is None or isinstance(v, (int, Lin, float)): self.throw(TypeError, "object has no len()")
        self.err(n, "len of %r" % (v,))
    def count_items(self, items):
        t = Lin.of(0)
        for x in items: t = t + (x.k if isinstance(x, Seg) else 1)
        return self.unlin(t)
    def str_eq(self, a, b):
        """equality of two texts"""
        if isinstance(a, str) and isinstance(b, str): return a == b
        sa, sb = segs_of(a), segs_of(b)
        if sa == sb: return True
        oa, ob = self.options(a), self.options(b)
        if oa is not None or ob is not None:
            if oa is None: a, b, oa, ob = b, a, ob, oa
            if ob is not None and len(ob) > 1: b = self.pick(b, ob)
            elif ob is not None: b = ob[0]
            oa = self.options(a)
            hit = [x for x in oa if self.str_eq(x, b)]
            if not hit: return False
            if len(hit) == len(oa): return True
            if self.ctx.choose(2) == 0: self.settle(a, hit); return True
            self.settle(a, [x for x in oa if x not in hit]); return False
        i = 0
        while i < min(len(sa), len(sb)) and sa[i] == sb[i]: i += 1
        sa, sb = list(sa[i:]), list(sb[i:])
        while sa and sb and sa[-1] == sb[-1]: sa.pop(); sb.pop()
        # literal against literal at either end
        while sa and sb and isinstance(sa[0], str) and isinstance(sb[0], str):
            k = min(len(sa[0]), len(sb[0]))
            if sa[0][:k] != sb[0][:k]: return False
            sa[0] = sa[0][k:]; sb[0] = sb[0][k:]
            if not sa[0]: sa.pop(0)
            if not sb[0]: sb.pop(0)
            if sa == sb: return True
        while sa and sb and isinstance(sa[-1], str) and isinstance(sb[-1], str):
            k = min(len(sa[-1]), len(sb[-1]))
            if sa[-1][-k:] != sb[-1][-k:]: return False
            sa[-1] = sa[-1][:-k]; sb[-1] = sb[-1][:-k]
            if not sa[-1]: sa.pop()
            if not sb[-1]: sb.pop()
        if not sa and not sb: return True
        la = self.lin(self.len(mkstr(sa))); lb = self.lin(self.len(mkstr(sb)))
        x, y = self.ctx.bounds(la); u, w = self.ctx.bounds(lb)
        if y < u or w < x: return False
        # one-character steps
        def head(s):
            if not s: return None
            h = s[0]
            if isinstance(h, str): return frozenset(h[0])
            return self.cset(h) if h.lo == h.hi == 1 else h.first if h.lo > 0 else None
        ha, hb = head(sa), head(sb)
        if ha is not None and hb is not None and not (ha & hb): return False
        def fixed(s): return all(isinstance(x, str) or x.lo == x.hi == 1 for x in s)
        if fixed(sa) and fixed(sb):
            ca = [c for x in sa for c in (x if isinstance(x, str) else [x])]; cb = [c for x in sb for c in (x if isinstance(x, str) else [x])]
            if len(ca) != len(cb): return False
            for p, q in zip(ca, cb):
                if isinstance(p, str): p, q = q, p
                if isinstance(p, str):
                    if p != q: return False
                elif isinstance(q, str):
                    if not self.char_test(p, frozenset(q)): return False
                elif p is not q and not self.decide(("chareq", p.key, q.key)): return False
            return True
        def allowed(s, lit):
            """can the text be this literal (only the character classes are looked at)"""
            cs = set()
            for x in s:
                if isinstance(x, str): cs |= set(x)
                elif x.chars is None: return True
                else: cs |= x.chars
            return set(lit) <= cs
        la_, lb_ = mkstr(sa), mkstr(sb)
        if isinstance(lb_, str) and not allowed(sa, lb_): return False
        if isinstance(la_, str) and not allowed(sb, la_): return False
        # a literal part that no chunk of the other side can supply
        for p, q in ((sa, sb), (sb, sa)):
            lits = {c for x in p if isinstance(x, str) for c in x} | {next(iter(self.cset(x))) for x in p if not isinstance(x, str) and x.lo == x.hi == 1 and self.cset(x) is not None and len(self.cset(x)) == 1}
            fx = [self.cset(x) for x in p if not isinstance(x, str) and x.lo > 0 and x.chars is not None]
            have = set(); free = False
            for x in q:
                if isinstance(x, str): have |= set(x)
                elif x.chars is None: free = True
                else: have |= x.chars
            if not free and (lits - have or any(not (f & have) for f in fx)): return False
        names_a = [x for x in sa if not isinstance(x, str)]; names_b = [x for x in sb if not isinstance(x, str)]
        r = self.name_fact(a, b)
        if r is not None: return r
        k = sorted([repr(segs_of(a)), repr(segs_of(b))])
        return self.decide(("streq", k[0], k[1]))
    def options(self, v):
        """texts a one-of text may still be"""
        if isinstance(v, AStr) and len(v.segs) == 1 and not isinstance(v.segs[0], str) and v.segs[0].key[0] == "oneof":
            return self.ctx.memo.get(("opts", v.segs[0].key), v.segs[0].key[2])
    def settle(self, v, opts): self.ctx.memo[("opts", v.segs[0].key)] = tuple(opts)
    def pick(self, v, opts):
        i = self.ctx.choose(len(opts)); self.settle(v, [opts[i]]); return opts[i]
    reserved = frozenset()
    def name_fact(self, a, b):
        """what the document assumes about names: pairwise different, and (ignoring case) no reserved word"""
        x, y = segs_of(a), segs_of(b)
        if len(x) == 1 and len(y) == 1:
            p, q = x[0], y[0]
            if isinstance(p, str): p, q = q, p
            if isinstance(q, str):
                base = p
                while base.key[0] in ("lower", "upper", "fold"): base = Chunk.table[base.key[1]]
                if base.name and q.lower() in self.reserved: return False
                return None
            if p.name and q.name: return False if p is not q else True
            if p.key[0] == q.key[0] and p.key[0] in ("lower", "upper", "fold"): return None
        return None
    def has_char(self, v, chars, n=None):
        """does the text contain a character of the set"""
        for s in segs_of(v):
            if isinstance(s, str):
                if any(c in chars for c in s): return True
        for s in segs_of(v):
            if isinstance(s, str): continue
            if s.lo == s.hi == 1:
                if self.char_test(s, frozenset(chars)): return True
            elif s.chars is not None and not (s.chars & chars): continue
            elif s.chars is not None and s.chars <= chars and s.lo > 0: return True
            elif self.decide(("has", s.key, frozenset(chars))): return True
        return False
    def contains(self, v, x, n):
        """x in v for texts"""
        if isinstance(v, str) and isinstance(x, str): return x in v
        if isinstance(v, AStr) and isinstance(x, str):
            if x == "": return True
            if any(isinstance(s, str) and x in s for s in v.segs): return True
            if len(x) == 1: return self.has_char(v, frozenset(x), n)
            for s in v.segs:
                if not isinstance(s, str) and (s.chars is None or set(x) & s.chars): break
            else: return False
            return self.decide(("sub", repr(v), x))
        if isinstance(v, str) and isinstance(x, AStr):
            if len(x.segs) == 1 and not isinstance(x.segs[0], str) and x.segs[0].lo == x.segs[0].hi == 1: return self.char_test(x.segs[0], frozenset(v))
            return self.decide(("sub", v, repr(x)))
        if x == v: return True
        return self.decide(("sub", repr(v), repr(x)))
    def chars(self, v):
        """characters of a text as (value, k)"""
        for s in segs_of(v):
            if isinstance(s, str):
                for c in s: yield c, None
            elif s.lo == s.hi == 1: yield mkstr([s]), None
            else:
                k = Lin.of(sym(("slen", s.key), s.lo, s.hi))
                if s.lo == 0 and not self.pos(k): continue
                if s.lo and s.first is not s.chars:
                    yield mkstr([Chunk.get(("first", s.key), s.first, 1, 1)]), None
                    k = k - 1
                    if not self.pos(k): continue
                yield mkstr([Chunk.get(("char", s.key), s.chars, 1, 1)]), k
    def expand(self, v, i):
        """split a text after i characters (i >= 0): (left, right)"""
        left = []; segs = list(segs_of(v))
        while i > 0 and segs:
            s = segs.pop(0)
            if isinstance(s, str):
                left.append(s[:i]); r = s[i:]
                i -= len(s)
                if i < 0 or r: segs.insert(0, r); i = 0
            elif s.lo == s.hi == 1: left.append(s); i -= 1
            else:
                if s.lo == 0 and not self.pos(self.lin(self.len(mkstr([s])))): continue
                left.append(Chunk.get(("first", s.key), s.first, 1, 1)); i -= 1
                segs.insert(0, Chunk.get(("rest", s.key), s.chars, max(0, s.lo - 1), s.hi - 1))
        return mkstr(left), mkstr(segs), i
    def rexpand(self, v, i):
        right = []; segs = list(segs_of(v))
        while i > 0 and segs:
            s = segs.pop()
            if isinstance(s, str):
                right.insert(0, s[-i:]); r = s[:-i] if i < len(s) else ""
                i -= len(s)
                if r: segs.append(r); i = 0
            elif s.lo == s.hi == 1: right.insert(0, s); i -= 1
            else:
                if s.lo == 0 and not self.pos(self.lin(self.len(mkstr([s])))): continue
                # (one character left: it may be the first one)
                if s.lo == 1 and s.first is not s.chars:
                    if not self.pos(self.lin(self.len(mkstr([s]))) - 1): right.insert(0, Chunk.get(("first", s.key), s.first, 1, 1)); i -= 1; continue
                    segs.append(Chunk.get(("init", s.key), s.chars, 1, s.hi - 1, s.first)); right.insert(0, Chunk.get(("last", s.key), s.chars, 1, 1)); i -= 1; continue
                right.insert(0, Chunk.get(("last", s.key), s.chars, 1, 1)); i -= 1
                segs.append(Chunk.get(("init", s.key), s.chars, max(0, s.lo - 1), s.hi - 1, s.first))
        return mkstr(segs), mkstr(right), i
    def str_index(self, v, i, n):
        if isinstance(v, str):
            if -len(v) <= i < len(v): return v[i]
            self.throw(IndexError, "string index out of range")
        if i >= 0:
            _, r, left = self.expand(v, i)
            c, _, left2 = self.expand(r, 1)
        else:
            l, _, left = self.rexpand(v, -i - 1)
            _, c, left2 = self.rexpand(l, 1)
        if left or left2: self.throw(IndexError, "string index out of range")
        return c
    def str_slice(self, v, a, b, st, n):
        if st not in (None, 1):
            if isinstance(v, str): return v[a:b:st]
            self.err(n, "stepped slice of a text")
        if isinstance(v, str): return v[a:b]
        if isinstance(a, Lin) or isinstance(b, Lin): self.err(n, "slice with symbolic bounds")
        tail = ""
        if b is not None and b < 0: v, tail, _ = self.rexpand(v, -b); b = None
        if a is not None and a < 0: _, v, _ = self.rexpand(v, -a); a = None
        if b is not None: v, _, _ = self.expand(v, b)
        if a: _, v, _ = self.expand(v, a)
        return v
    def map_chars(self, v, what):
        f = {"lower": str.lower, "upper": str.upper, "casefold": str.casefold, "fold": str.casefold}[what]; what = {"casefold": "lower"}.get(what, what)
        if isinstance(v, str): return f(v)
        out = []
        for s in v.segs:
            if isinstance(s, str): out.append(f(s)); continue
            cs = self.cset(s) if s.lo == s.hi == 1 else s.chars
            if cs is not None:
                m = frozenset(f(c) for c in cs)
                if s.lo == s.hi == 1 and len(m) == 1: out.append(next(iter(m))); continue
                if m == cs: out.append(s); continue
            else: m = None
            out.append(Chunk.get((what, s.key), m, s.lo, s.hi, frozenset(f(c) for c in s.first) if s.first is not None else None))
        return mkstr(out)
    def strip(self, v, chars, left, right, n):
        if isinstance(v, str): 
            chars = None if chars is None else "".join(chars)
            return v.strip(chars) if left and right else v.lstrip(chars) if left else v.rstrip(chars)
        cs = WS if chars is None else frozenset(chars)
        segs = list(v.segs)
        def trim(segs, end):
            while segs:
                s = segs[end]
                if isinstance(s, str):
                    t = s.lstrip("".join(cs)) if end == 0 else s.rstrip("".join(cs))
                    if t == s: return
                    if t: segs[end] = t; return
                    segs.pop(end)
                elif s.lo == s.hi == 1:
                    if self.char_test(s, cs): segs.pop(end)
                    else: return
                elif s.chars is not None and not (s.chars & cs): 
                    if s.lo > 0: return
                    if self.pos(self.lin(self.len(mkstr([s])))): return
                    segs.pop(end)
                else: self.err(n, "strip of %r" % (v,))
        if left: trim(segs, 0)
        if right: trim(segs, -1)
        return mkstr(segs)
    def split_ws(self, v, n):
        if isinstance(v, str): return VList(v.split(), self)
        out = []; cur = []
        for s in v.segs:
            for p in (s if isinstance(s, str) else [s]):
                if isinstance(p, str): w = p in WS
                elif p.lo == p.hi == 1: w = self.char_test(p, WS)
                elif p.chars is not None and not (p.chars & WS): w = False
                else: self.err(n, "split of %r" % (v,))
                if w:
                    if cur: out.append(mkstr(cur)); cur = []
                else: cur.append(p)
        if cur: out.append(mkstr(cur))
        return VList(out, self)
    def split_on(self, v, sep, mx, n):
        if isinstance(v, str): return VList(v.split(sep, mx), self)
        if not isinstance(sep, str) or len(sep) != 1: self.err(n, "split on %r" % (sep,))
        out = []; cur = []
        for s in v.segs:
            for p in (s if isinstance(s, str) else [s]):
                if mx is not None and mx >= 0 and len(out) >= mx: w = False
                elif isinstance(p, str): w = p == sep
                elif p.lo == p.hi == 1: w = self.char_test(p, frozenset(sep))
                elif p.chars is not None and sep not in p.chars: w = False
                else: self.err(n, "split of %r" % (v,))
                if w: out.append(mkstr(cur)); cur = []
                else: cur.append(p)
        out.append(mkstr(cur))
        return VList(out, self)
    def class_test(self, v, pred, n, empty=False):
        """str.isxxx(): every character satisfies the predicate"""
        if isinstance(v, str): return pred(v)
        one = lambda c: pred(c)
        for s in v.segs:
            if isinstance(s, str):
                if not all(one(c) for c in s): return False
        for s in v.segs:
            if isinstance(s, str): continue
            if s.chars is None:
                if not self.decide(("all", s.key, getattr(pred, "__name__", ""))): return False
                continue
            good = frozenset(c for c in s.chars if one(c))
            if s.lo == s.hi == 1:
                if not self.char_test(s, good): return False
            elif not good:
                if s.lo > 0 or self.pos(self.lin(self.len(mkstr([s])))): return False
            elif good != s.chars:
                if not self.decide(("all", s.key, getattr(pred, "__name__", ""))): return False
        return True
    # ------------------------------------------------ equality, membership
    def eq(self, a, b, n=None):
        if a is b: return True
        if is_str(a) and is_str(b): return self.str_eq(a, b)
        if is_str(a) or is_str(b):
            if isinstance(a, Opaque) or isinstance(b, Opaque): return self.decide(("eq", repr(a), repr(b)))
            return False
        if isinstance(a, Idx): a = a.lin
        if isinstance(b, Idx): b = b.lin
        if self.is_int(a) and self.is_int(b):
            if isinstance(a, Lin) or isinstance(b, Lin): return self.cond(c_eq(self.lin(a) - self.lin(b)))
            return a == b
        if isinstance(a, (tuple, VList)) and type(a) is type(b):
            x = a if isinstance(a, tuple) else a.items; y = b if isinstance(b, tuple) else b.items
            return self.seq_eq(x, y, n)
        if isinstance(a, (VSet, View)) and isinstance(b, (VSet, View)):
            return self.subset(a, b, n) and self.subset(b, a, n)
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.items) != len(b.items): return False
            return all(self.dict_find(b, k[0], n) is not None for k in a.items)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name: return True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is None or b is None: return self.opaque_is_none(a if b is None else b, n)
            return self.decide(("eq", repr(a), repr(b)))
        if isinstance(a, Inst) and isinstance(b, Inst) and isinstance(a.cls, Class):
            m = self.find_attr(a.cls, "__eq__")
            if m: return self.truth(self.call(Bound(m, a), [b], {}, n))
            if a.cls.dc and a.cls is b.cls: return all(self.eq(a.attrs.get(f), b.attrs.get(f)) for f, _ in a.cls.fields)
            return False
        if isinstance(a, (str, int, float, bytes, type(None))) and isinstance(b, (str, int, float, bytes, type(None))): return a == b
        if type(a) is type and type(b) is type: return a is b
        return False
    def opaque_is_none(self, v, n): return False
    def seq_eq(self, x, y, n):
        i = j = 0
        if len(x) != len(y):
            if not any(isinstance(p, Seg) for p in list(x) + list(y)): return False
            return False
        for p, q in zip(x, y):
            if isinstance(p, Seg) != isinstance(q, Seg): return False
            if isinstance(p, Seg):
                if not self.eq(p.k, q.k) or not self.eq(p.v, q.v): return False
            elif not self.eq(p, q, n): return False
        return True
    def subset(self, a, b, n): return all(self.member(b, x, n) for x, k in self.iter(a, n))
    def member(self, c, x, n):
        """x in c"""
        o = self.options(x) if isinstance(x, AStr) else None
        if o is not None and not is_str(c):
            hit = [y for y in o if self.member(c, y, n)]
            if not hit or len(hit) == len(o): return bool(hit)
            if self.ctx.choose(2) == 0: self.settle(x, hit); return True
            self.settle(x, [y for y in o if y not in hit]); return False
        if is_str(c):
            if not is_str(x): self.throw(TypeError, "in <string> requires string")
            return self.contains(c, x, n)
        if isinstance(c, VDict): return self.dict_find(c, x, n) is not None
        if isinstance(c, View) and c.kind == "keys": return self.dict_find(c.d, x, n) is not None
        if isinstance(c, VSet): return any(self.eq(y.v if isinstance(y, Seg) else y, x, n) and (not isinstance(y, Seg) or self.pos(y.k)) for y in c.items)
        if isinstance(c, Inst) and isinstance(c.cls, Class):
            m = self.find_attr(c.cls, "__contains__")
            if m: return self.truth(self.call(Bound(m, c), [x], {}, n))
        if c is None or self.is_int(c): self.throw(TypeError, "argument is not iterable")
        if isinstance(c, Opaque): return self.decide(("in", repr(x), repr(c)))
        if isinstance(c, Host) and c.name == "range" or isinstance(c, Range): return self.cond(c_ge(self.lin(x) - self.lin(c.a))) and self.cond(c_ge(self.lin(c.b) - self.lin(x) - 1))
        for y, k in self.iter(c, n):
            if self.eq(y, x, n): return True
        return False
    def dict_find(self, d, k, n=None):
        if isinstance(k, (VList, VDict, VSet)): self.throw(TypeError, "unhashable type")
        for e in d.items:
            if isinstance(e, Seg):
                if self.eq(e.v[0], k, n) and self.pos(e.k): return e.v
            elif self.eq(e[0], k, n): return e
        return None
    def times(self, born):
        t = Lin.of(1); out = None
        for k in self.mult[born:]:
            if out is None: out = self.lin(k)
            else: out = Lin.of(sym(("prod", repr(out), repr(k)), 0, INF))
        return out
    def add_item(self, c, v):
        k = self.times(c.born)
        c.items.append(v if k is None else Seg(v, k))
    def dict_set(self, d, k, v, n):
        e = self.dict_find(d, k, n)
        if e is not None: e[1] = self.scaled(e[1], v, d.born); return
        self.add_item(d, [k, v])
    def scaled(self, old, new, born):
        """a number changed by the same amount in each of k iterations"""
        k = self.times(born)
        if k is None or not self.is_int(old) or not self.is_int(new) or isinstance(old, bool) or isinstance(new, bool): return new
        d = self.lin(new) - self.lin(old)
        if d.is_const() and d.c and k.one() is not None: return self.unlin(self.lin(old) + k.scale(d.c))
        if d.is_const() and d.c == 0: return new
        return new
    def dict_del(self, d, k, n):
        e = self.dict_find(d, k, n)
        if e is None: self.throw(KeyError, k)
        d.items = [x for x in d.items if x is not e and not (isinstance(x, Seg) and x.v is e)]
        return e[1]
    def set_add(self, s, v, n):
        if isinstance(v, (VList, VDict, VSet)): self.throw(TypeError, "unhashable type")
        if not any(self.eq(y.v if isinstance(y, Seg) else y, v, n) for y in s.items): self.add_item(s, v)
    # ------------------------------------------------ iteration: pairs (value, k); k None for a single element
    def iter(self, v, n=None):
        if isinstance(v, (VList, VSet)):
            i = 0
            while i < len(v.items):
                x = v.items[i]; i += 1
                if isinstance(x, Seg):
                    if self.pos(x.k): yield x.v, x.k
                else: yield x, None
        elif isinstance(v, tuple):
            for x in v: yield x, None
        elif is_str(v): yield from self.chars(v)
        elif isinstance(v, (VDict, View)):
            d = v if isinstance(v, VDict) else v.d; kind = "keys" if isinstance(v, VDict) else v.kind; cnt = len(d.items); i = 0
            while i < len(d.items):
                if len(d.items) != cnt: self.throw(RuntimeError, "dictionary changed size during iteration")
                x = d.items[i]; i += 1
                e = x.v if isinstance(x, Seg) else x
                if isinstance(x, Seg) and not self.pos(x.k): continue
                yield (e[0] if kind == "keys" else e[1] if kind == "values" else (e[0], e[1])), (x.k if isinstance(x, Seg) else None)
        elif isinstance(v, Gen): yield from v.it
        elif isinstance(v, Range): yield from v.iterate(self, n)
        elif isinstance(v, Inst) and isinstance(v.cls, Class) and self.find_attr(v.cls, "__iter__"):
            yield from self.iter(self.call(Bound(self.find_attr(v.cls, "__iter__"), v), [], {}, n), n)
        elif v is None or self.is_int(v): self.throw(TypeError, "object is not iterable")
        elif isinstance(v, Opaque): yield from self.opaque_iter(v, n)
        else: self.err(n, "iteration over %r" % (v,))
    def opaque_iter(self, v, n): self.err(n, "iteration over %r" % (v,))
    def loop(self, v, n, body):
        """run body(value) for every element; k elements at once are run as one, with what they add multiplied"""
        for x, k in self.iter(v, n):
            self.tick()
            if k is None: body(x)
            else:
                self.mult.append(k)
                try: body(x)
                finally: self.mult.pop()
    def fill(self, v, n, target, add):
        def body(x): add(target, x)
        self.loop(v, n, body)
        return target
    def to_list(self, v, n): return self.fill(v, n, VList([], self), lambda t, x: self.add_item(t, x))
    def items(self, v, n):
        """plain Python list of the elements; none may be summarised"""
        out = []
        for x, k in self.iter(v, n):
            if k is not None: self.err(n, "summarised elements")
            out.append(x)
        return out
    # ------------------------------------------------ modules, names
    def module(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.world:
            m = self.world[name]; env = Env(None); self.mods[name] = mod = Module(name, env.v); mod.env = env; mod.m = m
            env.v["__name__"] = name; env.v["__file__"] = "/pkg/" + m.rel
            for q, val in self.hooks.items():
                if q.rpartition(".")[0] == name and val is not None: env.v[q.rpartition(".")[2]] = val
            if name + ".*" in self.hooks: return mod
            save = self.mult; self.mult = []
            self.where.append(m.rel)
            for s in m.tree.body: self.stmt(s, env, mod)
            self.where.pop(); self.mult = save
            for q, val in self.hooks.items():
                if q.rpartition(".")[0] == name and val is not None: env.v[q.rpartition(".")[2]] = val
            return mod
        from .pylib import library
        lib = library(self, name)
        self.mods[name] = lib
        return lib
    def lookup(self, name, env, mod, n):
        e = env
        while e is not None:
            if name in e.v: return e.v[name]
            if name in e.locals and name not in e.glob and name not in e.nonl: self.throw(UnboundLocalError, name)
            e = e.up
        if mod is not None and name in mod.attrs: return mod.attrs[name]
        from .pylib import BUILTINS
        if name in BUILTINS: return BUILTINS[name]
        if name in TYPES: return TYPES[name]
        if name in EXCS: return EXCS[name]
        if name == "__file__": return "/pkg"
        self.err(n, "unknown name " + name)
    def store(self, name, v, env, mod):
        if name in env.glob: self.put(mod.env, name, v); return
        if name in env.nonl:
            e = env.up.find(name)
            self.put(e, name, v); return
        self.put(env, name, v)
    def put(self, e, name, v):
        old = e.v.get(name)
        e.v[name] = self.scaled(old, v, e.born) if self.mult and old is not None else v
    # ------------------------------------------------ attributes
    def find_attr(self, cls, name):
        for c in cls.mro():
            if isinstance(c, Class) and name in c.attrs: return c.attrs[name]
        return None
    def getattr(self, v, name, n):
        if isinstance(v, Inst):
            if name in v.attrs: return v.attrs[name]
            if isinstance(v.cls, Class):
                a = self.find_attr(v.cls, name)
                if isinstance(a, Func):
                    if a.kind == "static": return a
                    if a.kind == "class": return Bound(a, v.cls)
                    if a.kind == "property": return self.call(Bound(a, v), [], {}, n)
                    return Bound(a, v)
                if a is not None or any(isinstance(c, Class) and name in c.attrs for c in v.cls.mro()): return a
                if name == "__class__": return v.cls
                if name == "__dict__": return VDict([[k, x] for k, x in v.attrs.items()], self)
                m = self.find_attr(v.cls, "__getattr__")
                if m: return self.call(Bound(m, v), [name], {}, n)
                self.throw(AttributeError, name)
            return self.stub_attr(v, name, n)
        if isinstance(v, Class):
            if name == "__name__": return v.name
            a = self.find_attr(v, name)
            if isinstance(a, Func) and a.kind == "class": return Bound(a, v)
            if a is not None or any(isinstance(c, Class) and name in c.attrs for c in v.mro()): return a
            self.throw(AttributeError, name)
        if isinstance(v, Super):
            for c in v.cls.mro()[1:]:
                if isinstance(c, Class) and name in c.attrs: return Bound(c.attrs[name], v.me)
            if name == "__init__": return Host("__init__", lambda it, a, k: None)
            self.throw(AttributeError, name)
        if isinstance(v, Module):
            if name in v.attrs: return v.attrs[name]
            if v.name + "." + name in self.world: return self.module(v.name + "." + name)
            self.err(n, "module %s has no modelled %s" % (v.name, name))
        if isinstance(v, Exc):
            if name == "args": return v.args
            if name in v.attrs: return v.attrs[name]
            if isinstance(v.cls, Class):
                a = self.find_attr(v.cls, name)
                if isinstance(a, Func): return Bound(a, v)
                if a is not None: return a
            if name in ("__class__",): return v.cls
            if name == "with_traceback": return Host("wt", lambda it, a, k: v)
            if name == "add_note": return Host("an", lambda it, a, k: None)
            if name == "code" and exc_is(v, SystemExit): return v.args[0] if v.args else None
            return Opaque("exception." + name)
        if isinstance(v, Opaque): return self.opaque_attr(v, name, n)
        if isinstance(v, type):
            if name == "__name__": return v.__name__
            if name == "__init__": return Host("__init__", lambda it, a, k: None)
            from .pylib import method_of
            t = v
            return Host("%s.%s" % (t.__name__, name), lambda it, a, k: it.method(a[0], name, a[1:], k, n))
        if isinstance(v, Func):
            if name == "__name__": return v.node.name
            return Opaque("function." + name)
        return Host("." + name, lambda it, a, k: it.method(v, name, a, k, n))
    def method(self, v, name, a, k, n):
        from .pylib import method_of
        return method_of(self, v, name, a, k, n)
    def stub_attr(self, v, name, n): self.err(n, "attribute %s of %r" % (name, v))
    def opaque_attr(self, v, name, n): self.err(n, "attribute %s of %r" % (name, v))
    def setattr(self, v, name, x, n):
        if isinstance(v, (Inst, Exc)):
            if isinstance(v, Inst) and isinstance(v.cls, Class):
                a = self.find_attr(v.cls, name)
                if isinstance(a, Func) and a.kind == "property":
                    s = self.find_attr(v.cls, name + ".setter")
                    if s: self.call(Bound(s, v), [x], {}, n); return
                    self.throw(AttributeError, name)
            old = v.attrs.get(name)
            v.attrs[name] = self.scaled(old, x, getattr(v, "born", 0)) if self.mult and old is not None else x
        elif isinstance(v, Class): v.attrs[name] = x
        elif isinstance(v, Module): v.attrs[name] = x
        elif isinstance(v, Opaque): self.opaque_set(v, name, x, n)
        else: self.throw(AttributeError, name)
    def opaque_set(self, v, name, x, n): pass
    # ------------------------------------------------ calls
    def call(self, f, args, kw, n):
        self.tick()
        if isinstance(f, Bound): return self.call(f.f, [f.me] + list(args), kw, n)
        if isinstance(f, Host): return f.f(self, args, kw)
        if isinstance(f, Func): return self.call_func(f, args, kw, n)
        if isinstance(f, Class): return self.construct(f, args, kw, n)
        if isinstance(f, type):
            if issubclass(f, BaseException): return Exc(f, args)
            from .pylib import construct_builtin
            return construct_builtin(self, f, args, kw, n)
        if isinstance(f, Inst) and isinstance(f.cls, Class):
            m = self.find_attr(f.cls, "__call__")
            if m: return self.call(Bound(m, f), args, kw, n)
        if isinstance(f, Opaque): return self.opaque_call(f, args, kw, n)
        if isinstance(f, Inst): return self.stub_call(f, args, kw, n)
        if f is None or is_str(f) or self.is_int(f): self.throw(TypeError, "object is not callable")
        self.err(n, "call of %r" % (f,))
    def stub_call(self, f, args, kw, n):
        if f.cls == "chain": return self.call(self.chain, args, kw, n)
        self.err(n, "call of %r" % (f,))
    def output(self, f, text, end): pass
    def open_file(self, a, k): self.err(None, "open")
    def host_module(self, name): return None
    def opaque_call(self, f, args, kw, n): self.err(n, "call of %r" % (f,))
    def construct(self, c, args, kw, n):
        h = c.host()
        o = Exc(c, args) if h is not None else Inst(c, {}, self)
        i = self.find_attr(c, "__init__")
        if i is not None: self.call(Bound(i, o), args, kw, n)
        elif c.dc:
            vals = dict(zip([f for f, _ in c.fields], args)); vals.update(kw)
            for f, d in c.fields:
                if f in vals: o.attrs[f] = vals[f]
                elif d is None: self.throw(TypeError, "missing argument " + f)
                else: o.attrs[f] = d(self)
            p = self.find_attr(c, "__post_init__")
            if p: self.call(Bound(p, o), [], {}, n)
        elif (args or kw) and h is None: self.throw(TypeError, "%s() takes no arguments" % c.name)
        return o
    def call_func(self, f, args, kw, n):
        nd = f.node; a = nd.args
        env = Env(f.env, assigned(nd) if not isinstance(nd, ast.Lambda) else (), self)
        pos = [x.arg for x in a.posonlyargs + a.args]; args = list(args); kw = dict(kw)
        for p, v in zip(pos, args): env.v[p] = v
        if len(args) > len(pos):
            if a.vararg: env.v[a.vararg.arg] = tuple(args[len(pos):])
            else: self.throw(TypeError, "too many arguments")
        elif a.vararg: env.v[a.vararg.arg] = ()
        dfl = dict(zip(pos[len(pos) - len(a.defaults):], f.defaults[0])); dfl.update(f.defaults[1])
        for p in pos[len(args):] + [x.arg for x in a.kwonlyargs]:
            if p in kw: env.v[p] = kw.pop(p)
            elif p in dfl: env.v[p] = dfl[p]
            else: self.throw(TypeError, "missing argument " + p)
        if a.kwarg: env.v[a.kwarg.arg] = VDict([[k, v] for k, v in kw.items()], self)
        elif kw: self.throw(TypeError, "unexpected keyword argument")
        if isinstance(nd, ast.Lambda): return self.eval(nd.body, env, f.mod)
        self.level += 1
        if self.level > 150: self.level -= 1; self.throw(RecursionError, "maximum recursion depth exceeded")
        self.where.append("%s.%s" % (f.mod.name, nd.name))
        env.fn = f; env.me = args[0] if args else None
        isgen = getattr(nd, "_gen", None)
        if isgen is None: isgen = nd._gen = has_yield(nd)
        if isgen: env.out = VList([], self)
        try:
            for s in nd.body: self.stmt(s, env, f.mod)
            r = None
        except Return as e: r = e.v
        finally: self.level -= 1; self.where.pop()
        return env.out if isgen else r
    # ------------------------------------------------ statements
    def block(self, b, env, mod):
        for s in b: self.stmt(s, env, mod)
    def stmt(self, s, env, mod):
        self.tick()
        getattr(self, "s_" + type(s).__name__, self.s_unknown)(s, env, mod)
    def s_unknown(self, s, env, mod): self.err(s, "statement " + type(s).__name__)
    def s_Expr(self, s, env, mod): self.eval(s.value, env, mod)
    def s_Pass(self, s, env, mod): pass
    def s_Global(self, s, env, mod): env.glob |= set(s.names)
    def s_Nonlocal(self, s, env, mod): env.nonl |= set(s.names)
    def s_Assert(self, s, env, mod):
        if not self.truth(self.eval(s.test, env, mod), s): self.throw(AssertionError)
    def s_Assign(self, s, env, mod):
        v = self.eval(s.value, env, mod)
        for t in s.targets: self.assign(t, v, env, mod)
    def s_AnnAssign(self, s, env, mod):
        if s.value is not None: self.assign(s.target, self.eval(s.value, env, mod), env, mod)
    def s_AugAssign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name): cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env, mod); setter = lambda v: self.store(t.id, v, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env, mod); cur = self.getattr(o, t.attr, s); setter = lambda v: self.setattr(o, t.attr, v, s)
        else:
            o = self.eval(t.value, env, mod); i = self.eval(t.slice, env, mod); cur = self.index(o, i, s); setter = lambda v: self.set_index(o, i, v, s)
        r = self.eval(s.value, env, mod)
        if isinstance(cur, VList) and isinstance(s.op, ast.Add): self.fill(r, s, cur, lambda t_, x: self.add_item(t_, x)); setter(cur); return
        if isinstance(cur, VSet) and isinstance(s.op, ast.BitOr): self.fill(r, s, cur, lambda t_, x: self.set_add(t_, x, s)); setter(cur); return
        if isinstance(cur, VDict) and isinstance(s.op, ast.BitOr): self.method(cur, "update", [r], {}, s); setter(cur); return
        setter(self.binop(BINOPS[type(s.op)], cur, r, s))
    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = env.find(t.id)
                if e: del e.v[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env, mod)
                if isinstance(o, VDict): self.dict_del(o, self.eval(t.slice, env, mod), s)
                else:
                    i = self.eval(t.slice, env, mod)
                    if isinstance(o, VList) and isinstance(i, int) and not any(isinstance(x, Seg) for x in o.items): del o.items[i]
                    else: self.err(s, "del of an element")
            else: self.err(s, "del")
    def s_If(self, s, env, mod): self.block(s.body if self.truth(self.eval(s.test, env, mod), s) else s.orelse, env, mod)
    def s_While(self, s, env, mod):
        while self.truth(self.eval(s.test, env, mod), s):
            self.tick()
            try: self.block(s.body, env, mod)
            except Break: return
            except Continue: continue
        self.block(s.orelse, env, mod)
    def s_For(self, s, env, mod):
        def body(x):
            self.assign(s.target, x, env, mod)
            try: self.block(s.body, env, mod)
            except Continue: pass
        it = self.eval(s.iter, env, mod)
        try: self.loop(it, s, body)
        except Break: return
        self.block(s.orelse, env, mod)
    def s_Break(self, s, env, mod): raise Break()
    def s_Continue(self, s, env, mod): raise Continue()
    def s_Return(self, s, env, mod): raise Return(self.eval(s.value, env, mod) if s.value is not None else None)
    def s_Raise(self, s, env, mod):
        if s.exc is None:
            e = env
            while e is not None:
                if getattr(e, "handling", None): raise PyExc(e.handling[-1])
                e = e.up
            self.throw(RuntimeError, "No active exception to reraise")
        v = self.eval(s.exc, env, mod)
        if s.cause is not None: self.eval(s.cause, env, mod)
        if isinstance(v, (Class, type)): v = self.call(v, [], {}, s)
        if not isinstance(v, Exc): self.throw(TypeError, "exceptions must derive from BaseException")
        raise PyExc(v)
    def handler_matches(self, h, e, env, mod):
        if h.type is None: return True
        t = self.eval(h.type, env, mod)
        return any(exc_is(e, c) for c in (t if isinstance(t, tuple) else (t,)) if isinstance(c, (Class, type)))
    def s_Try(self, s, env, mod):
        depth = len(self.mult); lv = self.level; wh = len(self.where)
        try:
            try: self.block(s.body, env, mod)
            except PyExc as p:
                del self.mult[depth:]; self.level = lv; del self.where[wh:]
                for h in s.handlers:
                    if self.handler_matches(h, p.v, env, mod):
                        if not hasattr(env, "handling"): env.handling = []
                        env.handling.append(p.v)
                        if h.name: env.v[h.name] = p.v
                        try: self.block(h.body, env, mod)
                        finally:
                            env.handling.pop()
                            if h.name: env.v.pop(h.name, None)
                        break
                else: raise
            else: self.block(s.orelse, env, mod)
        finally:
            import sys
            if s.finalbody and not isinstance(sys.exc_info()[1], (AnalysisError, PathEnd, NonTerm)): self.block(s.finalbody, env, mod)
    def s_With(self, s, env, mod):
        ms = []
        for i in s.items:
            m = self.eval(i.context_expr, env, mod); v = self.enter(m, s)
            ms.append(m)
            if i.optional_vars is not None: self.assign(i.optional_vars, v, env, mod)
        try: self.block(s.body, env, mod)
        except PyExc as p:
            for m in reversed(ms):
                if self.leave(m, p.v, s): return
            raise
        except (Return, Break, Continue):
            for m in reversed(ms): self.leave(m, None, s)
            raise
        for m in reversed(ms): self.leave(m, None, s)
    def enter(self, m, n):
        if isinstance(m, Inst) and isinstance(m.cls, Class):
            e = self.find_attr(m.cls, "__enter__")
            if e: return self.call(Bound(e, m), [], {}, n)
        return m
    def leave(self, m, exc, n):
        if isinstance(m, Inst) and isinstance(m.cls, Class):
            e = self.find_attr(m.cls, "__exit__")
            if e: return self.truth(self.call(Bound(e, m), [exc.cls if exc else None, exc, None], {}, n))
        if isinstance(m, Inst) and m.cls == "suppress": return exc is not None and any(exc_is(exc, c) for c in m.attrs["classes"])
        return False
    def s_Import(self, s, env, mod):
        for a in s.names:
            m = self.module(a.name if a.asname else a.name.split(".")[0])
            env.v[a.asname or a.name.split(".")[0]] = m
    def s_ImportFrom(self, s, env, mod):
        base = s.module or ""
        if base == "__future__": return
        if s.level:
            pk = mod.name.split(".")
            if not mod.m.path.endswith("__init__.py"): pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]; base = ".".join(pk + ([s.module] if s.module else []))
        for a in s.names:
            q = base + "." + a.name
            if q in self.hooks and self.hooks[q] is not None: env.v[a.asname or a.name] = self.hooks[q]; continue
            m = self.module(base)
            if a.name == "*":
                for k, v in m.attrs.items():
                    if not k.startswith("_"): env.v[k] = v
                continue
            if a.name in m.attrs: env.v[a.asname or a.name] = m.attrs[a.name]
            elif q in self.world: env.v[a.asname or a.name] = self.module(q)
            else: env.v[a.asname or a.name] = Opaque(q)
    def s_FunctionDef(self, s, env, mod):
        f = Func(s, env, mod); f.defaults = self.defaults(s.args, env, mod)
        v = f
        for d in reversed(s.decorator_list):
            dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else d.func.attr if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) else d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else None
            if dn == "staticmethod": f.kind = "static"
            elif dn == "classmethod": f.kind = "class"
            elif dn in ("property", "cached_property"): f.kind = "property"
            elif dn == "setter": env.v[s.name + ".setter"] = f; return
            elif dn in ("cache", "lru_cache", "override", "final", "overload", "abstractmethod", "wraps", "contextmanager"):
                if dn == "contextmanager": self.err(s, "context manager function")
            else: v = self.call(self.eval(d, env, mod), [v], {}, s)
        env.v[s.name] = v
    def defaults(self, a, env, mod):
        return ([self.eval(d, env, mod) for d in a.defaults], {k.arg: self.eval(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    def s_ClassDef(self, s, env, mod):
        bases = [self.eval(b, env, mod) for b in s.bases]
        ce = Env(env, (), self); ce.isclass = True
        c = Class(s.name, [b for b in bases if isinstance(b, (Class, type))], ce.v, mod)
        nt = any(isinstance(b, Opaque) and b.name.endswith("NamedTuple") for b in bases)
        dc = nt
        for d in s.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if (x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", None)) == "dataclass": dc = True
        for b in s.body:
            self.stmt(b, ce, mod)
            if dc and isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                nm = b.target.id; v = b.value
                if v is None: d = None
                elif isinstance(v, ast.Call) and (getattr(v.func, "id", None) == "field" or getattr(v.func, "attr", None) == "field"):
                    kws = {k.arg: k.value for k in v.keywords}
                    if "default_factory" in kws: fx = kws["default_factory"]; d = lambda it, fx=fx: it.call(it.eval(fx, env, mod), [], {}, s)
                    elif "default" in kws: dv = self.eval(kws["default"], env, mod); d = lambda it, dv=dv: dv
                    else: d = None
                else: dv = ce.v.get(nm); d = lambda it, dv=dv: dv
                c.fields.append((nm, d))
        if dc: c.dc = True
        for b in c.bases:
            if isinstance(b, Class) and b.dc: c.dc = True; c.fields = b.fields + c.fields
        for v in list(ce.v.values()):
            if isinstance(v, Func) and v.cls is None: v.cls = c
        for v in list(ce.v.values()):
            if isinstance(v, Func) and v.env is ce: v.env = env
        env.v[s.name] = c
    def s_Match(self, s, env, mod):
        v = self.eval(s.subject, env, mod)
        for c in s.cases:
            if self.pattern(c.pattern, v, env, mod, s) and (c.guard is None or self.truth(self.eval(c.guard, env, mod), s)):
                self.block(c.body, env, mod); return
    def pattern(self, p, v, env, mod, n):
        if isinstance(p, ast.MatchValue): return self.eq(v, self.eval(p.value, env, mod), n)
        if isinstance(p, ast.MatchSingleton): return v is p.value
        if isinstance(p, ast.MatchOr): return any(self.pattern(q, v, env, mod, n) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env, mod, n): return False
            if p.name: self.store(p.name, v, env, mod)
            return True
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            c = self.eval(p.cls, env, mod)
            from .pylib import isinstance_
            return isinstance_(self, v, c, n) and (not p.patterns or self.pattern(p.patterns[0], v, env, mod, n))
        self.err(n, "match pattern")
    # ------------------------------------------------ assignment
    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name): self.store(t.id, v, env, mod)
        elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, env, mod), t.attr, v, t)
        elif isinstance(t, ast.Subscript): self.set_index(self.eval(t.value, env, mod), self.eval(t.slice, env, mod), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.items(v, t)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]; k = len(vals) - (len(t.elts) - 1)
                if k < 0: self.throw(ValueError, "not enough values to unpack")
                for x, y in zip(t.elts[:i], vals[:i]): self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, VList(vals[i:i + k], self), env, mod)
                for x, y in zip(t.elts[i + 1:], vals[i + k:]): self.assign(x, y, env, mod)
                return
            if len(vals) != len(t.elts): self.throw(ValueError, "values to unpack")
            for x, y in zip(t.elts, vals): self.assign(x, y, env, mod)
        else: self.err(t, "assignment target")
    def set_index(self, o, i, v, n):
        if isinstance(o, VDict): self.dict_set(o, i, v, n); return
        if isinstance(o, VList):
            if isinstance(i, int) and not any(isinstance(x, Seg) for x in o.items):
                if not -len(o.items) <= i < len(o.items): self.throw(IndexError, "list assignment index out of range")
                o.items[i] = v; return
            if isinstance(i, Idx) and len(o.items) == len(i.lst.items):
                o.items[i.i] = Seg(v, o.items[i.i].k) if isinstance(o.items[i.i], Seg) else v; return
        if isinstance(o, Inst) and isinstance(o.cls, Class) and self.find_attr(o.cls, "__setitem__"):
            self.call(Bound(self.find_attr(o.cls, "__setitem__"), o), [i, v], {}, n); return
        if is_str(o) or isinstance(o, tuple): self.throw(TypeError, "item assignment")
        self.err(n, "store into %r[%r]" % (o, i))
    def index(self, o, i, n):
        if isinstance(o, VDict):
            e = self.dict_find(o, i, n)
            if e is None:
                if o.default is not None:
                    v = self.call(o.default, [], {}, n) if o.default != 0 else 0
                    if o.default != 0: self.dict_set(o, i, v, n)
                    return v
                self.throw(KeyError, i)
            return e[1]
        if isinstance(i, slice): return self.slice(o, i, n)
        if is_str(o):
            if isinstance(i, Lin): self.err(n, "symbolic index into a text")
            if not isinstance(i, int): self.throw(TypeError, "string indices must be integers")
            return self.str_index(o, i, n)
        if isinstance(o, tuple):
            if isinstance(i, int):
                if -len(o) <= i < len(o): return o[i]
                self.throw(IndexError, "tuple index out of range")
        if isinstance(o, VList):
            if isinstance(i, Idx):
                if i.lst is o or len(i.lst.items) == len(o.items): return o.items[i.i].v if isinstance(o.items[i.i], Seg) else o.items[i.i]
                self.err(n, "position of another list")
            if is_str(i): self.throw(TypeError, "list indices must be integers")
            if isinstance(i, int):
                its = o.items if i >= 0 else o.items[::-1]; j = i if i >= 0 else -i - 1; j = Lin.of(j)
                for x in its:
                    k = self.lin(x.k) if isinstance(x, Seg) else Lin.of(1)
                    if self.cond(c_ge(k - j - 1)): return x.v if isinstance(x, Seg) else x
                    j = j - k
                self.throw(IndexError, "list index out of range")
        if isinstance(o, View) and isinstance(i, int): self.throw(TypeError, "not subscriptable")
        if isinstance(o, Inst) and isinstance(o.cls, Class) and self.find_attr(o.cls, "__getitem__"):
            return self.call(Bound(self.find_attr(o.cls, "__getitem__"), o), [i], {}, n)
        if o is None or self.is_int(o): self.throw(TypeError, "object is not subscriptable")
        if isinstance(o, (Opaque, type, Class)): return self.opaque_index(o, i, n)
        self.err(n, "%r[%r]" % (o, i))
    def opaque_index(self, o, i, n): return Opaque("%r[]" % (o,))
    def slice(self, o, s, n):
        a, b, st = s.start, s.stop, s.step
        if is_str(o): return self.str_slice(o, a, b, st, n)
        if isinstance(o, tuple): return o[s]
        if isinstance(o, VList):
            if not any(isinstance(x, Seg) for x in o.items) and not isinstance(a, (Lin, Idx)) and not isinstance(b, (Lin, Idx)): return VList(o.items[s], self)
            if a in (None, 0) and b is None and st in (None, 1): return VList(o.items, self)
            if a in (None, 0) and b is None and st == -1: return VList(o.items[::-1], self)
            if isinstance(a, Idx) and b is None and a.lst is o: return VList(o.items[a.i:], self)
            if isinstance(b, Idx) and a in (None, 0) and b.lst is o: return VList(o.items[:b.i], self)
            if st in (None, 1) and isinstance(a, (int, type(None))) and isinstance(b, (int, type(None))):
                items = list(o.items)
                def drop(items, k, end):
                    while k > 0 and items:
                        x = items[end]
                        if isinstance(x, Seg):
                            if self.cond(c_ge(self.lin(x.k) - k - 1)): items[end] = Seg(x.v, self.lin(x.k) - k); return
                            if not self.cond(c_ge(self.lin(x.k) - k)): self.err(n, "slice inside a summarised stretch")
                            items.pop(end); return
                        items.pop(end); k -= 1
                if a: 
                    if a > 0: drop(items, a, 0)
                    else: self.err(n, "slice of a summarised list")
                if b is not None:
                    if b < 0: drop(items, -b, -1)
                    else:
                        b -= a or 0; out = []
                        for x in items:
                            if b <= 0: break
                            if isinstance(x, Seg):
                                if self.cond(c_ge(self.lin(x.k) - b)): out.append(Seg(x.v, Lin.of(b))); b = 0
                                else: self.err(n, "slice of a summarised list")
                            else: out.append(x); b -= 1
                        items = out
                return VList(items, self)
        self.err(n, "slice of %r" % (o,))
    # ------------------------------------------------ expressions
    def eval(self, e, env, mod):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None: self.err(e, "expression " + type(e).__name__)
        return f(e, env, mod)
    def e_Constant(self, e, env, mod): return e.value
    def e_Name(self, e, env, mod): return self.lookup(e.id, env, mod, e)
    def e_Attribute(self, e, env, mod): return self.getattr(self.eval(e.value, env, mod), e.attr, e)
    def e_Tuple(self, e, env, mod): return tuple(self.elts(e.elts, env, mod))
    def e_List(self, e, env, mod): return VList(self.elts(e.elts, env, mod, True), self)
    def e_Set(self, e, env, mod):
        s = VSet([], self)
        for x in self.elts(e.elts, env, mod): self.set_add(s, x, e)
        return s
    def elts(self, es, env, mod, segs=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env, mod)
                if segs: out += self.to_list(v, x).items
                else: out += self.items(v, x)
            else: out.append(self.eval(x, env, mod))
        return out
    def e_Dict(self, e, env, mod):
        d = VDict([], self)
        for k, v in zip(e.keys, e.values):
            if k is None: self.method(d, "update", [self.eval(v, env, mod)], {}, e)
            else:
                kk = self.eval(k, env, mod); self.dict_set(d, kk, self.eval(v, env, mod), e)
        return d
    def e_JoinedStr(self, e, env, mod):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant): out.append(p.value); continue
            v = self.eval(p.value, env, mod)
            out.append(self.to_str(v, e) if p.format_spec is None and p.conversion in (-1, 115) else anytext(("fmt", e.lineno, len(out))))
        return mkstr(out)
    def to_str(self, v, n):
        if is_str(v): return v
        if v is None or isinstance(v, (int, float)): return str(v)
        if isinstance(v, Exc) and len(v.args) == 1 and is_str(v.args[0]): return v.args[0]
        return anytext(("str", getattr(n, "lineno", 0), type(v).__name__, repr(v)[:60]))
    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.eval(x, env, mod)
            if x is e.values[-1]: return v
            if self.truth(v, e) != isand: return v
    def e_UnaryOp(self, e, env, mod):
        v = self.eval(e.operand, env, mod)
        if isinstance(e.op, ast.Not): return not self.truth(v, e)
        if isinstance(e.op, ast.USub) and self.is_int(v): return self.unlin(self.lin(v).scale(-1))
        if isinstance(e.op, ast.USub) and isinstance(v, float): return -v
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int): return ~v
        self.err(e, "unary operator on %r" % (v,))
    def e_BinOp(self, e, env, mod):
        a = self.eval(e.left, env, mod); b = self.eval(e.right, env, mod)
        return self.binop(BINOPS.get(type(e.op), "?"), a, b, e)
    def binop(self, op, a, b, n):
        if isinstance(a, Idx) and op in "+-" and isinstance(b, int):
            j = a.i + (b if op == "+" else -b)
            if not any(isinstance(x, Seg) for x in a.lst.items): return a.i + (b if op == "+" else -b)
            if op == "+" and b == 1: return Idx(a.lst, a.i + 1, a.lin + 1)
            self.err(n, "arithmetic on a position")
        if isinstance(a, Idx): a = a.lin
        if isinstance(b, Idx): b = b.lin
        if self.is_int(a) and self.is_int(b):
            if isinstance(a, Lin) or isinstance(b, Lin):
                x, y = self.lin(a), self.lin(b)
                if op == "+": return self.unlin(x + y)
                if op == "-": return self.unlin(x - y)
                if op == "*" and y.is_const(): return self.unlin(x.scale(y.c))
                if op == "*" and x.is_const(): return self.unlin(y.scale(x.c))
                self.err(n, "arithmetic %s on %r, %r" % (op, a, b))
            try: return eval("a %s b" % op, {}, {"a": a, "b": b})
            except ZeroDivisionError: self.throw(ZeroDivisionError, "division by zero")
        if op == "+" and is_str(a) and is_str(b): return mkstr([a, b])
        if op == "+" and isinstance(a, VList) and isinstance(b, VList): return VList(a.items + b.items, self)
        if op == "+" and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if op == "*" and (is_str(a) and isinstance(b, int) or is_str(b) and isinstance(a, int)):
            if isinstance(a, int): a, b = b, a
            return mkstr([a] * max(b, 0))
        if op == "*" and isinstance(a, VList) and isinstance(b, int): return VList(a.items * b, self)
        if op == "%" and is_str(a): return anytext(("fmt", getattr(n, "lineno", 0)))
        if op in "|&-^" and isinstance(a, (VSet, View)) and isinstance(b, (VSet, View)):
            out = VSet([], self)
            if op == "|":
                for x in (a, b): self.fill(x, n, out, lambda t, y: self.set_add(t, y, n))
            else:
                src = [(a, b)] if op in "&-" else [(a, b), (b, a)]
                for p, q in src:
                    def body(x, q=q):
                        if self.member(q, x, n) == (op == "&"): self.set_add(out, x, n)
                    self.loop(p, n, body)
            return out
        if op == "|" and isinstance(a, VDict) and isinstance(b, VDict):
            d = VDict([], self)
            for x in (a, b): self.method(d, "update", [x], {}, n)
            return d
        if op == "|" and (isinstance(a, (type, Class, Opaque)) or a is None): return (a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,)) if not isinstance(a, Opaque) else a
        if isinstance(a, (float, int)) and isinstance(b, (float, int)): return eval("a %s b" % op, {}, {"a": a, "b": b})
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque("%r%s%r" % (a, op, b))
        if isinstance(a, Inst) and isinstance(a.cls, Class):
            m = self.find_attr(a.cls, {"+": "__add__", "|": "__or__", "/": "__truediv__"}.get(op, "?"))
            if m: return self.call(Bound(m, a), [b], {}, n)
        if isinstance(a, Inst): return self.stub_binop(op, a, b, n)
        self.throw(TypeError, "unsupported operand type(s)")
    def stub_binop(self, op, a, b, n): self.throw(TypeError, "unsupported operand type(s)")
    def e_Compare(self, e, env, mod):
        a = self.eval(e.left, env, mod)
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r, env, mod)
            if not self.compare(op, a, b, e): return False
            a = b
        return True
    def compare(self, op, a, b, n):
        t = type(op)
        if t is ast.Eq: return self.eq(a, b, n)
        if t is ast.NotEq: return not self.eq(a, b, n)
        if t in (ast.Is, ast.IsNot):
            if isinstance(a, Opaque) and b is None: r = self.opaque_is_none(a, n)
            elif isinstance(a, (str, int, tuple)) and type(a) is type(b) or isinstance(a, (AStr, Lin)): r = self.eq(a, b, n) if type(a) is type(b) or is_str(a) and is_str(b) else False
            else: r = a is b
            return r == (t is ast.Is)
        if t is ast.In: return self.member(b, a, n)
        if t is ast.NotIn: return not self.member(b, a, n)
        return self.order({ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[t], a, b, n)
    def order(self, op, a, b, n):
        if isinstance(a, Idx): a = a.lin
        if isinstance(b, Idx): b = b.lin
        if self.is_int(a) and self.is_int(b):
            x, y = self.lin(a), self.lin(b)
            return self.cond(c_ge({"<": y - x - 1, "<=": y - x, ">": x - y - 1, ">=": x - y}[op]))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)): return eval("a %s b" % op, {}, {"a": a, "b": b})
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str): return eval("a %s b" % op, {}, {"a": a, "b": b})
            if a == b: return op in ("<=", ">=")
            k = ("strlt", repr(a), repr(b))
            return self.decide(k) == (op in ("<", "<="))
        if isinstance(a, (VSet, View)) and isinstance(b, (VSet, View)):
            if op == "<=": return self.subset(a, b, n)
            if op == ">=": return self.subset(b, a, n)
            if op == "<": return self.subset(a, b, n) and not self.subset(b, a, n)
            return self.subset(b, a, n) and not self.subset(a, b, n)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y, n): return self.order(op, x, y, n)
            return eval("a %s b" % op, {}, {"a": len(a), "b": len(b)})
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.decide(("order", op, repr(a), repr(b)))
        self.throw(TypeError, "'%s' not supported" % op)
    def e_IfExp(self, e, env, mod): return self.eval(e.body if self.truth(self.eval(e.test, env, mod), e) else e.orelse, env, mod)
    def e_NamedExpr(self, e, env, mod):
        v = self.eval(e.value, env, mod)
        t = env
        while getattr(t, "comp", False): t = t.up
        self.store(e.target.id, v, t, mod); return v
    def e_Lambda(self, e, env, mod):
        f = Func(e, env, mod); f.defaults = self.defaults(e.args, env, mod); return f
    def e_Subscript(self, e, env, mod):
        o = self.eval(e.value, env, mod)
        if isinstance(e.slice, ast.Slice):
            s = slice(*[self.eval(x, env, mod) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)])
            return self.slice(o, s, e) if not isinstance(o, Opaque) else self.opaque_index(o, s, e)
        return self.index(o, self.eval(e.slice, env, mod), e)
    def e_Starred(self, e, env, mod): self.err(e, "starred expression")
    def e_Yield(self, e, env, mod):
        t = env
        while not hasattr(t, "out"): t = t.up
        self.add_item(t.out, self.eval(e.value, env, mod) if e.value is not None else None)
    def e_YieldFrom(self, e, env, mod):
        t = env
        while not hasattr(t, "out"): t = t.up
        self.fill(self.eval(e.value, env, mod), e, t.out, lambda o, x: self.add_item(o, x))
    # comprehensions
    def comp(self, gens, env, mod, emit, i=0):
        """host generator over the element evaluations, lazily; yields (value, k)"""
        if i == len(gens):
            yield emit(env), None
            return
        g = gens[i]
        it = self.eval(g.iter, env, mod)
        for x, k in self.iter(it, g.iter):
            self.tick()
            sub = Env(env, (), self); sub.comp = True
            if k is not None: self.mult.append(k)
            d = len(self.mult)
            try:
                self.assign(g.target, x, sub, mod)
                ok = all(self.truth(self.eval(c, sub, mod), c) for c in g.ifs)
                if ok:
                    for v, k2 in self.comp(gens, sub, mod, emit, i + 1):
                        if k is not None: 
                            if k2 is not None: k2 = Lin.of(sym(("prod", repr(k), repr(k2)), 0, INF))
                            else: k2 = k
                            # what the consumer adds is multiplied by the consumer
                            top = self.mult.pop()
                            try: yield v, k2
                            finally: self.mult.append(top)
                        else: yield v, k2
            finally:
                if k is not None: self.mult.pop()
    def e_GeneratorExp(self, e, env, mod): return Gen(self.comp(e.generators, env, mod, lambda en: self.eval(e.elt, en, mod)))
    def e_ListComp(self, e, env, mod): return self.fill(self.e_GeneratorExp(e, env, mod), e, VList([], self), lambda t, x: self.add_item(t, x))
    def e_SetComp(self, e, env, mod): return self.fill(self.e_GeneratorExp(e, env, mod), e, VSet([], self), lambda t, x: self.set_add(t, x, e))
    def e_DictComp(self, e, env, mod):
        g = Gen(self.comp(e.generators, env, mod, lambda en: (self.eval(e.key, en, mod), self.eval(e.value, en, mod))))
        return self.fill(g, e, VDict([], self), lambda t, x: self.dict_set(t, x[0], x[1], e))
    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            t = env
            while t is not None and not hasattr(t, "fn"): t = t.up
            return Super(t.fn.cls, t.me)
        if isinstance(e.func, ast.Name) and e.func.id in ("range", "len") and e.func.id == "range" and len(e.args) in (1, 2):
            last = e.args[-1]
            if isinstance(last, ast.Call) and isinstance(last.func, ast.Name) and last.func.id == "len" and len(last.args) == 1:
                c = self.eval(last.args[0], env, mod)
                if isinstance(c, VList) and any(isinstance(x, Seg) for x in c.items):
                    a = self.eval(e.args[0], env, mod) if len(e.args) == 2 else 0
                    return Range(a, self.len(c), 1, c)
        f = self.eval(e.func, env, mod)
        args = self.elts(e.args, env, mod); kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env, mod)
                if not isinstance(d, VDict): self.err(e, "** of %r" % (d,))
                for x in d.items: kw[x[0]] = x[1]
            else: kw[k.arg] = self.eval(k.value, env, mod)
        if f is locals: pass
        self.cur_env = env
        return self.call(f, args, kw, e)
    def e_Await(self, e, env, mod): self.err(e, "await")
    def e_Slice(self, e, env, mod): return slice(*[self.eval(x, env, mod) if x is not None else None for x in (e.lower, e.upper, e.step)])
class Range:
    def __init__(self, a, b, st=1, lst=None): self.a = a; self.b = b; self.st = st; self.lst = lst
    def iterate(self, it, n):
        if self.lst is not None:
            pos = Lin.of(0); start = self.a.i if isinstance(self.a, Idx) else self.a
            if isinstance(start, Lin): it.err(n, "range")
            for i, x in enumerate(self.lst.items):
                k = x.k if isinstance(x, Seg) else None
                if isinstance(self.a, Idx) and i < start: pos = pos + (it.lin(k) if k is not None else 1); continue
                if not isinstance(self.a, Idx) and start > 0:
                    if k is not None: it.err(n, "range start inside a summarised list")
                    start -= 1; pos = pos + 1; continue
                if k is None: yield Idx(self.lst, i, pos), None; pos = pos + 1
                elif it.pos(k):
                    j = sym(("at", repr(pos), repr(k)), 0, INF)
                    yield Idx(self.lst, i, pos + Lin.of(j)), k
                    pos = pos + it.lin(k)
            return
        a, b = self.a, self.b
        if isinstance(a, Idx): a = a.lin
        if isinstance(a, int) and isinstance(b, int):
            for i in range(a, b, self.st): yield i, None
        else: it.err(n, "range over %r, %r" % (a, b))
def has_yield(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        st.extend(ast.iter_child_nodes(n))
    return False
