"""Language-generic abstract evaluator over the common syntax tree.  Language modules subclass Interp."""
from .base import N
from .core import *

class V: pass
INTS = {}
for b in (8, 16, 32, 64):
    INTS["u%d" % b] = (b, False); INTS["i%d" % b] = (b, True)
INTS["usize"] = (64, False); INTS["isize"] = (64, True)
def int_range(ty):
    b, s = INTS[ty]
    return (-(1 << (b-1)), (1 << (b-1)) - 1) if s else (0, (1 << b) - 1)
class Num(V):
    __slots__ = ("lin", "ty")
    def __init__(self, lin, ty="int"): self.lin = Lin.of(lin); self.ty = ty
    def __repr__(self): return "%r:%s" % (self.lin, self.ty)
class Bool(V):
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
    def __repr__(self): return "Bool(%r)" % self.c
class Str(V):
    """kind: 'lit' (text) | 'in' (path) | 'rd' (off, len)"""
    def __init__(self, kind, val, off=None, ln=None): self.kind = kind; self.val = val; self.off = off; self.ln = ln
    def key(self):
        if self.kind == "rd": return ("rd", self.off.key, self.ln.key)
        return (self.kind, self.val)
    def __repr__(self): return "Str%r" % (self.key(),)
class Bytes(V):
    """byte sequence: src = ('utf8', Str) | ('buf', Buf, off) | ('lit', bytes) ; ln Lin"""
    def __init__(self, src, ln): self.src = src; self.ln = Lin.of(ln)
    def __repr__(self): return "Bytes(%r,%r)" % (self.src, self.ln)
class Own(V):
    """anything with mutable fields"""
    pass
class Obj(Own):
    """kind: obj (reference) | val (copied on assignment)"""
    def __init__(self, ctx, cls, fields=None, kind="obj"):
        self.cls = cls; self.f = Cells(ctx, fields or {}, self); self.seq = self.f.seq; self.kind = kind
    def __repr__(self): return "Obj<%s#%d>" % (self.cls, self.seq)
class ListV(Own):
    """segments: ('one', v) | ('loop', N, ix, v, dom) | ('in', path, N, mk) | ('fill', N, v) | ('hist', N, tag)"""
    aid = None             # which allocation it is (only followed in languages that release memory by hand)
    def __init__(self, ctx, segs=(), ty=None):
        self.f = Cells(ctx, {"segs": tuple(segs)}, self); self.seq = self.f.seq; self.ty = ty
    @property
    def segs(self): return self.f["segs"]
    def length(self):
        n = Lin(0)
        for s in self.segs: n = n + seg_len(s)
        return n
    def __repr__(self): return "List#%d%r" % (self.seq, [s[0] for s in self.segs])
def seg_len(s):
    if s[0] == "one": return Lin(1)
    if s[0] in ("loop", "fill", "hist", "bulk", "elems"): return s[1]
    if s[0] == "in": return s[2]
    raise AnalysisError("segment")
class Ptr(V):
    """address of a cell"""
    def __init__(self, cells, key): self.cells = cells; self.k = key
    def __repr__(self): return "Ptr(#%d,%r)" % (self.cells.seq, self.k)
class NullV(V):
    def __repr__(self): return "null"
NULL = NullV()
class UninitV(V):
    def __repr__(self): return "uninit"
UNINIT = UninitV()
class Tup(V):
    def __init__(self, els, names=None): self.els = list(els); self.names = names
    def __repr__(self): return "Tup%r" % (self.els,)
class EnumV(V):
    """value of enum type with known numeric value lin; names known through the declared table"""
    def __init__(self, enum, lin): self.enum = enum; self.lin = Lin.of(lin)
    def __repr__(self): return "Enum<%s>(%r)" % (self.enum, self.lin)
class Opq(V):
    def __init__(self, tag, *a): self.tag = tag; self.a = a
    def __repr__(self): return "Opq(%s%s)" % (self.tag, "".join(",%r" % (x,) for x in self.a))
class FnV(V):
    def __init__(self, fn, this=None, env=None): self.fn = fn; self.this = this; self.env = env
class TypeV(V):
    def __init__(self, ty, decl=None): self.ty = ty; self.decl = decl
    def __repr__(self): return "Type(%r)" % (self.ty,)
class NSV(V):
    def __init__(self, name, tbl): self.name = name; self.tbl = tbl
class ErrV(V):
    def __init__(self, kind="error"): self.kind = kind
    def __repr__(self): return "Err(%s)" % self.kind
class Variant(V):
    """tagged value: Ok/Err/Some/None or message variants"""
    def __init__(self, tag, args=(), enum=None): self.tag = tag; self.args = list(args); self.enum = enum
    def __repr__(self): return "%s%r" % (self.tag, self.args)
class Buf(V):
    """input or output byte buffer"""
    def __init__(self, name, length): self.name = name; self.length = Lin.of(length)
    def __repr__(self): return "Buf(%s)" % self.name
class BufPtr(V):
    """pointer / slice into a buffer: start offset and (for slices) length"""
    def __init__(self, buf, off, ln=None): self.buf = buf; self.off = Lin.of(off); self.ln = ln
    def __repr__(self): return "BufPtr(%r,%r,%r)" % (self.buf, self.off, self.ln)

class Scope(Own):
    def __init__(self, ctx, parent=None): self.f = Cells(ctx, (), self); self.parent = parent; self.defers = None
    def find(self, n):
        s = self
        while s is not None:
            if n in s.f: return s
            s = s.parent
        return None

class RetX(Exception):
    def __init__(self, v): self.v = v
class BrkX(Exception):
    def __init__(self, label=None, v=None): self.label = label; self.v = v
class ContX(Exception):
    def __init__(self, label=None): self.label = label
class ThrowX(Exception):
    def __init__(self, v): self.v = v

MASKW = {"u": False, "s": True, "b": False}

class Interp:
    lang = "?"
    cap = 1 << 60
    value_structs = False     # struct assignment copies
    def __init__(self, decls, schema=None):
        self.decls = decls; self.schema = schema
        self.funcs = {}; self.structs = {}; self.enums = {}; self.globals_ast = {}
        self.index(decls)
        self.ctx = None
    def index(self, decls, prefix=""):
        for d in decls:
            if d.k == "fn": self.funcs.setdefault(d.name, d)
            elif d.k == "struct": self.structs.setdefault(d.name, d)
            elif d.k == "enum": self.enums.setdefault(d.name, d)
            elif d.k == "var": self.globals_ast.setdefault(d.name, d)
            elif d.k == "ns": self.index(d.decls, prefix + d.name + ".")
    def err(self, n, m):
        raise AnalysisError("%s line %s: %s" % (self.lang, getattr(n, "line", "?"), m))
    # ------------------------------------------------------------------ runs
    def start(self, ctx):
        self.ctx = ctx
        self.gscope = Scope(ctx)
        self.genv_busy = set()
    def where(self):
        return "/".join(self.ctx.callstack) or "?"
    def note(self, prop, msg, construct=None):
        self.ctx.note(prop, construct or self.where(), msg)
    # ------------------------------------------------------------------ numbers
    def mk_bool(self, b): return Bool(T if b else F)
    def conv(self, v, ty):
        """convert a numeric value to integer/float type name ty (bits kept where the source fits the width)"""
        if isinstance(v, Bool): v = Num(self.b2i(v), "u8")
        if isinstance(v, EnumV): v = Num(v.lin, "int")
        if not isinstance(v, Num): return v
        if ty in INTS:
            if v.ty in ("f32", "f64") and not v.lin.is_const(): return Num(sym(("trunc", ty, v.lin.key), *int_range(ty)), ty)
            b, s = INTS[ty]; lo, hi = self.ctx.bounds(v.lin)
            rl, rh = int_range(ty)
            if v.lin.is_const() and isinstance(v.lin.c, float): v = Num(int(v.lin.c), ty); lo = hi = v.lin.c
            if lo >= rl and hi <= rh: return Num(v.lin, ty)
            if v.lin.is_const():
                c = v.lin.c & ((1 << b) - 1)
                return Num(c - (1 << b) if s and c >> (b-1) else c, ty)
            if self.ctx.entails_ge(v.lin - rl) and self.ctx.entails_ge(v.lin.scale(-1) + rh): return Num(v.lin, ty)
            if b == 64 and (lo < -(1 << 70) or hi > (1 << 70)): return Num(v.lin, ty)      # unbounded quantity: native width assumed
            if lo < rl and not self.ctx.branch(c_ge(v.lin - rl)): return Num(v.lin + (1 << b) if lo + (1 << b) >= rl else sym(("wrap", ty, v.lin.key), rl, rh), ty)
            if hi > rh and not self.ctx.branch(c_ge(v.lin.scale(-1) + rh)): return Num(v.lin - (1 << b) if hi - (1 << b) <= rh else sym(("wrap", ty, v.lin.key), rl, rh), ty)
            return Num(v.lin, ty)
        if ty == "f32" and v.ty == "f64" and not v.lin.is_const(): return Num(sym(("f64to32", v.lin.key)), ty)
        return Num(v.lin, ty)
    def b2i(self, v):
        """integer 0/1 of a condition"""
        c = v.c
        if c.k == "t": return Lin(1)
        if c.k == "f": return Lin(0)
        if c.k == "in":
            s = c.a
            base = s.allowed if s.allowed is not None else IntSet([(s.lo, s.hi)])
            if base == IntSet([(0, 1)]):
                if c.b == IntSet([(1, 1)]): return Lin.of(s)
                if c.b == IntSet([(0, 0)]): return Lin(1) - s
        d = self.ctx.decide(c)
        if d is not None: return Lin(1 if d else 0)
        return Lin.of(sym(("b2i", c.key), 0, 1))
    def num(self, v, n=None):
        if isinstance(v, Num): return v.lin
        if isinstance(v, Bool): return self.b2i(v)
        if isinstance(v, EnumV): return v.lin
        self.err(n, "number expected, got %r" % (v,))
    def truth(self, v, n=None):
        if isinstance(v, Bool): return v.c
        if isinstance(v, Num): return c_not(c_eq(v.lin))
        self.err(n, "condition expected, got %r" % (v,))
    def arith(self, op, a, b, n):
        ty = self.result_type(a, b)
        x, y = self.num(a, n), self.num(b, n)
        if op == "+": return Num(self.joined(x + y), ty)
        if op == "-": return Num(x - y, ty)
        if op == "*":
            if x.is_const(): return Num(y.scale(x.c), ty)
            if y.is_const(): return Num(x.scale(y.c), ty)
            return Num(sym(("mul", frozenset([x.key, y.key])), 0 if self.ctx.bounds(x)[0] >= 0 and self.ctx.bounds(y)[0] >= 0 else -INF), ty)
        if x.is_const() and y.is_const():
            if op == "/" and y.c: return Num((abs(x.c) // abs(y.c)) * (1 if (x.c < 0) == (y.c < 0) else -1) if isinstance(x.c, int) and isinstance(y.c, int) else x.c / y.c, ty)
            if op == "%" and y.c: return Num(x.c % y.c, ty)
            if op == "<<": return Num(x.c << y.c, ty)
            if op == ">>": return Num(x.c >> y.c, ty)
            if op == "&": return Num(x.c & y.c, ty)
            if op == "|": return Num(x.c | y.c, ty)
            if op == "^": return Num(x.c ^ y.c, ty)
        if op == "<<" and y.is_const() and isinstance(y.c, int) and 0 <= y.c < 64: return Num(x.scale(1 << y.c), ty)
        if op in ("|", "+", "^"):
            return Num(self.bitor(x, y), ty)
        if op == "&":
            for p, q in ((x, y), (y, x)):
                if q.is_const() and q.c >= 0 and (q.c & (q.c + 1)) == 0:
                    lo, hi = self.ctx.bounds(p)
                    if lo >= 0 and hi <= q.c: return Num(p, ty)
                    return Num(sym(("and", p.key, q.c), 0, q.c), ty)
        if op == ">>" and y.is_const():
            lo, hi = self.ctx.bounds(x)
            return Num(sym(("shr", x.key, y.c), lo >> y.c if lo not in (INF, -INF) else lo, hi >> y.c if hi not in (INF, -INF) else hi), ty)
        if op == "/" and y.is_const() and isinstance(y.c, int) and y.c > 0 and ty in INTS:
            lo, hi = self.ctx.bounds(x)
            if lo >= 0: return Num(sym((op, x.key, y.key), lo // y.c if lo != INF else 0, hi // y.c if hi != INF else INF), ty)
        return Num(sym((op, x.key, y.key)), ty)
    def joined(self, l):
        """consecutive input bytes put together little-endian are the wider read"""
        if l.c != 0 or not 2 <= len(l.t) <= 8: return l
        ps = []
        for s, a in l.t.items():
            k = s.key
            if not (isinstance(k, tuple) and k[0] == "rd" and k[3] == "u") or a <= 0 or not isinstance(a, int): return l
            ps.append((a, k[2], Lin(k[1][0], dict(k[1][1]))))
        ps.sort(key=lambda p: p[0]); w = 0
        for a, n, off in ps:
            if a != 1 << (8 * w) or off != ps[0][2] + w: return l
            w += n
        return Lin.of(self.rd(ps[0][2], w, "u").lin) if w in (2, 4, 8) else l
    def bitor(self, x, y):
        """x|y where operands occupy disjoint bits (byte assembly) -> sum"""
        def shape(l):
            lo, hi = self.ctx.bounds(l)
            if lo < 0 or hi == INF: return None
            g = l.c
            for s, a in l.t.items():
                if a < 0: return None
                g |= a
            low = (g & -g) if g else 1 << 70
            return low, hi
        sx, sy = shape(x), shape(y)
        if sx and sy and (sx[1] < sy[0] or sy[1] < sx[0]): return self.joined(x + y)
        return Lin.of(sym(("|", frozenset([x.key, y.key]))))
    def result_type(self, a, b):
        ta = a.ty if isinstance(a, Num) else "int"; tb = b.ty if isinstance(b, Num) else "int"
        if ta == tb: return ta
        if ta == "int": return tb
        if tb == "int": return ta
        if ta in ("f64", "num") or tb in ("f64", "num"): return "f64" if "num" not in (ta, tb) else "num"
        if ta in INTS and tb in INTS: return ta if INTS[ta][0] >= INTS[tb][0] else tb
        return ta
    def compare(self, op, a, b, n):
        if op in ("==", "!=", "===", "!=="):
            c = self.equal(a, b, n)
            return Bool(c_not(c) if op[0] == "!" else c)
        x, y = self.num(a, n), self.num(b, n)
        if op == "<": return Bool(c_ge(y - x - 1))
        if op == "<=": return Bool(c_ge(y - x))
        if op == ">": return Bool(c_ge(x - y - 1))
        if op == ">=": return Bool(c_ge(x - y))
        self.err(n, "comparison " + op)
    def radix_eq(self, d):
        """d = 0, where a number put together from separate input bytes (in any order) is one equality per byte"""
        if 2 <= len(d.t) <= 8:
            ps = []
            for s, a in d.t.items():
                k = s.key
                if not (isinstance(k, tuple) and len(k) == 4 and k[0] == "rd" and k[2] == 1 and k[3] == "u"): break
                ps.append((abs(a), a > 0, s))
            if len(ps) == len(d.t) and len({q for _, q, _ in ps}) == 1 and sorted(a for a, _, _ in ps) == [256 ** i for i in range(len(ps))]:
                v = -d.c if ps[0][1] else d.c
                if not 0 <= v < 256 ** len(ps): return F
                c = T
                for a, _, s in sorted(ps, key=lambda p: -p[0]): c = c_and(c, c_eq(Lin.of(s) - (v // a) % 256))
                return c
        return c_eq(d)
    def equal(self, a, b, n):
        if isinstance(a, (Num, EnumV)) and isinstance(b, (Num, EnumV)): return self.radix_eq(self.num(a) - self.num(b))
        if isinstance(a, Bool) and isinstance(b, Bool):
            if b.c.k == "t": return a.c
            if b.c.k == "f": return c_not(a.c)
            if a.c.k == "t": return b.c
            if a.c.k == "f": return c_not(b.c)
            return c_eq(self.b2i(a) - self.b2i(b))
        if isinstance(a, (Bool, Num)) and isinstance(b, (Bool, Num)): return c_eq(self.num(a) - self.num(b))
        if a is NULL or b is NULL:
            o = b if a is NULL else a
            return self.is_null(o, n)
        if isinstance(a, ErrV) and isinstance(b, ErrV): return T if a.kind == b.kind else F
        if isinstance(a, Str) and isinstance(b, Str):
            if a.kind == "lit" and b.kind == "lit": return T if a.val == b.val else F
            for p, q in ((a, b), (b, a)):
                if p.kind == "lit" and (q.kind == "rd" or q.kind == "rdenc" and p.val.isascii() and "?" not in p.val): return self.rd_equals(q.off, q.ln, p.val.encode(), n)
                if p.kind == "lit" and p.val == "":
                    return c_eq(self.str_ulen(q))
                if p.kind == "alt" and q.kind == "lit": return Cond("op", ("sametext", p.key(), q.val))
        if isinstance(a, Bytes) and isinstance(b, Bytes): return self.bytes_equal(a, b, n)
        if isinstance(a, TypeV) and isinstance(b, TypeV): return T if self.type_key(a.ty) == self.type_key(b.ty) else F
        if isinstance(a, Variant) and isinstance(b, Variant): return T if a.tag == b.tag else F
        self.err(n, "equality of %r and %r" % (a, b))
    def type_key(self, t): return t
    def is_null(self, v, n):
        if v is NULL: return T
        if isinstance(v, (Obj, ListV, Ptr, BufPtr, Str, FnV)): return F
        if isinstance(v, Opq): return Cond("op", ("null", v.tag) + tuple(map(repr, v.a)))
        self.err(n, "null test of %r" % (v,))
    # ------------------------------------------------------------------ input buffer model
    def rd(self, off, width, kind):
        """symbolic little-endian value of width bytes at offset"""
        off = Lin.of(off)
        key = ("rd", off.key, width, kind)
        if kind == "f": return Num(sym(key), "f%d" % (8 * width))
        lo, hi = ((0, (1 << 8*width) - 1) if kind == "u" else (-(1 << (8*width - 1)), (1 << (8*width - 1)) - 1))
        return Num(sym(key, lo, hi), ("u" if kind == "u" else "i") + str(8 * width))
    def rd_equals(self, off, ln, lit, n):
        """condition: the bytes at off.. equal a literal"""
        c = c_eq(Lin.of(ln) - len(lit))
        for i, b in enumerate(lit):
            c = c_and(c, c_eq(self.rd(Lin.of(off) + i, 1, "u").lin - b))
        return c
    def bytes_equal(self, a, b, n):
        for p, q in ((a, b), (b, a)):
            if p.src[0] == "lit" and q.src[0] == "buf": return self.rd_equals(q.src[2], q.ln, p.src[1], n)
            if p.src[0] == "lit" and q.src[0] == "lit": return T if p.src[1] == q.src[1] else F
            if p.src[0] == "utf8" and p.src[1].kind == "lit":
                return self.bytes_equal(Bytes(("lit", p.src[1].val.encode()), len(p.src[1].val.encode())), q, n)
        self.err(n, "byte comparison")
    def str_ulen(self, s):
        """UTF-8 length"""
        if s.kind == "lit": return Lin(len(s.val.encode()))
        if s.kind == "rd": return s.ln
        if s.kind == "alt": return Lin.of(sym(("ulen2", s.key()), 0))
        return Lin.of(self.in_len("ulen", s.val, self.schema.string_size))
    TEXT_OPS = set("trim trimstart trimend trimleft trimright trimmatches trimstartmatches trimendmatches tolower toupper tolowercase touppercase tolocalelowercase tolocaleuppercase tolowerinvariant toupperinvariant toasciilowercase toasciiuppercase lowercased uppercased normalize replace replaceall replacen replacingoccurrences trimmingcharacters reversed reverse padend padstart padleft padright remove insert substring substr slice prefix suffix dropfirst droplast repeat truncate title totitle trimspace trimprefix trimsuffix capitalized concat appending at charat normalized tovalidutf8 tovalidstring removeprefix removesuffix filter split join".split())
    def text_op(self, s, name, args=()):
        """another text made from s, of a length of its own; None when name is not such an operation"""
        if name.lower().replace("_", "") in ("startswith", "hasprefix") and isinstance(s, Str) and args and isinstance(args[0], Str):
            p = args[0]
            if s.kind == "lit" and p.kind == "lit": return Bool(T if s.val.startswith(p.val) else F)
            if s.kind in ("rd", "rdenc") and p.kind == "lit" and p.val.isascii():
                c = c_ge(Lin.of(s.ln) - len(p.val))
                for i, b in enumerate(p.val.encode()): c = c_and(c, c_eq(self.rd(Lin.of(s.off) + i, 1, "u").lin - b))
                return Bool(c)
            return Bool(Cond("op", ("startswith", s.key(), p.key())))
        if name.lower().replace("_", "") not in self.TEXT_OPS or not isinstance(s, Str): return None
        return Str("alt", (name.lower().replace("_", ""), s.key()) + tuple(a.lin.key if isinstance(a, Num) else repr(a) for a in args))
    def str_clen(self, s):
        """length in UTF-16 units: not the UTF-8 length for non-ASCII text"""
        if s.kind == "lit": return Lin(len(s.val))
        return Lin.of(sym(("clen", s.key()), 0))
    def in_len(self, what, path, ty):
        from .schema import RANGE
        return sym((what, path), 0, min(RANGE[ty][1], self.cap))
    # raw access to the input buffer with bounds obligation
    def in_bounds(self, buf, off, n, node=None, what="read"):
        ctx = self.ctx; off = Lin.of(off); n = Lin.of(n)
        ctx.count("bounds")
        ok = ctx.entails_ge(off) and ctx.entails_ge(buf.length - off - n)
        if not ok and ctx.decide(c_ge(n.scale(-1))) is True: return True
        return ok
    # ------------------------------------------------------------------ statements
    def run_block(self, n, scope):
        if n is None: return
        k = n.k
        if k == "block":
            sc = scope if getattr(n, "noscope", False) else Scope(self.ctx, scope)
            self.seq(n.body, sc)
        else: self.stmt(n, scope)
    def seq(self, body, sc):
        for s in body: self.stmt(s, sc)
    def tick(self):
        self.ctx.steps += 1
        if self.ctx.steps > 8000000: raise Budget("step budget")
    def stmt(self, n, sc):
        self.tick()
        m = getattr(self, "s_" + n.k, None)
        if m is None: self.err(n, "statement kind " + n.k)
        return m(n, sc)
    def s_block(self, n, sc): self.run_block(n, sc)
    def s_expr(self, n, sc): self.ev(n.e, sc)
    def s_decls(self, n, sc): self.err(n, "local declarations")
    def declare(self, sc, name, v):
        self.ctx.set(sc.f, name, v)
    def s_var(self, n, sc):
        v = UNINIT if n.init is None else self.copyval(self.ev_as(n.init, n.ty, sc))
        if n.init is None: v = self.zero_local(n.ty, n)
        if n.ty is not None: v = self.coerce(v, n.ty, n)
        self.declare(sc, n.name, v)
    def zero_local(self, ty, n): return UNINIT
    def ev_as(self, e, ty, sc):
        return self.ev(e, sc)
    def coerce(self, v, ty, n): return v
    def copyval(self, v): return v
    def s_if(self, n, sc):
        if self.ctx.branch(self.cond(n.c, sc)): self.run_block(n.a, sc)
        elif n.b is not None: self.run_block(n.b, sc)
    def cond(self, e, sc):
        """condition of an expression, short-circuit operands explored lazily"""
        if e.k == "bin" and e.op in ("&&", "and"):
            a = self.cond(e.l, sc)
            b = self.same_subject(a, e.r, sc)
            if b is not None: return c_and(a, b)
            if not self.ctx.branch(a): return F
            return self.cond(e.r, sc)
        if e.k == "bin" and e.op in ("||", "or"):
            a = self.cond(e.l, sc)
            b = self.same_subject(a, e.r, sc)
            if b is not None: return c_or(a, b)
            if self.ctx.branch(a): return T
            return self.cond(e.r, sc)
        if e.k == "un" and e.op == "!": return c_not(self.cond(e.e, sc))
        return self.truth(self.ev(e, sc), e)
    def same_subject(self, a, e, sc):
        """condition of an operand without effects that tests the same quantity as a: joined instead of branched on"""
        if a.k != "in" or not self.harmless(e, sc): return None
        b = self.cond(e, sc)
        return b if b.k == "in" and b.a is a.a or b.k in ("t", "f") else None
    def harmless(self, e, sc):
        """a comparison of plain variables and constants"""
        if e.k == "paren": return self.harmless(e.e, sc)
        if e.k in ("lit", "name"): return True
        if e.k == "mem": return e.o.k == "name" and sc.find(e.o.id) is None
        if e.k == "bin": return e.op in ("==", "!=", "===", "!==", "<", "<=", ">", ">=") and self.harmless(e.l, sc) and self.harmless(e.r, sc)
        return False
    def s_ret(self, n, sc):
        raise RetX(None if n.e is None else self.ev(n.e, sc))
    def s_brk(self, n, sc): raise BrkX(n.label)
    def s_cont(self, n, sc): raise ContX(n.label)
    def s_throw(self, n, sc): raise ThrowX(self.ev(n.e, sc) if n.e is not None else ErrV("rethrow"))
    def s_trycatch(self, n, sc):
        try:
            try: self.run_block(n.body, sc)
            except ThrowX as t:
                if not n.catches: raise
                nm, ty, b = n.catches[0]
                s2 = Scope(self.ctx, sc)
                if nm: self.declare(s2, nm, t.v)
                self.ctx.flags["caught"] = True
                self.run_block(b, s2)
        finally:
            if n.fin is not None: self.run_block(n.fin, sc)
    def s_switch(self, n, sc):
        v = self.ev(n.e, sc) if n.e is not None else None
        vs = []
        start = None; default = None
        for i, (pats, body) in enumerate(n.cases):
            if any(p is None for p in pats):
                default = i
            for p in pats:
                if p is None: continue
                c = self.case_cond(v, p, sc)
                vs.append((c, i))
        # group case labels of the same arm
        arms = []
        for c, i in vs:
            if arms and arms[-1][1] == i: arms[-1] = (c_or(arms[-1][0], c), i)
            else: arms.append((c, i))
        for c, i in arms:
            if self.ctx.branch(c): start = i; break
        if start is None: start = default
        if start is None: return
        s2 = Scope(self.ctx, sc)
        try:
            if n.fall:
                for pats, body in n.cases[start:]: self.run_block(body, s2)
            else:
                i = start
                while True:
                    b = n.cases[i][1]
                    if b.body and b.body[-1].k == "fallthrough":
                        self.seq(b.body[:-1], Scope(self.ctx, s2)); i += 1; continue
                    self.run_block(b, s2); break
        except BrkX as x:
            if x.label is not None and x.label != getattr(n, "label", None): raise
    def case_cond(self, v, p, sc):
        if v is None: return self.truth(self.ev(p, sc), p)
        return self.equal(v, self.case_value(p, v, sc), p)
    def case_value(self, p, v, sc): return self.ev(p, sc)
    # ------------------------------------------------------------------ loops
    # A loop is summarised from one generic iteration: a probe finds the cells it changes and how, the state is generalised
    # over the iteration index, the body is analysed once from that state, and the exit state is formed from the summary.
    def s_for3(self, n, sc):
        s2 = Scope(self.ctx, sc)
        for i in n.init: self.stmt(i, s2)
        self.loop(n, s2, cond=(lambda: T if n.c is None else self.cond(n.c, s2)), body=lambda: self.run_block(n.body, s2), step=lambda: self.step(n.step, s2))
    def step(self, st, sc):
        if st is None: return
        if st.k in ("masg", "defvar", "expr", "asgst"): self.stmt(st, sc)
        else: self.ev(st, sc)
    def s_while(self, n, sc):
        self.loop(n, sc, cond=lambda: self.cond(n.c, sc), body=lambda: self.run_block(n.body, sc), step=lambda: self.step(getattr(n, "step", None), sc))
    def s_dowhile(self, n, sc):
        # rotated: endless loop with the test at the end of the body
        def step():
            if not self.ctx.branch(self.cond(n.c, sc)): raise BrkX(None)
        self.loop(n, sc, cond=lambda: T, body=lambda: self.run_block(n.body, sc), step=step)
    def foreach(self, n, sc, N, bind, body=None):
        """counted loop: bind(scope, ixLin) declares the loop variables"""
        N = Lin.of(N)
        def it(ix):
            s2 = Scope(self.ctx, sc); bind(s2, ix)
            if body is not None: body(s2)
            else: self.run_block(n.body, s2)
        if N.is_const() and N.c <= 64:
            for i in range(max(N.c, 0)):
                if not self.iter_once(n, lambda: it(Lin(i))): break
            return
        if self.ctx.bounds(N)[1] <= 0: return
        if self.ctx.decide(c_ge(N)) is not True and not self.ctx.branch(c_ge(N)): return self.negative_count(n, N)
        def first(ix):
            self.ctx.assume(c_ge(N - ix - 1)); it(ix)
        mods = self.probe(n, None, first, None)
        self.generic(n, N, mods, None, it, None)
    def loop(self, n, sc, cond, body, step):
        mods = self.probe(n, cond, lambda ix: body(), step)
        N = self.recognise(cond, mods)
        if N is not None:
            lo, hi = self.ctx.bounds(N)
            if hi <= 0: return
            if lo < 0 and self.ctx.decide(c_ge(N)) is not True and not self.ctx.branch(c_ge(N)): return self.negative_count(n, N)
            if lo == hi and hi <= 64:
                for _ in range(int(hi)):
                    if not self.ctx.branch(cond()): return
                    if not self.iter_once(n, body): return
                    step()
                return
        self.generic(n, N, mods, cond, lambda ix: body(), step)
    def negative_count(self, n, N):
        """a loop over a negative count runs zero times: a negative length prefix treated as empty is tolerated"""
        raise PathEnd("negcount")
    def iter_once(self, n, f):
        """False when the loop is left by break"""
        lab = getattr(n, "label", None)
        try: f()
        except BrkX as x:
            if x.label is None or x.label == lab: return False
            raise
        except ContX as x:
            if x.label is None or x.label == lab: return True
            raise
        return True
    def _nochoose(self, cond):
        ctx = self.ctx
        class NoChoice(Exception): pass
        def bad(n, pref=0):
            if n == 1: return 0
            raise NoChoice()
        ctx.choose = bad
        try: return cond()
        except (NoChoice, PathEnd): return None
        finally: del ctx.choose
    def loopkey(self, n):
        ctx = self.ctx
        return (id(n), tuple(ctx.callstack), ctx.seq, tuple(o for o, c in ctx.taken), tuple(l[0] for l in ctx.loops), tuple(ctx.ptags))
    def probe(self, n, cond, body, step):
        """cells changed by an iteration -> list of (cells.seq, key, class, data)"""
        ctx = self.ctx
        key = ("probe", self.loopkey(n))
        got = ctx.shared.get(key)
        if got is None:
            mods = self.probe_round(n, cond, lambda: body(Lin(0)), step, [], 0)
            kx = sym(("k?", len(ctx.callstack), ctx.probing), 0)
            m = ctx.mark()
            try:
                self.generalise(mods, Lin.of(kx), {}, True)
                mods2 = self.probe_round(n, cond, lambda: body(Lin.of(kx)), step, mods, 1)
            finally: ctx.rollback(m)
            have = {(a, b) for a, b, c, d in mods}
            for a, b, c, d in mods2:
                if (a, b) not in have: mods.append((a, b, "opaque", None))
            # a cell whose change differs in kind between the first and the general iteration is opaque
            two = {(a, b): (c, d) for a, b, c, d in mods2}
            out = []
            for a, b, c, d in mods:
                t = two.get((a, b))
                if t is not None and t[0] != c and not (c == "lin" and t[0] == "sum" and False): c, d = ("opaque", None) if "opaque" in (c, t[0]) or {c, t[0]} != {"lin", "sum"} else ("sum", d)
                out.append((a, b, c, d))
            got = ctx.shared[key] = out
        return got
    def probe_round(self, n, cond, body, step, known, tag):
        ctx = self.ctx
        m = ctx.mark(); seq0 = ctx.seq; base = len(ctx.log)
        savevec, savepos = ctx.vec, ctx.pos
        found = {}; vec = []; tries = 0; t0 = len(ctx.taken)
        ctx.probing += 1; ctx.ptags.append((id(n), tag))
        try:
            while True:
                tries += 1
                if tries > 4000: raise Budget("loop probe at line %s" % getattr(n, "line", "?"))
                ctx.vec = [0] * ctx.pos + vec
                normal = False
                ctx.events = []
                try:
                    if cond is None or ctx.branch(cond()):
                        if self.iter_once(n, body):
                            if step: step()
                            normal = True
                except (RetX, ThrowX, PathEnd, BrkX, ContX): pass
                if normal:
                    first = {}
                    for d, k, old, _ in ctx.log[base:]:
                        if d.seq > seq0: continue
                        first.setdefault((d.seq, k), (d, old))
                    for (sq, k), (d, old) in first.items():
                        new = d.get(k, KeyError)
                        if new is old: continue
                        c = self.classify(old, new)
                        if c is None: continue
                        if c[0] == "num" and ctx.bounds(c[1])[0] >= 0: ctx.shared[("nonneg", c[1].key)] = 1
                        found.setdefault((sq, k), []).append(c)
                t = ctx.taken[t0:]
                ctx.rollback(m)
                while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
                if not t: break
                vec = [o for o, _ in t[:-1]] + [t[-1][0] + 1]
        finally:
            ctx.vec, ctx.pos = savevec, savepos
            ctx.probing -= 1; ctx.ptags.pop()
        out = []
        for (sq, k), cs in found.items():
            kinds = {c[0] for c in cs}
            if kinds == {"num"}:
                ds = [c[1] for c in cs]
                best = max(ds, key=lambda d: len(d.t))
                cl = ("lin", best) if best.is_const() and all(d == best for d in ds) else ("sum", best)
            elif kinds == {"append"} and len({c[1] for c in cs}) == 1: cl = ("append", cs[0][1])
            elif kinds == {"set"}: cl = ("set", None)
            else: cl = ("opaque", None)
            out.append((sq, k) + cl)
        return out
    def classify(self, old, new):
        if isinstance(old, Num) and isinstance(new, Num):
            d = new.lin - old.lin
            if d.is_const() and d.c == 0: return None
            return ("num", d)
        if isinstance(old, tuple) and isinstance(new, tuple):      # list segments
            if old == new: return None
            if len(new) == len(old) + 1 and new[:len(old)] == old and new[-1][0] == "one": return ("append", 1)
            if len(new) == len(old) and sum(1 for a, b in zip(old, new) if a is not b) == 1:
                for a, b in zip(old, new):
                    if a is not b and a[0] == "fill" and b[0] == "fill" and a[1] == b[1]: return ("set", None)
            return ("opaque", None)
        if old is not KeyError and digest(old) == digest(new): return None
        return ("opaque", None)
    def recognise(self, cond, mods):
        """counted loop: condition linear in one induction variable -> N"""
        ctx = self.ctx; m = ctx.mark()
        kx = sym(("k!",), 0)
        try:
            self.generalise(mods, Lin.of(kx), {}, True)
            c = self._nochoose(cond)
        finally:
            ctx.rollback(m)
        if c is None: return None
        l = None
        if c.k == "ge": l = c.a
        elif c.k == "in" and c.a is kx:
            if len(c.b.iv) == 1 and c.b.lo() <= 0 and c.b.hi() != INF: return Lin(c.b.hi() + 1)
            if len(c.b.iv) == 2 and c.b.iv[0][0] <= 0: return Lin(c.b.iv[0][1] + 1)
            return None
        elif c.k == "not" and c.a.k == "eq":
            l = c.a.a - 1 if c.a.a.t.get(kx, 0) < 0 else c.a.a.scale(-1) - 1
        if l is None or l.t.get(kx) is None: return None
        a = l.t[kx]
        if a >= 0: return None
        rest = l - Lin(0, {kx: a})
        for s in rest.syms():
            if isinstance(s.key, tuple) and s.key[0] in ("hv", "k!", "pre") and kx in s.deps: return None
            if isinstance(s.key, tuple) and s.key[0] == "hv": return None
        if a != -1:
            if rest.is_const(): return Lin(rest.c // -a + 1)
            return None
        return rest + 1
    def generalise(self, mods, ix, pre, tmp, tag=None):
        """state at the top of iteration ix"""
        ctx = self.ctx
        for sq, k, cl, data in mods:
            d = ctx.cells[sq]; old = d.get(k, KeyError)
            if cl == "lin": ctx.set(d, k, Num(old.lin + ix.scale(data.c), old.ty))
            elif cl == "sum":
                p = pre.get((sq, k))
                if p is None: p = sym(("hv", sq, k if isinstance(k, (str, int)) else repr(k), ix.key, tag))
                if pre.get((sq, k)) is None and tag is not None:
                    self.havoc_facts(p, old, data)
                    ctx.set(d, k, Num(Lin.of(p), old.ty))
                else: ctx.set(d, k, Num(old.lin + p, old.ty))
            elif cl == "append": ctx.set(d, k, old + (("hist", ix, (sq, k)),))
            elif cl == "set": pass
            else: ctx.set(d, k, self.havoc(old, sq, k, ix, tag))
    def havoc_facts(self, p, old, data): pass
    def havoc(self, old, sq, k, ix, tag):
        if isinstance(old, Num): return Num(sym(("hv", sq, repr(k), ix.key, tag)), old.ty)
        if isinstance(old, Bool): return Bool(c_in(sym(("hv", sq, repr(k), ix.key, tag), 0, 1), IntSet([(1, 1)])))
        if isinstance(old, tuple): return (("hist", Lin.of(sym(("hvn", sq, repr(k), ix.key, tag), 0)), (sq, k)),)
        return Opq("hv", sq, repr(k), ix.key, tag)
    def generic(self, n, N, mods, cond, body, step):
        ctx = self.ctx
        key = ("loop", self.loopkey(n))
        if N is not None: ix = sym(("ix", N.key), 0)
        else: ix = sym(("it", len([l for l in ctx.loops]), getattr(n, "line", 0)), 0)
        ixl = Lin.of(ix)
        pre = {}
        if N is not None:
            for sq, k, cl, data in mods:
                if cl == "sum":
                    lo = 0 if ctx.bounds(data)[0] >= 0 or ("nonneg", data.key) in ctx.shared else -INF
                    pre[(sq, k)] = sym(("pre", N.key, data.key), lo)
        before = {(sq, k): ctx.cells[sq].get(k, KeyError) for sq, k, cl, data in mods}
        dom0, facts0, memo0, ver0 = dict(ctx.dom), list(ctx.facts), dict(ctx.memo), ctx.ver
        self.generalise(mods, ixl, pre, False, key if N is None else None)
        top = {(sq, k): ctx.cells[sq].get(k, KeyError) for sq, k, cl, data in mods}
        segtop = {kk: v for kk, v in top.items()}
        outer = ctx.events; ctx.events = []
        ctx.loops.append((ix, N))
        logbase = len(ctx.log); seq0 = ctx.seq
        if N is not None:
            ctx.assume(c_ge(N - ixl - 1)); held = []; grows = []
            for sq, k, cl, data in mods:
                if not self.inductive or cl not in ("sum", "lin"): continue
                old = before[(sq, k)]; kk = (id(n), tuple(ctx.callstack), repr(k), "inside")
                if kk in ctx.shared.setdefault("dropped", set()) or not isinstance(old, Num): continue
                a, b = self.inside(old.lin), self.inside(top[(sq, k)].lin)
                if a is not None and ctx.entails_ge(a): ctx.assume(c_ge(b)); held.append((sq, k, kk))
            for sq, k, cl, data in mods:      # candidate: a quantity that never falls below its value before the loop
                old = before[(sq, k)]; kk = (id(n), tuple(ctx.callstack), repr(k), "mono")
                if not self.inductive or cl != "sum" or kk in ctx.shared.setdefault("dropped", set()) or not isinstance(old, Num) or ctx.bounds(Lin.of(pre[(sq, k)]))[0] >= 0: continue
                ctx.assume(c_ge(Lin.of(pre[(sq, k)]))); grows.append((sq, k, kk, old.lin))
        if N is None:
            self.loop_top(n, ix, mods, before, top, key)
            if not ctx.branch(cond()):
                ctx.loops.pop(); ev = ctx.events; ctx.events = outer
                if ev: ctx.events.append(("part", ev))
                self.loop_exit_free(n, ix, mods, before, top)
                return
        elif cond is not None and not ctx.branch(cond()):
            raise AnalysisError("%s line %s: counted loop not confirmed" % (self.lang, getattr(n, "line", "?")))
        alive = self.iter_once(n, lambda: body(ixl))
        if alive and step:
            try: step()
            except BrkX: alive = False
        if not alive:      # left by break: the state of this iteration continues
            ctx.loops.pop()
            ev = ctx.events; ctx.events = outer
            if ev: ctx.events.append(("part", ev))
            return
        # --- end of a complete iteration
        listed = {(a, b) for a, b, c, d in mods}
        for d, k, old, _ in ctx.log[logbase:]:
            if d.seq <= seq0 and (d.seq, k) not in listed and d.get(k, KeyError) is not old and digest(d.get(k, KeyError)) != digest(old):
                self.unlisted(n, d, k)
        ev = ctx.events; ctx.events = outer
        if N is not None and (held or grows):
            again = False
            for sq, k, kk, was in grows:
                now = ctx.cells[sq].get(k)
                if not isinstance(now, Num) or not ctx.entails_ge(now.lin - was): ctx.shared["dropped"].add(kk); again = True
            for sq, k, kk in held:
                now = ctx.cells[sq].get(k)
                if not isinstance(now, Num) or not ctx.entails_ge(self.inside(now.lin)): ctx.shared["dropped"].add(kk); again = True
            if again: raise Restart()
        self.iteration_end(n, N, ix)
        if N is None:
            ctx.loops.pop()
            after = {(sq, k): ctx.cells[sq].get(k, KeyError) for sq, k, cl, data in mods}
            self.back_edge(n, ix, mods, before, top, after, key, ev)
            raise PathEnd("backedge", (n, ix, mods, before, top, after, ev), n)
        ex = {}
        for sq, k, cl, data in mods:
            d = ctx.cells[sq]; now = d.get(k, KeyError); old = before[(sq, k)]
            if cl == "lin":
                dl = now.lin - top[(sq, k)].lin if isinstance(now, Num) else None
                ex[(sq, k)] = Num(old.lin + N.scale(data.c), old.ty) if N.is_const() or True and dl == data or (dl is not None and ctx.decide(c_eq(dl - data)) is True) else self.havoc(old, sq, k, N, ("exit", key))
            elif cl == "sum":
                dl = now.lin - top[(sq, k)].lin
                canon = self.general((key, sq, repr(k), "d"), dl, len(dl.t), lambda c, d: equal_here(ctx, c, d))
                if equal_here(ctx, canon, dl):
                    ex[(sq, k)] = Num(old.lin + total(canon, N), old.ty)
                else: ex[(sq, k)] = self.havoc(old, sq, k, N, ("exit", key))
            elif cl == "append":
                tp = top[(sq, k)]
                if isinstance(now, tuple) and len(now) == len(tp) + 1 and now[:len(tp)] == tp and now[-1][0] == "one":
                    ex[(sq, k)] = old + (("loop", N, ix, self.template((key, sq, repr(k), "el"), now[-1][1])),)
                else: ex[(sq, k)] = self.havoc(old, sq, k, N, ("exit", key))
            elif cl == "set":
                segs = []
                for a in now:
                    if a[0] == "fill" and len(a) > 3 and a[1] == N and len(a[3]) == 1 and a[3][0][0] == ixl: segs.append(("loop", N, ix, self.template((key, sq, repr(k), "el"), a[3][0][1])))
                    elif a[0] == "fill" and len(a) > 3 and len(a[3]) >= 1: segs.append(("hist", a[1], ("partial", sq, k)))
                    else: segs.append(a)
                ex[(sq, k)] = tuple(segs)
            else:
                ex[(sq, k)] = now if not mentions(now, ix) else self.havoc(old, sq, k, N, ("exit", key))
        keep = []; mono = []
        for sq, k, cl, data in mods:      # what every complete iteration guarantees holds after the last one
            v = ex[(sq, k)]; old = before[(sq, k)]; now = ctx.cells[sq].get(k)
            if cl not in ("sum", "lin") or not isinstance(v, Num) or not isinstance(old, Num) or not isinstance(now, Num): continue
            if self.always((id(n), tuple(ctx.callstack), repr(k), "stays"), lambda: self.stays_inside(now)): keep.append((old, v))
            if cl == "sum" and ctx.bounds(v.lin - old.lin)[0] < 0 and self.always((id(n), tuple(ctx.callstack), repr(k), "grows"), lambda: ctx.entails_ge(now.lin - top[(sq, k)].lin)): mono.append(v.lin - old.lin)
        ctx.loops.pop()
        ctx.dom, ctx.facts, ctx.memo, ctx.ver = dom0, facts0, memo0, ver0
        for (sq, k), v in ex.items(): ctx.set(ctx.cells[sq], k, v)
        for old, v in keep: self.still_inside(old, v)
        for d in mono: ctx.assume(c_ge(d))
        if ev: ctx.events.append(("loop", N, ix, tuple(ev)))
        if not ctx.probing or True:
            dg = (key, tuple(sorted((sq, repr(k), digest(v)) for (sq, k), v in ex.items())), repr(ev))
            me = tuple(o for o, c in ctx.taken)
            own = ctx.shared.setdefault(("exit",) + dg + (ctx.probing,), me)
            if own != me: raise PathEnd("covered")
    def template(self, kk, v):
        """the element an iteration produced; when another path through the body produced one that is the same
        under what this path knows (a text of length n, here known to be empty), that more general one stands for both"""
        return self.general(kk, v, weight(v), self.stands_for)
    def general(self, kk, v, w, stands):
        sh = self.ctx.shared; canon = sh.get(kk); gen = sh.get("restarts", 0)
        if canon is not None and stands(canon[0], v): sh[kk + ("used",)] = gen; return canon[0]
        if canon is None or w > canon[1] or w == canon[1] and canon[2] < gen:
            sh[kk] = (v, w, gen)
            if canon is not None and sh.get(kk + ("used",)) == gen: raise Restart()
        sh[kk + ("used",)] = gen
        return v
    def stands_for(self, a, b, depth=0):
        """is the value a equal to b under the facts of this path"""
        ctx = self.ctx; eq = lambda x, y: equal_here(ctx, Lin.of(x), Lin.of(y))
        if a is b: return True
        if depth > 8 or type(a) is not type(b): return False
        if isinstance(a, Num): return a.ty == b.ty and eq(a.lin, b.lin)
        if isinstance(a, EnumV): return a.enum == b.enum and eq(a.lin, b.lin)
        if isinstance(a, Str):
            if a.key() == b.key(): return True
            if a.kind == "rd" and b.kind == "rd": return eq(a.ln, b.ln) and (eq(a.off, b.off) or eq(a.ln, 0))
            return a.kind == "rd" and b.kind == "lit" and b.val == "" and eq(a.ln, 0)
        if isinstance(a, Obj): return a.cls == b.cls and set(a.f) == set(b.f) and all(self.stands_for(a.f[k], b.f[k], depth + 1) for k in a.f)
        if isinstance(a, ListV):
            if digest(a) == digest(b): return True
            if not eq(a.length(), b.length()): return False
            if eq(b.length(), 0): return True
            return len(a.segs) == len(b.segs) and all(p[0] == q[0] and self.same_seg(p, q, eq, depth) for p, q in zip(a.segs, b.segs))
        if isinstance(a, Tup): return len(a.els) == len(b.els) and all(self.stands_for(x, y, depth + 1) for x, y in zip(a.els, b.els))
        return digest(a) == digest(b)
    def same_seg(self, p, q, eq, depth):
        if digest(p) == digest(q): return True
        if p[0] == "bulk": return eq(p[1], q[1]) and eq(p[2], q[2]) and p[3:] == q[3:]
        if p[0] == "loop": return eq(p[1], q[1]) and eq(p[2], q[2]) and self.stands_for(p[3], q[3], depth + 1)
        return p[0] == "one" and self.stands_for(p[1], q[1], depth + 1)
    def always(self, kk, f):
        """does f hold at the end of every complete iteration seen (a path that breaks what another relied on starts the analysis over)"""
        sh = self.ctx.shared; drop = sh.setdefault("dropped", set())
        if kk in drop: return False
        if f(): sh[("kept", kk)] = True; return True
        drop.add(kk)
        if ("kept", kk) in sh: raise Restart()
        return False
    def unlisted(self, n, d, k):
        self.err(n, "loop changes a cell its summary does not list (%r)" % (k,))
    def iteration_end(self, n, N, ix): pass
    inductive = False
    def inside(self, l):
        """a bound every position keeps (as an expression that is never negative), tried as an invariant of counted loops"""
        return None
    def stays_inside(self, now): return False
    def still_inside(self, old, v): pass
    def loop_top(self, n, ix, mods, before, top, key): pass
    def loop_exit_free(self, n, ix, mods, before, top): pass
    def back_edge(self, n, ix, mods, before, top, after, key, ev): pass
    # ------------------------------------------------------------------ expressions
    def ev(self, e, sc):
        self.tick()
        m = getattr(self, "e_" + e.k, None)
        if m is None: self.err(e, "expression kind " + e.k)
        return m(e, sc)
    def e_paren(self, e, sc): return self.ev(e.e, sc)
    def e_lit(self, e, sc):
        v = e.v; t = e.t
        if t == "bool": return Bool(T if v else F)
        if t == "int": return Num(v, self.suffix_type(e))
        if t == "float": return Num(v, "float")
        if t == "str": return Str("lit", v)
        if t == "bytes": return Bytes(("lit", v.encode("latin-1") if isinstance(v, str) else bytes(v)), len(v))
        if t == "null": return NULL
        if t == "char": return Num(ord(v) if isinstance(v, str) else v, "int")
        self.err(e, "literal " + str(t))
    def suffix_type(self, e): return "int"
    def e_name(self, e, sc):
        s = sc.find(e.id)
        if s is not None: return self.read_cell(s.f, e.id, e)
        return self.global_name(e.id, e, sc)
    def global_name(self, name, e, sc): self.err(e, "unknown name " + name)
    def read_cell(self, cells, k, e):
        v = cells.get(k, KeyError)
        if v is KeyError: self.err(e, "no field %r" % (k,))
        if v is UNINIT: return self.uninit_read(cells, k, e)
        return v
    def uninit_read(self, cells, k, e): return UNINIT
    def e_bin(self, e, sc):
        op = e.op
        if op in ("&&", "||", "and", "or"): return Bool(self.cond(e, sc))
        a = self.ev(e.l, sc); b = self.ev(e.r, sc)
        return self.binop(op, a, b, e)
    def binop(self, op, a, b, e):
        if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="): return self.compare(op, a, b, e)
        return self.arith(op, a, b, e)
    def e_un(self, e, sc):
        if e.op == "!" or e.op == "not": return Bool(c_not(self.cond(e.e, sc)))
        v = self.ev(e.e, sc)
        if e.op == "-": return Num(self.num(v, e).scale(-1), v.ty if isinstance(v, Num) else "int")
        if e.op == "+": return v
        return self.unop(e.op, v, e, sc)
    def unop(self, op, v, e, sc): self.err(e, "operator " + op)
    def e_cond(self, e, sc):
        c = self.cond(e.c, sc)
        return self.flag_value(c, self.ev(e.a if self.ctx.branch(c) else e.b, sc))
    def flag_value(self, c, v):
        """a constant chosen by a test of a quantity that equals it stands for the quantity (b ? 1 : 0)"""
        if c.k == "in" and isinstance(v, Num) and v.lin.is_const():
            base = c.a.allowed if c.a.allowed is not None else IntSet([(c.a.lo, c.a.hi)])
            if base == IntSet([(0, 1)]) and self.ctx.domain(c.a) == IntSet([(v.lin.c, v.lin.c)]): return Num(Lin.of(c.a), v.ty)
        return v
    def e_comma(self, e, sc):
        self.ev(e.l, sc); return self.ev(e.r, sc)
    def e_asg(self, e, sc):
        if e.op == "=":
            tgt = self.loc(e.l, sc)
            v = self.copyval(self.ev_as(e.r, None, sc))
            self.store(tgt, v, e)
            return v
        tgt = self.loc(e.l, sc); old = self.load(tgt, e)
        v = self.binop(e.op[:-1], old, self.ev(e.r, sc), e)
        if isinstance(old, Num) and isinstance(v, Num): v = self.conv(v, old.ty) if old.ty in INTS else Num(v.lin, old.ty)
        self.store(tgt, v, e)
        return v
    def e_pre(self, e, sc):
        tgt = self.loc(e.e, sc); old = self.load(tgt, e)
        v = Num(self.num(old, e) + (1 if e.op == "++" else -1), old.ty)
        self.store(tgt, v, e); return v
    def e_post(self, e, sc):
        tgt = self.loc(e.e, sc); old = self.load(tgt, e)
        self.store(tgt, Num(self.num(old, e) + (1 if e.op == "++" else -1), old.ty), e); return old
    # locations: ("cell", cells, key) or language specific
    def loc(self, e, sc):
        m = getattr(self, "l_" + e.k, None)
        if m is None: self.err(e, "assignment target " + e.k)
        return m(e, sc)
    def l_name(self, e, sc):
        s = sc.find(e.id)
        if s is None:
            s = self.global_cell(e.id, e, sc)
        return ("cell", s.f, e.id)
    def global_cell(self, name, e, sc): self.err(e, "unknown variable " + name)
    def l_paren(self, e, sc): return self.loc(e.e, sc)
    def load(self, t, e):
        if t[0] == "cell": return self.read_cell(t[1], t[2], e)
        if t[0] == "elem": return self.elem_load(t[1], t[2], e)
        if t[0] == "val": return t[1]
        self.err(e, "load " + t[0])
    def store(self, t, v, e):
        if t[0] == "cell":
            old = t[1].get(t[2], KeyError)
            self.ctx.set(t[1], t[2], self.fit(v, old, t, e))
        elif t[0] == "elem": self.list_set(t[1], t[2], v, e)
        elif t[0] == "drop": pass
        else: self.err(e, "store " + t[0])
    def fit(self, v, old, t, e): return v
    # ------------------------------------------------------------------ lists
    def list_get(self, l, i, e):
        """element at Lin index i"""
        ctx = self.ctx; i = Lin.of(i); pos = Lin(0)
        ctx.count("index")
        for s in l.segs:
            n = seg_len(s); rel = i - pos
            inside = ctx.entails_ge(rel) and ctx.entails_ge(n - rel - 1)
            if inside:
                if s[0] == "one": return s[1]
                if s[0] == "in": return s[3](rel)
                if s[0] == "bulk": return self.bulk_elem(s, rel)
                if s[0] == "loop": return subst(s[3], s[2], rel, ctx)
                if s[0] == "fill":
                    for ov in reversed(s[3] if len(s) > 3 else ()):
                        if ov[0] == rel: return ov[1]
                        if not (ctx.entails_ge(ov[0] - rel - 1) or ctx.entails_ge(rel - ov[0] - 1)): self.err(e, "aliasing element")
                    return s[2]
                return Opq("elem", i.key)
            pos = pos + n
        return self.index_oob(l, i, e)
    def bulk_elem(self, s, rel): return self.rd(s[2] + rel.scale(s[3]), s[3], s[4])
    def elem_load(self, l, i, e):
        """element for update in place: a still untouched value struct of a filled list becomes the element's own"""
        v = self.list_get(l, i, e)
        if isinstance(v, Obj) and v.kind == "val" and any(s[0] == "fill" and s[2] is v for s in l.segs):
            v = self.copyval(v); self.list_set(l, i, v, e)
        return v
    def index_oob(self, l, i, e):
        self.note("C09", "list index %r not proven inside the list of length %r" % (i, l.length()))
        raise PathEnd("index")
    def list_set(self, l, i, v, e):
        ctx = self.ctx; i = Lin.of(i); pos = Lin(0); segs = list(l.segs)
        for j, s in enumerate(segs):
            n = seg_len(s); rel = i - pos
            if ctx.entails_ge(rel) and ctx.entails_ge(n - rel - 1):
                if s[0] == "one": segs[j] = ("one", v)
                elif s[0] == "fill": segs[j] = ("fill", s[1], s[2], tuple(o for o in (s[3] if len(s) > 3 else ()) if o[0] != rel) + ((rel, v),))
                else: self.err(e, "element store into " + s[0])
                ctx.set(l.f, "segs", tuple(segs)); return
            pos = pos + n
        self.index_oob(l, i, e)
    def list_push(self, l, v):
        self.ctx.set(l.f, "segs", l.segs + (("one", v),))
    def list_concat(self, l, o):
        self.ctx.set(l.f, "segs", l.segs + o.segs)
    # ------------------------------------------------------------------ calls
    def invoke(self, fn, args, this=None, env=None, names=None, targs=None):
        """args: evaluated values in parameter order"""
        ctx = self.ctx
        if len(ctx.callstack) > 40: raise Budget("call depth")
        nm = (fn.cls + "." if getattr(fn, "cls", None) else "") + (fn.name if fn.k == "fn" else "lambda")
        ctx.callstack.append(nm)
        try:
            s = Scope(ctx, env or self.gscope)
            s.defers = []
            self.bind_this(s, fn, this)
            self.bind_params(s, fn, args)
            try:
                self.run_body(fn, s)
                r = None
            except RetX as x: r = x.v
            self.run_defers(s)
            return self.ret_value(fn, r, s)
        finally:
            if ctx.callstack and ctx.callstack[-1] == nm: ctx.callstack.pop()
    def run_body(self, fn, s): self.run_block(fn.body, s)
    def run_defers(self, s, err=False):
        while s.defers:
            d = s.defers.pop(); d(err)
    def ret_value(self, fn, r, s): return r
    def bind_this(self, s, fn, this):
        if this is not None: s.f["this"] = this
    def bind_params(self, s, fn, args):
        for i, p in enumerate(fn.params):
            nm, ty = self.param(p)
            if i >= len(args): v = self.default_arg(fn, i, s)
            else: v = args[i]
            v = self.copyval(v)
            s.f[nm] = self.coerce(v, ty, fn) if ty is not None else v
    def param(self, p): return p[0], p[1]
    def default_arg(self, fn, i, s): self.err(fn, "missing argument %d" % i)
    def fnscope(self, sc):
        while sc is not None:
            if sc.defers is not None: return sc
            sc = sc.parent

def total(d, N):
    """sum over all iterations of a per-iteration change (lengths that reach it are not negative)"""
    out = N.scale(d.c)
    for s, a in d.t.items():
        out = out + Lin(0, {sym(("S", N.key, s), 0 if s.lo >= 0 or s.key[0] in ("rd", "S", "mul") else -INF): a})
    return out
def digest(v, depth=0):
    if depth > 12: return "..."
    if isinstance(v, Obj): return "V<%s>{%s}" % (v.cls, ",".join("%s=%s" % (k, digest(x, depth + 1)) for k, x in sorted(v.f.items(), key=lambda p: str(p[0]))))
    if isinstance(v, ListV): return "L" + digest(v.segs, depth + 1)
    if isinstance(v, tuple): return "(" + ",".join(digest(x, depth + 1) for x in v) + ")"
    if isinstance(v, Tup): return "T" + digest(tuple(v.els), depth + 1)
    return repr(v)
def fixed_here(ctx):
    """quantities the path fixed to one value"""
    r = ctx.memo.get("fixed")
    if r is None or r[0] != ctx.ver:
        z = [(s, d.lo()) for s, d in ctx.dom.items() if not d.empty() and d.lo() == d.hi() and isinstance(d.lo(), int)]
        r = (ctx.ver, sorted(z, key=lambda p: p[0].seq), {}); ctx.memo["fixed"] = r
    return r
def plain(ctx, l):
    """l with every quantity the path fixed replaced by its value, also inside the positions of reads"""
    _, z, memo = fixed_here(ctx)
    for s, v in z: l = subst_lin(l, s, Lin(v), memo.setdefault(s, {}))
    return l
def equal_here(ctx, a, b):
    if a == b or ctx.decide(c_eq(a - b)) is True: return True
    if not fixed_here(ctx)[1]: return False
    return plain(ctx, a) == plain(ctx, b)
def weight(v, depth=0):
    """how much of the input a value depends on"""
    if depth > 8: return 0
    if isinstance(v, (Num, EnumV)): return len(v.lin.t)
    if isinstance(v, Str): return 1 if v.kind != "lit" else 0
    if isinstance(v, Obj): return sum(weight(x, depth + 1) for x in v.f.values())
    if isinstance(v, ListV): return sum(1 + (weight(s[3], depth + 1) if s[0] == "loop" else weight(s[1], depth + 1) if s[0] == "one" else 0) for s in v.segs)
    if isinstance(v, Tup): return sum(weight(x, depth + 1) for x in v.els)
    return 0
def mentions(v, ix, depth=0):
    if depth > 8: return True
    if isinstance(v, Num): return ix in v.lin.syms()
    if isinstance(v, Bool): return "ix" in repr(v) or "[i" in repr(v)
    if isinstance(v, (tuple, list)): return any(mentions(x, ix, depth + 1) for x in v)
    if isinstance(v, Lin): return ix in v.syms()
    if isinstance(v, Str): return any(ix in x.syms() for x in (v.off, v.ln) if isinstance(x, Lin)) or "Sym" in repr(v.val)
    if isinstance(v, (Obj, ListV)): return any(mentions(x, ix, depth + 1) for x in v.f.values())
    if isinstance(v, Tup): return mentions(v.els, ix, depth + 1)
    if hasattr(v, "parts"): return any(mentions(x, ix, depth + 1) for x in v.parts())
    if v in (NULL, UNINIT) or v is None or isinstance(v, (int, str, TypeV, FnV, ErrV)): return False
    return True

# ---- substitution of an index symbol in a value (reading element r of a summarised list)
def subst_key(k, a, r):
    if isinstance(k, Sym): return k
    if isinstance(k, tuple): return tuple(subst_key(x, a, r) for x in k)
    return k
def subst_sym(s, a, r, memo):
    if s is a: return r
    if a not in s.deps: return Lin.of(s)
    if s in memo: return memo[s]
    if s.key[0] == "S" and len(s.key) == 3 and isinstance(s.key[2], Sym):
        c, t = s.key[1]
        out = memo[s] = total(subst_sym(s.key[2], a, r, memo), subst_lin(Lin(c, dict(t)), a, r, memo)); return out
    def sub(k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], frozenset):      # a Lin key
            l = subst_lin(Lin(k[0], dict(k[1])), a, r, memo); return l.key
        if isinstance(k, tuple): return tuple(sub(x) for x in k)
        if isinstance(k, Lin): return subst_lin(k, a, r, memo)
        return k
    out = Lin.of(sym(sub(s.key), s.lo, s.hi, s.allowed)); memo[s] = out
    return out
def subst_lin(l, a, r, memo=None):
    memo = {} if memo is None else memo
    out = Lin(l.c)
    for s, c in l.t.items(): out = out + subst_sym(s, a, r, memo).scale(c)
    return out
def subst(v, a, r, ctx):
    """copy of v with index symbol a replaced by Lin r"""
    r = Lin.of(r)
    if r == Lin.of(a): return v
    memo = {}
    def go(v):
        if isinstance(v, Num): return Num(subst_lin(v.lin, a, r, memo), v.ty)
        if isinstance(v, EnumV): return EnumV(v.enum, subst_lin(v.lin, a, r, memo))
        if isinstance(v, Bool):
            c = v.c
            if c.k == "in":
                l = subst_sym(c.a, a, r, memo).one()
                if l and l[1] == 1 and l[2] == 0: return Bool(c_in(l[0], c.b))
            return v
        if isinstance(v, Str):
            if v.kind == "rd": return Str("rd", None, subst_lin(v.off, a, r, memo), subst_lin(v.ln, a, r, memo))
            if v.kind == "in": return Str("in", subst_path(v.val, a, r, memo))
            return v
        if isinstance(v, Obj): 
            if v.kind == "block": return v
            o = Obj(ctx, v.cls, {k: go(x) for k, x in v.f.items()}, v.kind); return o
        if isinstance(v, ListV):
            nl = ListV(ctx, tuple(seg(s) for s in v.segs), v.ty)
            if v.aid is not None: nl.aid = (v.aid[0], tuple(subst_lin(l, a, r, memo) for l in v.aid[1]))
            return nl
        if isinstance(v, Tup): return Tup([go(x) for x in v.els], v.names)
        if hasattr(v, "rebuild"): return v.rebuild(go, ctx)
        return v
    def seg(s):
        if s[0] == "one": return ("one", go(s[1]))
        if s[0] == "loop": return ("loop", subst_lin(s[1], a, r, memo), s[2], go(s[3]))
        if s[0] == "fill": return ("fill", subst_lin(s[1], a, r, memo), go(s[2])) + s[3:]
        if s[0] == "bulk": return ("bulk", subst_lin(s[1], a, r, memo), subst_lin(s[2], a, r, memo)) + s[3:]
        if s[0] == "in": return s
        return s
    return go(v)
def subst_path(p, a, r, memo):
    out = []
    for x in p:
        if isinstance(x, tuple) and x and x[0] == "#": out.append(("#", subst_lin(Lin(x[1][0], dict(x[1][1])), a, r, memo).key))
        else: out.append(x)
    return tuple(out)
