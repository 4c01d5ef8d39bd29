"""The oracle: what docs/protocols.md says a value looks like on the wire, as symbolic layouts, and comparison of abstract results with it."""
from .core import *
from .schema import NUM, RANGE
from .interp import *
from .interp import total, equal_here

def norm(n): return n.lower().replace("_", "")
class Mismatch:
    """cat: prefix | value | order | missing | enum | length"""
    def __init__(self, cat, path, msg): self.cat = cat; self.path = path; self.msg = msg
    def __repr__(self): return "%s at %s: %s" % (self.cat, ".".join(map(str, self.path)), self.msg)
def rd_sym(off, width, kind):
    off = Lin.of(off); key = ("rd", off.key, width, "f" if kind == "f" else "u" if kind in ("u", "b") else "s")
    if kind == "f": return sym(key)
    lo, hi = (0, (1 << 8*width) - 1) if kind in ("u", "b") else (-(1 << (8*width - 1)), (1 << (8*width - 1)) - 1)
    return sym(key, lo, hi)
class Layout:
    """symbolic decoding of one value at an offset of the input"""
    cap = 1 << 60
    def __init__(self, schema): self.S = schema; self.memo = {}
    def prefix(self, which, off):
        w, k = NUM[self.S.string_size if which == "s" else self.S.list_size]
        return rd_sym(off, w, k), w
    def decode(self, kind, off):
        """-> (tree, end, ends, enums): ends = offsets where some item ends, enums = (symbol, declared values), lens = prefix symbols"""
        off = Lin.of(off); key = (kind, off.key)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self._decode(kind, off)
        return r
    def _decode(self, kind, off):
        S = self.S
        if kind[0] == "num":
            w, k = NUM[kind[1]]; s = rd_sym(off, w, k)
            return ("num", kind[1], s), off + w, [off + w], [], []
        if kind[0] == "enum":
            w, k = NUM[S.storage(kind[1])]; s = rd_sym(off, w, k)
            return ("enum", kind[1], s), off + w, [off + w], [(s, tuple(v for _, v in S.enums[kind[1]]))], []
        if kind[0] == "str":
            p, w = self.prefix("s", off)
            return ("str", off + w, Lin.of(p)), off + w + p, [off + w, off + w + p], [], [p]
        if kind[0] == "list":
            p, w = self.prefix("l", off); N = Lin.of(p); P = off + w; ek = kind[1]
            ix = sym(("ix", N.key), 0)
            fs = S.fixed_size(ek)
            if fs is not None: el = P + Lin.of(ix).scale(fs)
            else:
                t0, e0, _, _, _ = self.decode(ek, P); d0 = e0 - P
                el = P + sym(("pre", N.key, d0.key), 0)
            t, e, ends, enums, lens = self.decode(ek, el)
            end = P + total(e - el, N)
            return ("list", N, ix, t), end, [P, P + N.scale(S.min_size(ek))] + ends + [end], enums, [p] + lens
        tree = []; ends = []; enums = []; lens = []; o = off
        for n, k in S.members(kind[1]):
            t, o, es, en, ls = self.decode(k, o)
            tree.append((n, k, t)); ends += es; enums += en; lens += ls
        return ("struct", kind[1], tree), o, ends, enums, lens
    # ---- output side
    def in_num(self, path, ty):
        if ty == "bool": return sym(("in", path), 0, 1)
        if ty in ("float", "double"): return sym(("in", path))
        return sym(("in", path), *RANGE[ty])
    def in_enum(self, path, e): return sym(("in", path), -(1 << 31), (1 << 31) - 1, IntSet.of([v for _, v in self.S.enums[e]]))
    def in_len(self, path): return sym(("len", path), 0, min(RANGE[self.S.list_size][1], self.cap))
    def in_ulen(self, path): return sym(("ulen", path), 0, min(RANGE[self.S.string_size][1], self.cap))
    def encode(self, kind, path, off):
        """-> (events, end)"""
        S = self.S; off = Lin.of(off)
        if kind[0] == "num":
            w, k = NUM[kind[1]]
            return [("w", off, w, "f" if k == "f" else "i", Lin.of(self.in_num(path, kind[1])), path, "value")], off + w
        if kind[0] == "enum":
            w, k = NUM[S.storage(kind[1])]
            return [("w", off, w, "i", Lin.of(self.in_enum(path, kind[1])), path, "enum")], off + w
        if kind[0] == "str":
            w, k = NUM[S.string_size]; u = Lin.of(self.in_ulen(path))
            return [("w", off, w, "i", u, path, "prefix"), ("utf8", off + w, path, u, path)], off + w + u
        if kind[0] == "list":
            w, k = NUM[S.list_size]; N = Lin.of(self.in_len(path)); P = off + w; ek = kind[1]
            ix = sym(("ix", N.key), 0); fs = S.fixed_size(ek)
            ep = path + (("#", Lin.of(ix).key),)
            if fs is not None: el = P + Lin.of(ix).scale(fs)
            else:
                _, e0 = self.encode(ek, path + (("#", Lin(0).key),), P); d0 = e0 - P
                el = P + sym(("pre", N.key, d0.key), 0)
            ev, e = self.encode(ek, ep, el)
            end = P + total(e - el, N)
            return [("w", off, w, "i", N, path, "prefix")] + ([("loop", N, ix, ev, path)] if ev else []), end
        out = []; o = off
        for n, k in S.members(kind[1]):
            ev, o = self.encode(k, path + (n,), o); out += ev
        return out, o
    def size(self, kind, path): return self.encode(kind, path, Lin(0))[1]

# ---------------------------------------------------------------- comparing a decoded value
def same(ctx, a, b):
    a = Lin.of(a); b = Lin.of(b)
    return equal_here(ctx, a, b)
def same_bits(ctx, a, b, width, kind):
    """the same low bytes"""
    if kind == "i":
        d = a - b
        if isinstance(d.c, int) and d.c % (1 << (8 * width)) == 0 and all(isinstance(k, int) and k % (1 << (8 * width)) == 0 for k in d.t.values()): return True
    return same(ctx, a, b)
def match(it, tree, v, path):
    """first mismatch between a language value and the expected tree, or None.  it: language interpreter (accessors)"""
    ctx = it.ctx; k = tree[0]
    if k == "num":
        ty = tree[1]; s = tree[2]
        if ty == "bool":
            c = it.as_cond(v)
            if c is None: return Mismatch("value", path, "is %r, not the byte read at its position" % (v,))
            dom = ctx.domain(s)
            if dom.lo() == dom.hi() and dom.lo() in (0, 1):
                ok = ctx.decide(c) is (dom.lo() == 1)
            elif c.k == "in" and c.a is s:
                ok = c.b.inter(IntSet([(0, 1)])) == IntSet([(1, 1)])
            else:
                # decide both outcomes under the two legal byte values
                ok = None
                for val in (0, 1):
                    m = ctx.mark()
                    try:
                        ctx.restrict(s, ctx.domain(s).inter(IntSet([(val, val)])))
                        if not ctx.dom[s].empty() and ctx.decide(c) is not (val == 1): ok = False
                    finally: ctx.rollback(m)
                ok = ok is None
            return None if ok else Mismatch("value", path, "boolean is %r" % c)
        l = it.as_num(v)
        if l is None or not same(ctx, canon_val(l, NUM[ty][0], NUM[ty][1]), s): return Mismatch("value", path, "is %r, expected the %s at %s" % (v, ty, s))
        return None
    if k == "enum":
        l = it.as_num(v)
        if it.enum_by_value and l is not None: return it.check_enum(tree, l, path)
        if l is None or not same(ctx, l, tree[2]):
            if l is not None and it.enum_value_ok(tree, l): return None
            return Mismatch("value", path, "is %r, expected the %s at %s" % (v, tree[1], tree[2]))
        return None
    if k == "str":
        g = it.as_text(v)
        if g is None: return Mismatch("value", path, "is %r, not the text read at its position" % (v,))
        off, ln = g
        if not same(ctx, ln, tree[2]): return Mismatch("prefix", path, "text has length %r, expected the prefix %r" % (ln, tree[2]))
        if not same(ctx, off, tree[1]) and ctx.decide(c_eq(ln)) is not True: return Mismatch("value", path, "text read at %r, expected %r" % (off, tree[1]))
        return None
    if k == "list":
        segs = it.as_list(v)
        if segs is None: return Mismatch("value", path, "is %r, not a list" % (v,))
        N = tree[1]
        n = Lin(0)
        for s in segs: n = n + seg_len(s)
        if not same(ctx, n, N): return Mismatch("prefix", path, "list has %r elements, expected the prefix %r" % (n, N))
        d = ctx.bounds(N)
        if d[1] <= 0 or ctx.decide(c_eq(N)) is True: return None
        if len(segs) == 1 and segs[0][0] == "loop": return match(it, tree[3], subst(segs[0][3], segs[0][2], Lin.of(tree[2]), ctx), path + ("[]",))
        if len(segs) == 1 and segs[0][0] == "bulk": return it.match_bulk(tree, segs[0], path)
        return Mismatch("value", path, "elements are %s, not the decoded elements" % ",".join(s[0] for s in segs))
    got = it.as_fields(v, tree[1])
    if got is None: return Mismatch("value", path, "is %r, not a %s" % (v, tree[1]))
    for n, kd, t in tree[2]:
        x = got.get(norm(n), KeyError)
        if x is KeyError: return Mismatch("missing", path + (n,), "no such member in the value")
        m = match(it, t, x, path + (n,))
        if m is not None: return m
    return None
def canon_val(l, width, kind=None):
    """strip conversions that keep the low bits"""
    l = Lin.of(l)
    while True:
        o = l.one()
        if o and o[1] == 1 and o[2] == 0 and isinstance(o[0].key, tuple) and o[0].key[0] == "wrap" and INTS[o[0].key[1]][0] >= 8 * width:
            c, t = o[0].key[2]; l = Lin(c, dict(t)); continue
        return l
# ---------------------------------------------------------------- comparing emitted bytes
def flatten(evs):
    out = []
    for e in evs:
        if e[0] == "part": out += flatten(e[1])
        elif e[0] == "loop":
            b = flatten(e[3])
            if len(b) == 1 and b[0][0] == "w" and b[0][2] == 1 and b[0][4].one() and isinstance(b[0][4].one()[0].key, tuple) and b[0][4].one()[0].key[0] == "u8at" and b[0][4].one()[1:] == (1, 0) \
               and b[0][4].one()[0].key[2] == Lin.of(e[2]).key and b[0][1].t.get(e[2]) == 1 and b[0][3] == "i":
                out.append(("utf8", b[0][1] - Lin.of(e[2]), b[0][4].one()[0].key[1], e[1]))
            else: out.append(("loop", e[1], e[2], b) + tuple(e[4:]))
        elif e[0] == "w" and e[2] > 1 and e[3] == "i" and e[4].is_const() and isinstance(e[4].c, int):
            for i in range(e[2]): out.append(("w", e[1] + i, 1, "i", Lin((e[4].c >> (8 * i)) & 255)) + tuple(e[5:]))
        elif e[0] == "w" and e[2] == 1 and e[4].is_const() and isinstance(e[4].c, int): out.append(("w", e[1], 1, e[3], Lin(e[4].c & 255)) + tuple(e[5:]))
        elif e[0] in ("w", "utf8", "msg", "bulk"): out.append(e)
    return out
def match_events(it, exp, got):
    """first mismatch or None"""
    ctx = it.ctx; got = flatten(got); exp = flatten(exp); j = 0
    got = [g for g in got if not (g[0] == "w" and g[2] == 0) and not (g[0] == "loop" and not g[3])]
    for i, e in enumerate(exp):
        if j >= len(got):
            if e[0] == "loop" and ctx.decide(c_eq(e[1])) is True: continue
            if e[0] == "utf8" and ctx.decide(c_eq(e[3])) is True: continue
            return Mismatch("missing", e[4] if e[0] != "w" else e[5], "%s is never written" % what(e))
        g = got[j]
        if e[0] == "loop" and ctx.decide(c_eq(e[1])) is True and g[0] != "loop": continue
        if e[0] == "utf8" and ctx.decide(c_eq(e[3])) is True and g[0] != "utf8": continue
        j += 1
        if e[0] == "w":
            path = e[5]; cat = "prefix" if e[6] == "prefix" else e[6]
            if g[0] != "w": return Mismatch("order", path, "%s expected, %s emitted" % (what(e), what(g)))
            if g[2] != e[2]: return Mismatch(cat, path, "%s is written with %d bytes" % (what(e), g[2]))
            if not same(ctx, g[1], e[1]): return Mismatch("order", path, "%s is written at %r, expected %r" % (what(e), g[1], e[1]))
            if g[3] != e[3]: return Mismatch(cat, path, "%s is written in another representation" % what(e))
            if not same_bits(ctx, canon_val(g[4], g[2]), canon_val(e[4], e[2]), g[2], g[3]): return Mismatch(cat, path, "%s: value written is %r" % (what(e), g[4]))
        elif e[0] == "utf8":
            if g[0] != "utf8": return Mismatch("order", e[4], "%s expected, %s emitted" % (what(e), what(g)))
            if g[2] != e[2]: return Mismatch("value", e[4], "text of %s written" % (g[2],))
            if not same(ctx, g[1], e[1]): return Mismatch("order", e[4], "text written at %r, expected %r" % (g[1], e[1]))
            if not same(ctx, g[3], e[3]): return Mismatch("value", e[4], "%r bytes of text written, expected %r" % (g[3], e[3]))
        elif e[0] == "msg":
            if g[0] != "msg": return Mismatch("order", e[4], "message expected, %s emitted" % what(g))
            if g[2] != e[2] or g[3] is not True or not same(ctx, g[1], e[1]): return Mismatch("order", e[4], "message written as %r" % (g,))
        elif e[0] == "loop":
            if g[0] != "loop": return Mismatch("missing", e[4], "%s expected, %s emitted" % (what(e), what(g)))
            if not same(ctx, g[1], e[1]): return Mismatch("length", e[4], "loop runs %r times, expected %r" % (g[1], e[1]))
            if g[2] is not e[2]: return Mismatch("length", e[4], "loop over %s" % (g[2],))
            m = match_events(it, e[3], g[3])
            if m is not None: return m
    if j < len(got): return Mismatch("order", exp[-1][5] if exp and exp[-1][0] == "w" else (), "additional %s emitted" % what(got[j]))
    return None
def what(e):
    if e[0] == "w":
        if len(e) > 6: return "%s of %s" % (e[6], ".".join(x if isinstance(x, str) else "[]" for x in e[5]))
        return "%d-byte write of %r" % (e[2], e[4])
    if e[0] == "utf8": return "text"
    return e[0]
