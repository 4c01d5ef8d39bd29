"""C34 / C35: region-and-effect analysis of the generators (abstract interpretation over the Python syntax tree).

Values are abstracted to the regions they may belong to: P (the protocol handed in, and everything reachable from it), A (the option
dictionary handed in), G:<name> (module level, class level and default-argument objects), S (the writer itself), F (fresh).
Every store, delete, in-place operator and mutating method call is an effect on the regions of its receiver."""
import ast
from . import pysrc
from .result import Result

MUT = {"append","extend","insert","remove","pop","clear","sort","reverse","update","setdefault","popitem","add","discard","difference_update","intersection_update","symmetric_difference_update","appendleft","popleft","extendleft","rotate","__setitem__","__delitem__","__setattr__","__delattr__","__iadd__","__ior__","subtract","move_to_end"}
ARGMUT = {"random.shuffle":0,"heapq.heappush":0,"heapq.heapify":0,"heapq.heappop":0,"bisect.insort":0,"operator.setitem":0,"operator.delitem":0,"setattr":0,"delattr":0,"object.__setattr__":0}
SCALAR = frozenset({"str","int","bool","float","none"})
STRM = {"splitlines","split","rsplit","partition","rpartition"}
STRS = {"lower","upper","strip","lstrip","rstrip","replace","join","format","capitalize","title","removeprefix","removesuffix","encode","decode","ljust","rjust","center","zfill","swapcase","casefold","expandtabs","translate"}
E = frozenset()
class V:
    __slots__ = ("r", "i", "k", "x")
    def __init__(self, r=E, i=E, k=E, x=None): self.r = frozenset(r); self.i = frozenset(i); self.k = frozenset(k); self.x = x
    def key(self): return (self.r, self.i, self.k, id(self.x) if self.x is not None and not isinstance(self.x, tuple) else tuple(id(z) if not isinstance(z, V) else z.key() for z in self.x) if self.x else None)
    def __eq__(self, o): return isinstance(o, V) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def scalar(self): return bool(self.k) and self.k <= SCALAR
    def __repr__(self): return "V(%s|%s|%s)" % (",".join(sorted(self.r)), ",".join(sorted(self.i)), ",".join(sorted(self.k)))
def join(a, b):
    if a is None: return b
    if b is None or a is b: return a
    return V(a.r | b.r, a.i | b.i, a.k | b.k, a.x if a.x is b.x else (a.x or b.x))
def sc(k): return V({"F"}, E, {k})
FRESH = lambda inner=E, k="?": V({"F"}, inner, {k})
class Fn:
    def __init__(self, node, mod, cls=None, env=None): self.node = node; self.mod = mod; self.cls = cls; self.env = env
class Cls:
    def __init__(self, node, mod): self.node = node; self.mod = mod; self.name = node.name; self.methods = {}; self.attrs = {}; self.bases = []
class State:
    def __init__(self, env=None, fields=None): self.env = env if env is not None else {}; self.f = fields if fields is not None else {}; self.dead = False
    def copy(self):
        s = State(dict(self.env), dict(self.f)); s.dead = self.dead; return s
    def join(self, o):
        if o.dead: return self
        if self.dead: self.env = o.env; self.f = o.f; self.dead = False; return self
        for d, e in ((self.env, o.env), (self.f, o.f)):
            for k in set(d) | set(e): d[k] = join(d.get(k), e.get(k))
        return self
class World:
    def __init__(self):
        self.mods = pysrc.load(); self.classes = {}; self.byname = {}; self.funcs = {}; self.globals = {}
        for m in self.mods.values():
            m.world = self.mods; self.globals[m.name] = {}
            for n in m.tree.body: self.top(m, n)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve(c.mod, pysrc.dotted(b) or "")
                if isinstance(r, Cls): c.bases.append(r)
        self.attrk = {}
        for c in self.classes.values():      # attribute name -> scalar kinds, from annotations and constant assignments
            for fn in c.methods.values():
                ann = {a.arg: self.annk(a.annotation) for a in fn.node.args.args if a.annotation is not None}
                for n in ast.walk(fn.node):
                    t = v = None; k = E
                    if isinstance(n, ast.AnnAssign): t = n.target; k = self.annk(n.annotation)
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        t = n.targets[0]; v = n.value
                        if isinstance(v, ast.Name): k = ann.get(v.id, frozenset("?"))
                        elif isinstance(v, ast.Constant): k = frozenset({type(v.value).__name__.replace("NoneType", "none")})
                        elif isinstance(v, ast.JoinedStr): k = frozenset({"str"})
                        else: k = frozenset("?")
                    if isinstance(t, ast.Attribute): self.attrk[t.attr] = self.attrk.get(t.attr, E) | k
    def annk(self, a):
        if isinstance(a, ast.Name) and a.id in ("str", "int", "bool", "float"): return frozenset({a.id})
        return frozenset("?")
    def top(self, m, n):
        if isinstance(n, ast.ClassDef):
            c = Cls(n, m); self.classes[m.name + "." + n.name] = c
            for b in n.body:
                if isinstance(b, ast.FunctionDef): c.methods[b.name] = Fn(b, m, c); self.byname.setdefault(b.name, []).append(c.methods[b.name])
                elif isinstance(b, (ast.Assign, ast.AnnAssign)):
                    for t in (b.targets if isinstance(b, ast.Assign) else [b.target]):
                        if isinstance(t, ast.Name) and b.value is not None: c.attrs[t.id] = b.value
        elif isinstance(n, ast.FunctionDef): self.funcs[m.name + "." + n.name] = Fn(n, m)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Name) and n.value is not None: self.globals[m.name][t.id] = n.value
        elif isinstance(n, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
            for f in ("body", "orelse", "finalbody"):
                for b in getattr(n, f, []): self.top(m, b)
    def resolve(self, m, d):
        """Cls / Fn / ('g', module, name) / ('ext', dotted) for a dotted name seen in module m"""
        h, _, r = d.partition(".")
        for q in (m.name + "." + d,):
            if q in self.classes: return self.classes[q]
            if q in self.funcs: return self.funcs[q]
        if h in self.globals[m.name] and not r: return ("g", m.name, h)
        if h in m.imports:
            full = m.imports[h] + ("." + r if r else "")
            if full in self.classes: return self.classes[full]
            if full in self.funcs: return self.funcs[full]
            mm, _, a = full.rpartition(".")
            if mm in self.globals and a in self.globals[mm]: return ("g", mm, a)
            if mm in self.mods and a in self.mods[mm].imports: return self.resolve(self.mods[mm], a)
            return ("ext", full)
        return ("ext", d)
    def mro(self, c):
        out = [c]
        for b in c.bases:
            for x in self.mro(b):
                if x not in out: out.append(x)
        return out

class Analysis:
    def __init__(self, world, on_effect):
        self.w = world; self.eff = on_effect; self.cls = None; self.memo = {}; self.stack = []; self.stats = dict(functions=set(), calls=0, stores=0)
        self.ret = None
    # --- literals of module/class level
    def litk(self, e):
        if isinstance(e, ast.Constant): return frozenset({type(e.value).__name__.replace("NoneType", "none")})
        if isinstance(e, ast.JoinedStr): return frozenset({"str"})
        if isinstance(e, ast.Tuple): return frozenset({"tuple"})
        return frozenset("?")
    def gval(self, name, e):
        k = self.litk(e)
        if k <= SCALAR: return V({"F"}, E, k)
        return V({"G:" + name}, {"G:" + name} , k)
    # --- effects
    def mutate(self, v, node, what):
        self.stats["stores"] += 1
        if v.scalar(): return
        for r in v.r:
            if r == "P" or r == "A" or r.startswith("G:"): self.eff(r, what, self.cur.mod, node, self.curname())
    def curname(self):
        f = self.cur
        return (f.cls.name + "." if f.cls else "") + f.node.name
    # --- calls
    def call_fn(self, fn, args, kw, st, selfv=None, star=False):
        a = fn.node.args; names = [x.arg for x in a.posonlyargs + a.args]; env = {}
        deco = {pysrc.dotted(d) for d in fn.node.decorator_list}
        args = list(args)
        static = fn.cls is not None and ("staticmethod" in deco)
        if selfv is not None and not static: args = [selfv] + args
        self.stats["calls"] += 1
        allv = V(frozenset().union(*[x.r | x.i for x in args + list(kw.values())] or [E]), frozenset().union(*[x.r | x.i for x in args + list(kw.values())] or [E]), {"?"})
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults)); defs.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for i, n in enumerate(names + [k.arg for k in a.kwonlyargs]):
            v = kw.get(n) if n in kw else (args[i] if i < len(names) and i < len(args) else None)
            if v is None:
                d = defs.get(n)
                if star: v = allv
                elif d is not None:
                    k = self.litk(d); v = V({"F"}, E, k) if k <= SCALAR else V({"G:default %s of %s" % (n, fn.node.name)}, E, k)
                else: v = FRESH()
            env[n] = v
        if a.vararg: env[a.vararg.arg] = FRESH(allv.r | allv.i)
        if a.kwarg: env[a.kwarg.arg] = FRESH(allv.r | allv.i)
        for p in a.posonlyargs + a.args + a.kwonlyargs:       # annotations refine
            k = self.w.annk(p.annotation) if p.annotation is not None else None
            if k and k <= SCALAR: env[p.arg] = V(env[p.arg].r, env[p.arg].i, k)
        key = (id(fn.node), tuple(sorted((k, v.key()) for k, v in env.items())), tuple(sorted((k, v.key()) for k, v in st.f.items())))
        hit = self.memo.get(key)
        if hit is not None:
            if hit[1] is not None: st.f.clear(); st.f.update(hit[1])
            return hit[0]
        if len(self.stack) > 40: return allv
        self.memo[key] = (V(), None)
        self.stats["functions"].add((fn.mod.name, fn.cls.name if fn.cls else "", fn.node.name))
        save = (getattr(self, "cur", None), self.ret)
        for _ in range(4):
            base = dict(fn.env) if fn.env else {}
            base.update(env)
            s = State(base, dict(st.f)); self.cur = fn; self.ret = None; self.stack.append(fn); self.exitf = None
            exits = []; self.exits = exits
            old_ex = getattr(self, "_ex", None); self._ex = exits
            self.block(fn.node.body, s)
            self._ex = old_ex
            self.stack.pop()
            if not s.dead: exits.append(s)
            out = State(); out.dead = True
            for x in exits: out.join(x.copy())
            r = self.ret or V({"F"}, E, {"none"})
            prev = self.memo[key]
            self.cur, self.ret = save
            res = (r, dict(out.f) if exits else dict(st.f))
            self.memo[key] = res
            if prev[0] == r: break
        st.f.clear(); st.f.update(self.memo[key][1])
        return self.memo[key][0]
    def instantiate(self, c, args, kw, st):
        inner = frozenset().union(*[x.r | x.i for x in args + list(kw.values()) if not x.scalar()] or [E]) | {"F"}
        obj = V({"F"}, inner, {"?"}, c)
        for b in self.w.mro(c):
            if "__init__" in b.methods:
                s2 = State({}, {}); self.call_fn(b.methods["__init__"], args, kw, s2, obj); break
        return obj
    # --- expressions
    def attr(self, v, name, st, node):
        if v.x is not None and isinstance(v.x, Cls) and "C" in v.r:          # Class.attr
            for b in self.w.mro(v.x):
                if name in b.methods: return V({"F"}, E, {"fn"}, (b.methods[name], None))
                if name in b.attrs: return self.gval(b.name + "." + name, b.attrs[name])
            return V({"G:%s.%s" % (v.x.name, name)}, {"G"}, {"?"})
        if "S" in v.r:
            if name in st.f: 
                r = st.f[name]
                return r
            for b in self.w.mro(self.cls):
                if name in b.methods:
                    m = b.methods[name]
                    deco = {pysrc.dotted(d) for d in m.node.decorator_list}
                    if "property" in deco: return self.call_fn(m, [], {}, st, v)
                    if "classmethod" in deco: return V({"F"}, E, {"fn"}, (m, V({"C"}, E, {"cls"}, self.cls)))
                    return V({"F"}, E, {"fn"}, (m, v))
                if name in b.attrs: return self.gval(b.name + "." + name, b.attrs[name])
            if name == "__class__": return V({"C"}, E, {"cls"}, self.cls)
            if name == "__dict__": return V({"S"}, {"S"}, {"?"})
            return V({"F"}, {"F"}, {"?"})
        k = self.w.attrk.get(name, frozenset("?"))
        if name == "__dict__": return V(v.r, v.i, {"?"})
        if name == "__class__": return V({"G:class"}, {"G:class"}, {"?"})
        if k <= SCALAR: return V({"F"}, E, k)
        if isinstance(v.x, Cls) or not v.x:
            c = v.x
            for b in (self.w.mro(c) if c else []):
                if name in b.methods: return V({"F"}, E, {"fn"}, (b.methods[name], v))
                if name in b.attrs: return self.gval(b.name + "." + name, b.attrs[name])
        return V(v.i, v.i, k)
    def elem(self, v):
        if v.k == {"str"}: return sc("str")
        return V(v.i, v.i, {"?"})
    def ex(self, e, st):
        if e is None: return V({"F"}, E, {"none"})
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            vs = [self.ex(c, st) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
            return FRESH(frozenset().union(*[x.r | x.i for x in vs] or [E]))
        return m(e, st)
    def x_Constant(self, e, st): return sc(type(e.value).__name__.replace("NoneType", "none"))
    def x_JoinedStr(self, e, st):
        for v in e.values: self.ex(v, st)
        return sc("str")
    def x_FormattedValue(self, e, st): self.ex(e.value, st); return sc("str")
    def x_Name(self, e, st):
        if e.id in st.env: return st.env[e.id]
        m = self.cur.mod; r = self.w.resolve(m, e.id)
        if isinstance(r, Cls): return V({"C"}, E, {"cls"}, r)
        if isinstance(r, Fn): return V({"F"}, E, {"fn"}, (r, None))
        if r[0] == "g": return self.gval(r[1] + "." + r[2], self.w.globals[r[1]][r[2]])
        return V({"X"}, {"X"}, {"ext"}, None)
    def x_Attribute(self, e, st):
        d = pysrc.dotted(e)
        if d and d.split(".")[0] not in st.env:
            r = self.w.resolve(self.cur.mod, d)
            if isinstance(r, Cls): return V({"C"}, E, {"cls"}, r)
            if isinstance(r, Fn): return V({"F"}, E, {"fn"}, (r, None))
            if r[0] == "g": return self.gval(r[1] + "." + r[2], self.w.globals[r[1]][r[2]])
        return self.attr(self.ex(e.value, st), e.attr, st, e)
    def x_Subscript(self, e, st):
        v = self.ex(e.value, st)
        if isinstance(e.slice, ast.Slice):
            for p in (e.slice.lower, e.slice.upper, e.slice.step):
                if p is not None: self.ex(p, st)
            return sc("str") if v.k == {"str"} else FRESH(v.i)
        self.ex(e.slice, st)
        return self.elem(v)
    def x_BinOp(self, e, st):
        a = self.ex(e.left, st); b = self.ex(e.right, st)
        if a.scalar() and b.scalar(): return V({"F"}, E, {"str"} if "str" in a.k | b.k else a.k | b.k)
        if isinstance(e.op, ast.Mod) and a.k == {"str"}: return sc("str")
        if a.k == {"str"} or b.k == {"str"}: return sc("str")
        return FRESH(a.i | b.i)
    def x_BoolOp(self, e, st):
        r = None
        for v in e.values: r = join(r, self.ex(v, st))
        return r
    def x_UnaryOp(self, e, st): self.ex(e.operand, st); return sc("int")
    def x_Compare(self, e, st):
        self.ex(e.left, st); [self.ex(c, st) for c in e.comparators]; return sc("bool")
    def x_IfExp(self, e, st): self.ex(e.test, st); return join(self.ex(e.body, st), self.ex(e.orelse, st))
    def coll(self, elts, st, k):
        i = E
        for x in elts:
            v = self.ex(x.value if isinstance(x, ast.Starred) else x, st)
            if isinstance(x, ast.Starred): i |= v.i
            elif not v.scalar(): i |= v.r | v.i
        return V({"F"}, i, {k})
    def x_List(self, e, st): return self.coll(e.elts, st, "list")
    def x_Tuple(self, e, st): return self.coll(e.elts, st, "tuple")
    def x_Set(self, e, st): return self.coll(e.elts, st, "set")
    def x_Dict(self, e, st): return self.coll([x for x in list(e.keys) + list(e.values) if x is not None], st, "dict")
    def comp(self, e, st, elts):
        s = st; old = dict(st.env)
        for g in e.generators:
            self.bind(g.target, self.elem(self.ex(g.iter, s)), s, g)
            for c in g.ifs: self.ex(c, s)
        i = E
        for x in elts:
            v = self.ex(x, s)
            if not v.scalar(): i |= v.r | v.i
        s.env.clear(); s.env.update(old)
        return i
    def x_ListComp(self, e, st): return V({"F"}, self.comp(e, st, [e.elt]), {"list"})
    def x_SetComp(self, e, st): return V({"F"}, self.comp(e, st, [e.elt]), {"set"})
    def x_GeneratorExp(self, e, st): return V({"F"}, self.comp(e, st, [e.elt]), {"list"})
    def x_DictComp(self, e, st): return V({"F"}, self.comp(e, st, [e.key, e.value]), {"dict"})
    def x_Lambda(self, e, st):
        s = st.copy()
        for a in e.args.args: s.env[a.arg] = V({"F"}, {"F"}, {"?"})
        self.ex(e.body, s); return V({"F"}, E, {"lambda"})
    def x_NamedExpr(self, e, st):
        v = self.ex(e.value, st); st.env[e.target.id] = v; return v
    def x_Await(self, e, st): return self.ex(e.value, st)
    def x_Starred(self, e, st): return self.ex(e.value, st)
    def x_Call(self, e, st):
        f = e.func
        args = [self.ex(a, st) for a in e.args]; star = any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords)
        kw = {k.arg: self.ex(k.value, st) for k in e.keywords if k.arg}
        kwx = [self.ex(k.value, st) for k in e.keywords if k.arg is None]
        # super()
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            c = self.cur.cls; selfv = st.env.get(self.cur.node.args.args[0].arg) if self.cur.node.args.args else None
            if c and selfv is not None:
                mro = self.w.mro(self.cls if "S" in selfv.r and self.cls else c)
                for b in mro[mro.index(c) + 1:] if c in mro else []:
                    if f.attr in b.methods: return self.call_fn(b.methods[f.attr], args + kwx, kw, st, selfv, star)
            return FRESH()
        d = pysrc.dotted(f)
        if d and d.split(".")[0] not in st.env:
            r = self.w.resolve(self.cur.mod, d)
            if isinstance(r, Cls): return self.instantiate(r, args + kwx, kw, st)
            if isinstance(r, Fn): return self.call_fn(r, args + kwx, kw, st, None, star)
            if r[0] == "ext":
                full = r[1]
                if full in ARGMUT and args: self.mutate(args[ARGMUT[full]], e, full + "()")
                return self.ext(full, args, kw, st, e) if "." not in full or not isinstance(f, ast.Attribute) or d.split(".")[0] in self.cur.mod.imports else self.method(e, f, args, kw, st, star)
        if isinstance(f, ast.Attribute): return self.method(e, f, args + kwx, kw, st, star)
        v = self.ex(f, st)
        return self.apply(v, args + kwx, kw, st, star)
    def apply(self, v, args, kw, st, star):
        if isinstance(v.x, tuple): return self.call_fn(v.x[0], args, kw, st, v.x[1], star)
        if isinstance(v.x, Cls) and "C" in v.r: return self.instantiate(v.x, args, kw, st)
        return V({"F"}, frozenset().union(v.i, *[x.r | x.i for x in args] or [E]), {"?"})
    def ext(self, full, args, kw, st, e):
        n = full.split(".")[-1]; inner = frozenset().union(*[x.i for x in args] or [E])
        if full == "copy.deepcopy": return V({"F"}, {"F"}, args[0].k if args else {"?"}, args[0].x if args and isinstance(args[0].x, Cls) else None)
        if full in ("copy.copy", "copy.replace"): return V({"F"}, args[0].i, args[0].k, args[0].x if isinstance(args[0].x, Cls) else None)
        if full in ("list", "tuple", "set", "dict", "sorted", "reversed", "enumerate", "zip", "filter", "iter", "frozenset", "collections.OrderedDict", "collections.Counter", "itertools.chain"): return V({"F"}, inner, {n})
        if full == "map": return V({"F"}, inner | (args[0].r if args else E), {"list"})
        if full in ("next", "min", "max", "reduce", "functools.reduce"): return V(inner, inner, {"?"})
        if full in ("len", "sum", "ord", "int", "abs", "hash", "id", "round"): return sc("int")
        if full in ("str", "repr", "chr", "format", "type", "re.sub", "os.path.join", "os.path.abspath", "os.path.dirname"): return sc("str")
        if full in ("any", "all", "isinstance", "hasattr", "callable", "bool", "issubclass"): return sc("bool")
        if full == "getattr": return V(args[0].i, args[0].i, {"?"})
        if full == "vars": return args[0] if args else FRESH()
        if full == "globals": return V({"G:globals()"}, {"G:globals()"}, {"?"})
        return FRESH(inner)
    def method(self, e, f, args, kw, st, star):
        recv = self.ex(f.value, st); n = f.attr
        fv = self.attr(recv, n, st, f)
        if isinstance(fv.x, tuple): return self.call_fn(fv.x[0], args, kw, st, fv.x[1], star)
        if "S" in recv.r and isinstance(fv.x, Cls) and "C" in fv.r: return self.instantiate(fv.x, args, kw, st)
        if recv.k == {"str"} or n in STRS:
            if n in STRM: return FRESH(E, "list")
            return sc("str")
        if n in STRM: return FRESH(E, "list")
        if n in MUT:
            self.mutate(recv, e, ".%s()" % n)
            add = frozenset().union(*[x.r | x.i for x in args if not x.scalar()] or [E])
            self.grow(f.value, add, st)
            if n in ("pop", "popitem", "popleft", "setdefault"): return V(recv.i | add, recv.i | add, {"?"})
            return sc("none")
        if n in ("items", "keys", "values", "copy", "most_common", "elements"): return V({"F"}, recv.i, {"list"})
        if n == "get": return V(recv.i | frozenset().union(*[x.r | x.i for x in args[1:]] or [E]), recv.i, {"?"})
        if n in ("index", "count", "find", "startswith", "endswith", "isupper", "islower", "isdigit"): return sc("int")
        # unknown receiver type: every package method of that name
        cands = [c for c in self.w.byname.get(n, []) if not (c.cls and any(b.name == "Writer" for b in self.w.mro(c.cls)))] if "X" not in recv.r else []
        if cands and recv.r - {"S"}:
            r = None
            for c in cands: r = join(r, self.call_fn(c, args, kw, State({}, {}), V(recv.r - {"S"}, recv.i, {"?"}, c.cls)))
            return r
        return V(recv.i | {"F"}, recv.i, {"?"}) if "X" not in recv.r else FRESH()
    def grow(self, target, add, st):
        if not add: return
        if isinstance(target, ast.Name) and target.id in st.env:
            v = st.env[target.id]; st.env[target.id] = V(v.r, v.i | add, v.k, v.x)
        elif isinstance(target, ast.Attribute):
            b = self.ex(target.value, st)
            if "S" in b.r and target.attr in st.f:
                v = st.f[target.attr]; st.f[target.attr] = V(v.r, v.i | add, v.k, v.x)
    # --- statements
    def bind(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals_decl: self.eff("G:" + t.id, "global assignment", self.cur.mod, node, self.curname())
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.bind(x, self.elem(v), st, node)
        elif isinstance(t, ast.Starred): self.bind(t.value, V({"F"}, v.i, {"list"}), st, node)
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, st)
            if "S" in o.r: st.f[t.attr] = v; self.stats["stores"] += 1
            if "C" in o.r: self.eff("G:%s" % o.x.name, "class attribute .%s =" % t.attr, self.cur.mod, node, self.curname())
            self.mutate(o, node, ".%s =" % t.attr)
            if "S" not in o.r: self.grow(t.value, v.r | v.i, st)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, st); self.ex(t.slice, st) if not isinstance(t.slice, ast.Slice) else None
            self.mutate(o, node, "[...] ="); self.grow(t.value, E if v.scalar() else v.r | v.i, st)
    globals_decl = frozenset()
    def block(self, body, st):
        for s in body:
            if st.dead: return
            self.stmt(s, st)
    def stmt(self, s, st):
        k = type(s).__name__
        if k == "Expr": self.ex(s.value, st)
        elif k == "Assign":
            v = self.ex(s.value, st)
            for t in s.targets: self.bind(t, v, st, s)
        elif k == "AnnAssign":
            if s.value is not None:
                v = self.ex(s.value, st)
                self.bind(s.target, v, st, s)
        elif k == "AugAssign":
            r = self.ex(s.value, st)
            if isinstance(s.target, ast.Name):
                o = st.env.get(s.target.id)
                if s.target.id in self.globals_decl: self.eff("G:" + s.target.id, "global assignment", self.cur.mod, s, self.curname())
                if o is None: o = self.ex(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else: o = self.ex(s.target, st)
            inplace = not o.scalar() and not r.scalar()
            if inplace: self.mutate(o, s, "in-place operator")
            nv = V(o.r, o.i | (E if r.scalar() else r.i), o.k) if inplace else V({"F"}, E, o.k if o.scalar() else r.k)
            self.bind(s.target, nv, st, s)
        elif k == "Delete":
            for t in s.targets:
                if isinstance(t, ast.Name): st.env.pop(t.id, None)
                elif isinstance(t, (ast.Attribute, ast.Subscript)): self.mutate(self.ex(t.value, st), s, "del")
        elif k == "Return":
            v = self.ex(s.value, st) if s.value is not None else V({"F"}, E, {"none"})
            self.ret = join(self.ret, v); self._ex.append(st.copy()); st.dead = True
        elif k == "Raise": 
            if s.exc is not None: self.ex(s.exc, st)
            st.dead = True
        elif k == "If":
            self.ex(s.test, st); b = st.copy(); self.block(s.body, st); self.block(s.orelse, b); st.join(b)
        elif k in ("For", "While", "AsyncFor"):
            it = self.ex(s.iter, st) if k != "While" else None
            for _ in range(3):
                b = st.copy()
                if it is not None: self.bind(s.target, self.elem(it), b, s)
                else: self.ex(s.test, b)
                self.block(s.body, b); b.dead and None
                before = {n: v.key() for n, v in st.env.items()}
                st.join(b)
                if {n: v.key() for n, v in st.env.items()} == before: break
            self.block(s.orelse, st)
        elif k in ("With", "AsyncWith"):
            for i in s.items:
                v = self.ex(i.context_expr, st)
                if i.optional_vars is not None: self.bind(i.optional_vars, v, st, s)
            self.block(s.body, st)
        elif k == "Try":
            b = st.copy(); self.block(s.body, st); self.block(s.orelse, st)
            for h in s.handlers:
                hs = b.copy(); hs.join(st.copy()) if not st.dead else None
                if h.name: hs.env[h.name] = FRESH()
                self.block(h.body, hs); st.join(hs)
            self.block(s.finalbody, st)
        elif k == "FunctionDef":
            st.env[s.name] = V({"F"}, E, {"fn"}, (Fn(s, self.cur.mod, None, st.env), None))
        elif k == "Global":
            self.globals_decl = self.globals_decl | set(s.names)
        elif k == "Assert": self.ex(s.test, st)
        elif k in ("Break", "Continue"): pass          # over-approximated: falls through to the join
        elif k == "Match":
            self.ex(s.subject, st); base = st.copy()
            for c in s.cases:
                b = base.copy(); self.block(c.body, b); st.join(b)

def writers(w):
    out = []
    base = w.classes.get("beschi.writer.Writer")
    if base is None: raise RuntimeError("beschi.writer.Writer vanished")
    for q, c in sorted(w.classes.items()):
        if c is not base and base in w.mro(c): out.append(c)
    return out
def run(w):
    findings = []; stats = {}
    def eff(region, what, mod, node, fn): findings.append((region, what, mod, node, fn, cur[0].name))
    cur = [None]
    for c in writers(w):
        cur[0] = c; a = Analysis(w, eff); a.cls = c
        st = State({}, {}); selfv = V({"S"}, {"S"}, {"?"}, c)
        P = V({"P"}, {"P"}, {"?"}, w.classes.get("beschi.protocol.Protocol")); A = V({"A"}, E, {"dict"})
        init = next((b.methods["__init__"] for b in w.mro(c) if "__init__" in b.methods), None); gen = next((b.methods["generate"] for b in w.mro(c) if "generate" in b.methods), None)
        if init is None or gen is None: raise RuntimeError("%s has no constructor or generate" % c.name)
        names = [x.arg for x in init.node.args.args]
        a.call_fn(init, [P], {"extra_args": A} if "extra_args" in names else {}, st, selfv)
        a.call_fn(gen, [], {}, st, selfv)
        stats[c.name] = (len(a.stats["functions"]), a.stats["stores"], a.stats["calls"], a)
    return findings, stats
def c35(thorough):
    res = Result(); w = World(); f, stats = run(w)
    names = {"P": "the protocol", "A": "the option dictionary"}
    for region, what, mod, node, fn, cls in f:
        res.add("effect %s %s on %s" % (fn, what, names.get(region, region[2:])), mod.where(node), "%s (reached from %s) mutates %s: %s" % (fn, cls, names.get(region, "shared state " + region[2:]), ast.unparse(node)[:120]))
    for m, fnode, why in caches(w): res.add("memoised %s.%s" % (m.name, fnode.name), m.where(fnode), why)
    res.coverage.update(writers={k: dict(functions=v[0], stores=v[1], calls=v[2]) for k, v in stats.items()}, rule="no store, delete, in-place operator or mutating call reachable from a writer's constructor or generate() acts on the protocol, the options, or module/class/default-argument state",
        explanation="%d writer classes, %d functions and %d stores/mutations classified by region" % (len(stats), sum(v[0] for v in stats.values()), sum(v[1] for v in stats.values())))
    res.summary.append("C35: %s" % {k: v[:3] for k, v in stats.items()})
    if len(stats) < 8: res.broken.append("only %d writers" % len(stats))
    for k, v in stats.items():
        if v[0] < 8 or v[1] < 20: res.broken.append("%s: only %d functions / %d stores reached" % (k, v[0], v[1]))
    if not probe(): res.broken.append("the effect rule misses its positive example")
    return res
def probe():
    src = "class X:\n def generate(self, p):\n  for s in p.structs.values():\n   for v in s.members: v.name = 'a'\n"
    w = World(); t = ast.parse(src).body[0]
    m = next(iter(w.mods.values())); hit = []
    a = Analysis(w, lambda *x: hit.append(x)); c = Cls(t, m); a.cls = c
    a.call_fn(Fn(t.body[0], m, c), [V({"P"}, {"P"}, {"?"})], {}, State({}, {}), V({"S"}, {"S"}, {"?"}))
    return bool(hit)
def caches(w):
    out = []
    for m in w.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    x = pysrc.dotted(d.func if isinstance(d, ast.Call) else d) or ""
                    if x.split(".")[-1] in ("lru_cache", "cache", "cached_property"):
                        args = n.args.args
                        bad = [a.arg for a in args if not (a.annotation is not None and w.annk(a.annotation) <= SCALAR)]
                        if bad: out.append((m, n, "results are memoised across generators on %s" % bad))
    return out

# ------------------------------------------------------------------ C34
SETOPS = (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)
BADCALL = {"id": "object identity", "hash": "the hash seed", "os.getenv": "the environment", "os.getpid": "the process", "os.getcwd": "the working directory", "os.urandom": "randomness", "os.times": "time", "os.uname": "the machine", "os.cpu_count": "the machine", "os.getlogin": "the user", "os.stat": "file metadata", "os.path.getmtime": "file metadata", "os.path.getctime": "file metadata"}
BADMOD = {"time": "time", "datetime": "time", "random": "randomness", "uuid": "randomness", "secrets": "randomness", "socket": "the machine", "platform": "the machine", "locale": "the locale", "getpass": "the user", "tempfile": "temporary names", "threading": "scheduling"}
LISTING = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "os.fwalk"}
ORDERFREE = {"sorted", "len", "any", "all", "sum", "min", "max", "set", "frozenset", "bool", "isinstance"}
def settyped(w):
    """predicate: may expression e (in module m) be a set?"""
    attrs = set()
    def is_set(e, m, f, depth=3):
        if isinstance(e, (ast.Set, ast.SetComp)): return True
        if isinstance(e, ast.Call):
            d = pysrc.dotted(e.func) or ""
            if d in ("set", "frozenset"): return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy") and is_set(e.func.value, m, f, depth): return True
            fn = w.resolve(m, d) if d else None
            if d.startswith("self."): fn = next(iter(w.byname.get(d[5:], [])), None)
            if isinstance(fn, Fn) and depth:
                a = fn.node.returns
                if a is not None and (pysrc.dotted(a.value if isinstance(a, ast.Subscript) else a) in ("set", "frozenset")): return True
                return any(isinstance(r, ast.Return) and r.value is not None and is_set(r.value, fn.mod, fn.node, depth - 1) for r in ast.walk(fn.node))
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, SETOPS): return is_set(e.left, m, f, depth) or is_set(e.right, m, f, depth)
        if isinstance(e, ast.IfExp): return is_set(e.body, m, f, depth) or is_set(e.orelse, m, f, depth)
        if isinstance(e, ast.Name) and depth:
            scope = f
            while scope is not None:
                vs = pysrc.local_assignments(scope).get(e.id)
                if vs: return any(is_set(v, m, scope, depth - 1) for v in vs)
                if isinstance(scope, ast.Module): break
                scope = pysrc.enclosing(scope)
            return False
        if isinstance(e, ast.Attribute): return e.attr in attrs
        return False
    for _ in range(2):
        for m in w.mods.values():
            for n in ast.walk(m.tree):
                t = None
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute): t = n.targets[0]
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.value is not None: t = n.target
                if t is not None and is_set(n.value, m, pysrc.enclosing(n)): attrs.add(t.attr)
    return is_set
def inside(n, kinds):
    n = getattr(n, "parent", None)
    while n is not None:
        if isinstance(n, kinds): return n
        n = getattr(n, "parent", None)
def order_free(n):
    """the value's order does not reach the result: wrapped in an order-insensitive consumer"""
    p = getattr(n, "parent", None)
    while isinstance(p, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.comprehension, ast.IfExp)):
        if isinstance(p, ast.SetComp): return True
        p = getattr(p, "parent", None)
    if isinstance(p, ast.Call):
        d = pysrc.dotted(p.func) or ""
        if d.split(".")[-1] in ORDERFREE: return True
        if isinstance(p.func, ast.Attribute) and p.func.attr in ("update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"): return True
    if isinstance(p, ast.Compare): return True
    return False
def c34_sites(w, mods):
    is_set = settyped(w); out = []; n_iter = n_call = 0
    for m in mods:
        for n in ast.walk(m.tree):
            its = []
            if isinstance(n, (ast.For, ast.AsyncFor)): its = [(n.iter, n)]
            elif isinstance(n, ast.comprehension): its = [(n.iter, n.parent)]
            elif isinstance(n, ast.Starred): its = [(n.value, n)]
            elif isinstance(n, ast.Call):
                n_call += 1
                d = pysrc.dotted(n.func) or ""; h, _, r = d.partition(".")
                full = (m.imports[h] + ("." + r if r else "")) if h in m.imports else d
                top = full.split(".")[0]
                if inside(n, ast.Raise): continue
                if full in LISTING or (isinstance(n.func, ast.Attribute) and n.func.attr in ("iterdir", "rglob", "glob", "scandir", "listdir") and full not in ("sorted",)):
                    if not order_free(n): out.append(("listing", m, n, "depends on directory listing order"))
                elif full in BADCALL and not (full in ("id", "hash") and h in pysrc.local_assignments(m.tree)): out.append(("call " + full, m, n, "depends on " + BADCALL[full]))
                elif top in BADMOD and (h in m.imports): out.append(("call " + full, m, n, "depends on " + BADMOD[top]))
                if d in ("list", "tuple", "enumerate", "zip", "iter", "next", "map", "filter", "reversed", "dict") or (isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend", "fromkeys")):
                    its = [(a, n) for a in n.args]
                if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and is_set(n.func.value, m, pysrc.enclosing(n)): out.append(("set-pop", m, n, "takes an arbitrary element of a set"))
            elif isinstance(n, ast.FormattedValue): its = [(n.value, n)]
            elif isinstance(n, ast.Attribute) and pysrc.dotted(n) in ("os.environ", "sys.flags", "sys.hash_info") and n.value.id in m.imports: out.append(("environment", m, n, "depends on the environment"))
            for e, where in its:
                n_iter += 1
                if is_set(e, m, pysrc.enclosing(e)) and not order_free(where if not isinstance(where, (ast.For, ast.AsyncFor)) else e) and not inside(where, ast.Raise) and not isinstance(where, ast.SetComp):
                    if isinstance(where, (ast.For,)) and loop_is_order_free(where): continue
                    out.append(("set-order", m, where, "iterates over a set in hash order"))
    return out, n_iter, n_call
def loop_is_order_free(f):
    """a loop whose body only raises, tests, counts or adds to sets/keys does not expose the order"""
    for n in ast.walk(ast.Module(f.body, [])):
        if isinstance(n, ast.Call):
            if inside_of(n, ast.Raise, f): continue
            a = n.func.attr if isinstance(n.func, ast.Attribute) else None
            if a in ("add", "discard", "isspace", "lower", "upper", "startswith", "endswith") or (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance")): continue
            return False
        if isinstance(n, (ast.Return, ast.Yield, ast.Break)): 
            if isinstance(n, ast.Return) and (n.value is None or isinstance(n.value, ast.Constant)): continue
            return False
        if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant): return False
        if isinstance(n, ast.AugAssign) and not isinstance(n.op, (ast.Add, ast.BitOr)): return False
        if isinstance(n, ast.AugAssign) and not isinstance(n.value, (ast.Constant,)): return False
    return True
def inside_of(n, kind, stop):
    n = getattr(n, "parent", None)
    while n is not None and n is not stop:
        if isinstance(n, kind): return True
        n = getattr(n, "parent", None)
    return False
def c34(thorough):
    res = Result(); w = World()
    sites, ni, nc = c34_sites(w, w.mods.values())
    for kind, m, n, why in sites: res.add("%s in %s.%s: %s" % (kind, m.name, pysrc.func_of(n), ast.unparse(n if not isinstance(n, ast.For) else n.iter)[:60]), m.where(n), why)
    f, stats = run(w)
    for region, what, mod, node, fn, cls in f:
        if region.startswith("G:") or region == "P": res.add("state %s %s" % (fn, region), mod.where(node), "%s carries state from one generation to the next through %s: %s" % (fn, region.replace("G:", "").replace("P", "the protocol object") , ast.unparse(node)[:100]))
    for m, fnode, why in caches(w): res.add("memoised %s.%s" % (m.name, fnode.name), m.where(fnode), why)
    res.coverage.update(modules=len(w.mods), iterations=ni, calls=nc, writers={k: v[:3] for k, v in stats.items()}, rule="no reachable dependence on set order, directory order, time, randomness, environment, identity/hash or state left by an earlier generation",
        explanation="%d modules: %d iteration sites typed for sets, %d calls resolved, region analysis of %d writers for carried state" % (len(w.mods), ni, nc, len(stats)))
    res.summary.append("C34: %d modules, %d iteration sites, %d calls" % (len(w.mods), ni, nc))
    if ni < 100 or nc < 300 or len(stats) < 8: res.broken.append("too little analysed")
    t = pysrc.Mod.__new__(pysrc.Mod); t.name = "beschi.probe"; t.path = ""; t.rel = "probe"; t.imports = {"os": "os"}; t.tree = ast.parse("import os\nx = {1, 2}\nfor a in x: print(a)\nfor b in os.listdir('.'): print(b)\n")
    for n in ast.walk(t.tree):
        for ch in ast.iter_child_nodes(n): ch.parent = n
    w.globals[t.name] = {}
    if len(c34_sites(w, [t])[0]) != 2: res.broken.append("rule misses its positive examples")
    return res
