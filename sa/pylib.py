"""Models of the Python builtins and library functions the package may use, for the abstract interpreter in pyabs."""
import string as _string
from .core import Lin, c_ge, AnalysisError
from .pyabs import *
from .pyabs import _string

def pytype(it, v, n=None):
    if v is None: return type(None)
    if isinstance(v, bool): return bool
    if isinstance(v, (int, Lin, Idx)): return int
    if is_str(v): return str
    if isinstance(v, float): return float
    if isinstance(v, VList): return list
    if isinstance(v, VDict): return dict
    if isinstance(v, VSet): return set
    if isinstance(v, tuple): return tuple
    if isinstance(v, bytes): return bytes
    if isinstance(v, Inst): return v.cls
    if isinstance(v, Exc): return v.cls
    if isinstance(v, (Class, type)): return type
    return type(v)
ABCS = {"Mapping": (dict,), "MutableMapping": (dict,), "Sequence": (list, str, tuple), "MutableSequence": (list,), "Iterable": (list, str, tuple, dict, set), "Collection": (list, str, tuple, dict, set), "Sized": (list, str, tuple, dict, set),
        "Hashable": (str, int, tuple, float), "Integral": (int,), "Number": (int, float), "Real": (int, float), "Callable": (), "Set": (set,), "MutableSet": (set,), "Container": (list, str, tuple, dict, set)}
def isinstance_(it, v, c, n):
    if isinstance(c, tuple): return any(isinstance_(it, v, x, n) for x in c)
    if c is None: return v is None
    if isinstance(c, Opaque):
        s = c.name.split(".")[-1].split("[")[0]
        if s in ABCS: return any(isinstance_(it, v, x, n) for x in ABCS[s])
        if isinstance(v, Opaque): return it.decide(("isinstance", repr(v), repr(c)))
        it.err(n, "isinstance %r" % (c,))
    if isinstance(v, Exc): return exc_is(v, c) if isinstance(c, (Class, type)) else False
    if isinstance(v, Opaque): return it.decide(("isinstance", repr(v), repr(c)))
    t = pytype(it, v)
    if isinstance(t, Class): return c in t.mro() or c is object
    if isinstance(c, Class): return False
    if not isinstance(t, type): return False
    return issubclass(t, c)
def construct_builtin(it, t, a, k, n):
    x = a[0] if a else None
    if t is str:
        if not a: return ""
        if isinstance(x, Inst) and isinstance(x.cls, Class):
            for m in ("__str__", "__repr__"):
                f = it.find_attr(x.cls, m)
                if f: return it.call(Bound(f, x), [], {}, n)
        return it.to_str(x, n)
    if t is bool: return it.truth(x, n) if a else False
    if t is int:
        if not a: return 0
        if it.is_int(x): return int(x) if isinstance(x, bool) else x
        if isinstance(x, Idx): return x.lin
        if isinstance(x, str) or isinstance(x, float):
            try: return int(x, *[y for y in a[1:]])
            except ValueError as e: it.throw(ValueError, str(e))
        if isinstance(x, AStr):
            if all(isinstance(s, str) or s.chars is not None and not (s.first & frozenset("0123456789+- ")) for s in x.segs[:1]): it.throw(ValueError, "invalid literal for int()")
            it.err(n, "int() of %r" % (x,))
        it.throw(TypeError, "int() argument")
    if t is float: 
        if isinstance(x, (int, float, str)):
            try: return float(x)
            except ValueError: it.throw(ValueError, "could not convert")
        if isinstance(x, Lin): it.err(n, "float()")
        it.throw(TypeError, "float() argument")
    if t is list: return it.to_list(x, n) if a else VList([], it)
    if t is tuple: return tuple(it.items(x, n)) if a else ()
    if t in (set, frozenset):
        s = VSet([], it)
        return it.fill(x, n, s, lambda t_, y: it.set_add(t_, y, n)) if a else s
    if t is dict:
        d = VDict([], it)
        if a: method_of(it, d, "update", [x], {}, n)
        for kk, v in k.items(): it.dict_set(d, kk, v, n)
        return d
    if t is type: return pytype(it, x)
    if t is object: return Inst("object", {}, it)
    if t is bytes: return Opaque("bytes")
    it.err(n, "construction of %s" % t.__name__)
def lst(it, v): return v
# ---------------------------------------------------------------- builtins
def b_len(it, a, k): return it.len(a[0])
def b_any(it, a, k):
    for x, m in it.iter(a[0]):
        it.tick()
        if it.truth(x): return True
    return False
def b_all(it, a, k):
    for x, m in it.iter(a[0]):
        it.tick()
        if not it.truth(x): return False
    return True
def extreme(op):
    def f(it, a, k):
        if len(a) > 1: src = [(x, None) for x in a]
        else: src = it.iter(a[0])
        best = None; has = False
        for x, m in src:
            key = it.call(k["key"], [x], {}, None) if k.get("key") is not None else x
            if not has or it.order(op, key, best[0], None): best = (key, x); has = True
        if not has:
            if "default" in k: return k["default"]
            it.throw(ValueError, "iterable argument is empty")
        return best[1]
    return f
def b_sum(it, a, k):
    t = a[1] if len(a) > 1 else k.get("start", 0)
    for x, m in it.iter(a[0]):
        if isinstance(x, bool): x = int(x)
        if m is not None:
            if not isinstance(x, int): it.err(None, "sum over summarised elements")
            t = it.binop("+", t, it.unlin(it.lin(m).scale(x)), None)
        else: t = it.binop("+", t, x, None)
    return t
def b_sorted(it, a, k):
    """order of abstract values is decided pairwise; identical summarised elements stay together"""
    items = it.to_list(a[0], None).items
    key = k.get("key")
    def kv(x):
        x = x.v if isinstance(x, Seg) else x
        return it.call(key, [x], {}, None) if key is not None else x
    out = []
    for x in items:
        i = len(out); kx = kv(x)
        while i > 0 and it.order("<", kx, out[i - 1][0], None): i -= 1
        out.insert(i, (kx, x))
    r = [x for _, x in out]
    if "reverse" in k and it.truth(k["reverse"]): r.reverse()
    return VList(r, it)
def b_reversed(it, a, k):
    if isinstance(a[0], Range): return VList([x for x, _ in a[0].iterate(it, None)][::-1], it)
    return VList(it.to_list(a[0], None).items[::-1], it)
def b_enumerate(it, a, k):
    s = a[1] if len(a) > 1 else k.get("start", 0)
    def g():
        i = it.lin(s)
        for x, m in it.iter(a[0]):
            if m is None: yield (it.unlin(i), x), None; i = i + 1
            else:
                j = sym(("at", repr(i), repr(m)), 0, INF)
                it.ctx.assume(c_ge(it.lin(m) - Lin.of(j) - 1))
                yield (i + Lin.of(j), x), m
                i = i + it.lin(m)
    return Gen(g())
def b_zip(it, a, k):
    def g():
        its = [it.iter(x) for x in a]
        while True:
            row = []
            for x in its:
                try: row.append(next(x))
                except StopIteration: return
            ks = {repr(m) for _, m in row}
            if len(ks) > 1:
                it.err(None, "zip of summarised and single elements")
            yield tuple(v for v, _ in row), row[0][1]
    return Gen(g())
def b_map(it, a, k):
    def g():
        for x, m in it.iter(a[1]) if len(a) == 2 else b_zip(it, a[1:], {}).it: yield it.call(a[0], [x] if len(a) == 2 else list(x), {}, None), m
    return Gen(g())
def b_filter(it, a, k):
    def g():
        for x, m in it.iter(a[1]):
            if (it.truth(x) if a[0] is None else it.truth(it.call(a[0], [x], {}, None))): yield x, m
    return Gen(g())
def b_range(it, a, k):
    a = list(a)
    return Range(0, a[0]) if len(a) == 1 else Range(*a)
def b_next(it, a, k):
    g = a[0]
    if isinstance(g, Gen): src = g.it
    elif isinstance(g, VList): src = it.iter(g)
    else: it.err(None, "next of %r" % (g,))
    try: return next(iter(src))[0]
    except StopIteration:
        if len(a) > 1: return a[1]
        it.throw(StopIteration)
def b_iter(it, a, k):
    if isinstance(a[0], Gen): return a[0]
    return Gen(it.iter(a[0]))
def b_isinstance(it, a, k): return isinstance_(it, a[0], a[1], None)
def b_issubclass(it, a, k):
    c = a[0]; ts = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any((t in c.mro()) if isinstance(c, Class) else isinstance(t, type) and issubclass(c, t) for t in ts)
def b_print(it, a, k):
    f = k.get("file"); text = mkstr([p for i, x in enumerate(a) for p in ([" "] if i else []) + [it.to_str(x, None)]])
    it.output(f, text, k.get("end", "\n"))
    return None
def b_getattr(it, a, k):
    if len(a) > 2:
        try: return it.getattr(a[0], a[1], None)
        except PyExc as p:
            if exc_is(p.v, AttributeError): return a[2]
            raise
    return it.getattr(a[0], a[1], None)
def b_hasattr(it, a, k):
    try: it.getattr(a[0], a[1], None); return True
    except PyExc as p:
        if exc_is(p.v, AttributeError): return False
        raise
def b_setattr(it, a, k): it.setattr(a[0], a[1], a[2], None)
def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, Lin): return v if it.cond(c_ge(v)) else v.scale(-1)
    return abs(v)
def b_id(it, a, k): return id(a[0])
def b_callable(it, a, k): return isinstance(a[0], (Func, Bound, Host, Class, type))
def b_repr(it, a, k): return anytext(("repr", repr(a[0])[:60]))
def b_exit(it, a, k): it.throw(SystemExit, *(a or [None]))
def b_ord(it, a, k):
    if isinstance(a[0], str): return ord(a[0])
    ch = a[0].segs[0]; s = it.cset(ch)
    return Lin.of(sym(("ord", ch.key), min(map(ord, s)) if s else 0, max(map(ord, s)) if s else 0x10ffff))
def b_divmod(it, a, k): return divmod(*a)
def b_vars(it, a, k): return it.getattr(a[0], "__dict__", None)
def b_open(it, a, k): return it.open_file(a, k)
BUILTINS = {n[2:]: Host(n[2:], f) for n, f in list(globals().items()) if n.startswith("b_")}
BUILTINS.update(min=Host("min", extreme("<")), max=Host("max", extreme(">")), exit=Host("exit", b_exit), quit=Host("quit", b_exit), NotImplemented=None,
                hash=Host("hash", lambda it, a, k: 0), chr=Host("chr", lambda it, a, k: chr(a[0])), round=Host("round", lambda it, a, k: round(*a)), format=Host("format", lambda it, a, k: anytext(("format",))))
# ---------------------------------------------------------------- methods
def method_of(it, v, name, a, k, n):
    if is_str(v): return str_method(it, v, name, a, k, n)
    if isinstance(v, VList): return list_method(it, v, name, a, k, n)
    if isinstance(v, VDict): return dict_method(it, v, name, a, k, n)
    if isinstance(v, VSet): return set_method(it, v, name, a, k, n)
    if isinstance(v, View):
        if name in ("isdisjoint",): return not any(it.member(v, x, n) for x, _ in it.iter(a[0], n))
        if name == "mapping": return v.d
        return set_method(it, construct_builtin(it, set, [v], {}, n), name, a, k, n)
    if isinstance(v, tuple):
        if name == "index":
            for i, x in enumerate(v):
                if it.eq(x, a[0], n): return i
            it.throw(ValueError, "not in tuple")
        if name == "count": return sum(1 for x in v if it.eq(x, a[0], n))
    if isinstance(v, (int, Lin)) and not isinstance(v, bool) and name == "bit_length":
        if isinstance(v, int): return v.bit_length()
        it.err(n, "bit_length")
    if v is None or isinstance(v, (int, Lin, float, tuple)): it.throw(AttributeError, name)
    if isinstance(v, Gen) and name == "__next__": return b_next(it, [v], {})
    it.err(n, "method %s of %r" % (name, v))
PRED = {"isspace": lambda c: c.isspace(), "isidentifier": None, "isalnum": lambda c: c.isalnum(), "isalpha": lambda c: c.isalpha(), "isdigit": lambda c: c.isdigit(), "isnumeric": lambda c: c.isnumeric(), "isdecimal": lambda c: c.isdecimal(),
        "isprintable": lambda c: c.isprintable(), "isascii": lambda c: c.isascii(), "islower": lambda c: not c.isupper(), "isupper": lambda c: not c.islower()}
for _n, _f in PRED.items():
    if _f: _f.__name__ = _n
def str_method(it, v, name, a, k, n):
    if name in ("lower", "upper", "casefold"): return it.map_chars(v, name)
    if name in ("strip", "lstrip", "rstrip"):
        cs = a[0] if a else None
        if cs is not None and not isinstance(cs, str): it.err(n, "strip of symbolic characters")
        return it.strip(v, cs, name != "rstrip", name != "lstrip", n)
    if name in ("startswith", "endswith"):
        ps = a[0] if isinstance(a[0], tuple) else (a[0],)
        if len(a) > 1: it.err(n, name + " with bounds")
        for p in ps:
            if isinstance(v, str) and isinstance(p, str):
                if (v.startswith(p) if name == "startswith" else v.endswith(p)): return True
                continue
            if not isinstance(p, str): 
                if it.eq(v, p): return True
                if it.decide((name, repr(segs_of(v)), repr(segs_of(p)))): return True
                continue
            if not p: return True
            x, y, left = it.expand(v, len(p)) if name == "startswith" else it.rexpand(v, len(p))
            part = x if name == "startswith" else y
            if not left and it.str_eq(part, p): return True
        return False
    if name in ("removeprefix", "removesuffix"):
        if str_method(it, v, "startswith" if name == "removeprefix" else "endswith", a, {}, n):
            if isinstance(v, str): return getattr(v, name)(a[0])
            return it.expand(v, len(a[0]))[1] if name == "removeprefix" else it.rexpand(v, len(a[0]))[0]
        return v
    if name in PRED:
        if not it.truth(v): return name in ("isprintable", "isascii")
        if isinstance(v, str): return getattr(v, name)()
        if name == "isidentifier":
            if any(isinstance(s, str) and not ("a" + s).isidentifier() for s in v.segs): return False
            if not it.class_test(v, lambda c: c.isalnum() or c == "_", n): return False
            c = it.str_index(v, 0, n)
            return c.isidentifier() if isinstance(c, str) else it.char_test(c.segs[0], frozenset(x for x in IDCH if not x.isdigit()))
        return it.class_test(v, PRED[name], n)
    if name == "split":
        sep = a[0] if a else k.get("sep"); mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
        if sep is None: return it.split_ws(v, n)
        return it.split_on(v, sep, mx, n)
    if name in ("partition", "rpartition"):
        r = it.split_on(v, a[0], 1 if name == "partition" else -1, n).items
        if len(r) == 1: return (v, "", "") if name == "partition" else ("", "", v)
        if name == "partition": return (r[0], a[0], r[1])
        return (mkstr([p for i, x in enumerate(r[:-1]) for p in ([a[0]] if i else []) + [x]]), a[0], r[-1])
    if name == "join":
        out = []; first = True
        for x, m in it.iter(a[0], n):
            if m is not None: out.append(anytext(("join", repr(x)[:60]))) ; first = False; out = [mkstr(out)] ; continue
            if not is_str(x): it.throw(TypeError, "sequence item: expected str instance")
            if not first: out.append(v)
            out.append(x); first = False
        return mkstr(out)
    if name == "replace":
        if isinstance(v, str) and all(isinstance(x, str) for x in a): return v.replace(*a)
        if isinstance(a[0], str) and len(a[0]) == 1:
            out = []
            for s in v.segs:
                if isinstance(s, str): out.append(s.replace(a[0], a[1]))
                elif s.lo == s.hi == 1: out.append(a[1] if it.char_test(s, frozenset(a[0])) else s)
                elif s.chars is not None and a[0] not in s.chars: out.append(s)
                else: out.append(Chunk.get(("replace", s.key, a[0], repr(a[1])), None, 0, INF))
            return mkstr(out)
        return anytext(("replace", repr(v), repr(a)))
    if name == "translate": it.err(n, "translate")
    if name in ("find", "index", "count", "rfind"):
        if isinstance(v, str) and isinstance(a[0], str):
            try: return getattr(v, name)(*a)
            except ValueError: it.throw(ValueError, "substring not found")
        if name == "count":
            if not it.contains(v, a[0], n): return 0
            return Lin.of(sym(("count", repr(v), repr(a[0])), 1, INF))
        if not it.contains(v, a[0], n):
            if name == "index": it.throw(ValueError, "substring not found")
            return -1
        if isinstance(a[0], str) and str_method(it, v, "startswith", [a[0]], {}, n): return 0
        return Lin.of(sym((name, repr(v), repr(a[0])), 1, INF))
    if name in ("format", "format_map", "ljust", "rjust", "center", "zfill", "expandtabs"):
        if isinstance(v, str) and all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
            return getattr(v, name)(*a, **k)
        return anytext((name, repr(v)))
    if name in ("capitalize", "title", "swapcase"):
        return getattr(v, name)() if isinstance(v, str) else anytext((name, repr(v)))
    if name == "splitlines": return VList(v.splitlines(), it) if isinstance(v, str) else VList([v], it)
    if name in ("encode", "decode"): return Opaque("encoded text")
    if name in ("__len__",): return it.len(v)
    if name == "__contains__": return it.contains(v, a[0], n)
    if name == "__eq__": return it.eq(v, a[0], n)
    if hasattr("", name): it.err(n, "text method " + name)
    it.throw(AttributeError, name)
def nosegs(it, v, n):
    if any(isinstance(x, Seg) for x in v.items): it.err(n, "summarised list")
def list_method(it, v, name, a, k, n):
    if name in ("append", "appendleft"):
        if name == "append": it.add_item(v, a[0])
        else:
            if it.depth() > v.born: it.err(n, "prepending to a list in a summarised loop")
            v.items.insert(0, a[0])
        return None
    if name in ("extend", "extendleft"):
        src = it.to_list(a[0], n).items
        if it.depth() > v.born:
            for x in src: it.add_item(v, x if not isinstance(x, Seg) else x.v)
        else: v.items.extend(src)
        return None
    if name in ("pop", "popleft"):
        if not v.items: it.throw(IndexError, "pop from empty list")
        i = 0 if name == "popleft" else a[0] if a else -1
        if not isinstance(i, int): it.err(n, "pop position")
        try: x = v.items[i]
        except IndexError: it.throw(IndexError, "pop index out of range")
        if isinstance(x, Seg):
            if i not in (0, -1): it.err(n, "pop from a summarised list")
            if not it.pos(x.k):
                del v.items[i]; return list_method(it, v, name, a, k, n)
            it.err(n, "pop from a summarised list")
        del v.items[i]; return x
    if name == "insert":
        if it.depth() > v.born: it.err(n, "insertion in a summarised loop")
        nosegs(it, v, n) if a[0] != 0 else None
        v.items.insert(a[0], a[1]); return None
    if name == "remove":
        for i, x in enumerate(v.items):
            if isinstance(x, Seg):
                if it.eq(x.v, a[0], n): it.err(n, "removal from a summarised list")
            elif it.eq(x, a[0], n): del v.items[i]; return None
        it.throw(ValueError, "list.remove(x): x not in list")
    if name == "clear": v.items = []; return None
    if name in ("copy", "__copy__"): return VList(v.items, it)
    if name == "reverse": v.items.reverse(); return None
    if name == "rotate": it.err(n, "rotate")
    if name == "sort": v.items = b_sorted(it, [v], k).items; return None
    if name == "index":
        pos = Lin.of(0)
        for x in v.items:
            if it.eq(x.v if isinstance(x, Seg) else x, a[0], n):
                return it.unlin(pos)
            pos = pos + (it.lin(x.k) if isinstance(x, Seg) else 1)
        it.throw(ValueError, "not in list")
    if name == "count":
        t = Lin.of(0)
        for x in v.items:
            if it.eq(x.v if isinstance(x, Seg) else x, a[0], n): t = t + (it.lin(x.k) if isinstance(x, Seg) else 1)
        return it.unlin(t)
    if name == "__len__": return it.len(v)
    if name == "__contains__": return it.member(v, a[0], n)
    if name == "__getitem__": return it.index(v, a[0], n)
    if hasattr([], name): it.err(n, "list method " + name)
    it.throw(AttributeError, name)
def dict_method(it, v, name, a, k, n):
    if name in ("keys", "values", "items"): return View(v, name)
    if name == "get":
        e = it.dict_find(v, a[0], n); return e[1] if e is not None else a[1] if len(a) > 1 else k.get("default")
    if name == "setdefault":
        e = it.dict_find(v, a[0], n)
        if e is not None: return e[1]
        d = a[1] if len(a) > 1 else None
        it.dict_set(v, a[0], d, n); return d
    if name == "pop":
        e = it.dict_find(v, a[0], n)
        if e is None:
            if len(a) > 1: return a[1]
            it.throw(KeyError, a[0])
        return it.dict_del(v, a[0], n)
    if name == "popitem":
        if not v.items: it.throw(KeyError, "dictionary is empty")
        nosegs(it, v, n); e = v.items.pop(); return (e[0], e[1])
    if name == "update":
        for src in a:
            if isinstance(src, VDict):
                if v.default == 0 and isinstance(v, Counter_): pass
                it.fill(View(src, "items"), n, v, lambda t, x: it.dict_set(t, x[0], x[1], n))
            elif isinstance(v, Counter_): count_into(it, v, src, n)
            else: it.fill(src, n, v, lambda t, x: it.dict_set(t, it.items(x, n)[0], it.items(x, n)[1], n))
        for kk, x in k.items(): it.dict_set(v, kk, x, n)
        return None
    if name == "clear": v.items = []; return None
    if name == "copy": 
        d = VDict([x for x in v.items], it, v.default); return d
    if name == "fromkeys":
        d = VDict([], it)
        return it.fill(a[0], n, d, lambda t, x: it.dict_set(t, x, a[1] if len(a) > 1 else None, n))
    if name == "most_common":
        r = b_sorted(it, [View(v, "items")], {"key": Host("k", lambda i2, b, kk: i2.unlin(i2.lin(b[0][1]).scale(-1)))})
        return it.slice(r, slice(0, a[0]), n) if a and a[0] is not None else r
    if name == "total": return b_sum(it, [View(v, "values")], {})
    if name == "elements": it.err(n, "elements")
    if name == "__len__": return it.len(v)
    if name == "__contains__": return it.member(v, a[0], n)
    if name == "__getitem__": return it.index(v, a[0], n)
    if name == "__missing__": it.throw(KeyError, a[0])
    if hasattr({}, name): it.err(n, "dict method " + name)
    it.throw(AttributeError, name)
def set_method(it, v, name, a, k, n):
    if name == "add": it.set_add(v, a[0], n); return None
    if name in ("discard", "remove"):
        for i, x in enumerate(v.items):
            if isinstance(x, Seg):
                if it.eq(x.v, a[0], n): it.err(n, "removal from a summarised set")
            elif it.eq(x, a[0], n): del v.items[i]; return None
        if name == "remove": it.throw(KeyError, a[0])
        return None
    if name == "pop":
        if not v.items: it.throw(KeyError, "pop from an empty set")
        nosegs(it, v, n); return v.items.pop(0 if len(v.items) == 1 else it.ctx.choose(len(v.items)))
    if name == "clear": v.items = []; return None
    if name == "copy": return VSet(v.items, it)
    if name == "update":
        for s in a: it.fill(s, n, v, lambda t, x: it.set_add(t, x, n))
        return None
    sets = [x if isinstance(x, (VSet, View)) else construct_builtin(it, set, [x], {}, n) for x in a]
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        op = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name]; r = VSet(v.items, it)
        for s in sets: r = it.binop(op, r, s, n)
        return r
    if name in ("difference_update", "intersection_update"):
        r = it.binop("-" if name[0] == "d" else "&", v, sets[0], n); v.items = r.items; return None
    if name == "issubset": return it.subset(v, sets[0], n)
    if name == "issuperset": return it.subset(sets[0], v, n)
    if name == "isdisjoint": return not any(it.member(v, x, n) for x, _ in it.iter(sets[0], n))
    if name == "__contains__": return it.member(v, a[0], n)
    if name == "__len__": return it.len(v)
    if hasattr(set(), name): it.err(n, "set method " + name)
    it.throw(AttributeError, name)
# ---------------------------------------------------------------- library
class Counter_(VDict): pass
def count_into(it, d, src, n):
    def body(x):
        e = it.dict_find(d, x, n)
        if e is not None: e[1] = it.scaled(e[1], it.binop("+", e[1], 1, n), d.born)
        else: it.add_item(d, [x, 1])
    it.loop(src, n, body)
def l_counter(it, a, k):
    d = Counter_([], it, 0)
    if a:
        if isinstance(a[0], VDict): method_of(it, d, "update", [a[0]], {}, None)
        else: count_into(it, d, a[0], None)
    return d
def l_defaultdict(it, a, k):
    d = VDict([], it, a[0] if a and a[0] is not None else None)
    if len(a) > 1: method_of(it, d, "update", [a[1]], {}, None)
    return d
def l_chain(it, a, k):
    def g():
        for x in a: yield from it.iter(x)
    return Gen(g())
def l_chain_from(it, a, k):
    def g():
        for x, m in it.iter(a[0]):
            for y, m2 in it.iter(x):
                if m is not None and m2 is not None: m2 = Lin.of(sym(("prod", repr(m), repr(m2)), 0, INF))
                yield y, (m2 if m2 is not None else m)
    return Gen(g())
def l_combinations(it, a, k):
    if a[1] != 2: it.err(None, "combinations")
    items = it.to_list(a[0], None).items
    def g():
        for i, x in enumerate(items):
            xv = x.v if isinstance(x, Seg) else x
            for y in items[i + 1:]: yield (xv, y.v if isinstance(y, Seg) else y), (y.k if isinstance(y, Seg) else x.k if isinstance(x, Seg) else None)
    return Gen(g())
def class_of_pattern(p):
    """character class of a pattern that is one class, or None; and whether it is repeated"""
    import re._parser as sp
    try: t = sp.parse(p)
    except Exception: return None
    t = list(t); anch = [False, False]
    if t and str(t[0][0]) == "AT": anch[0] = True; t = t[1:]
    if t and str(t[-1][0]) == "AT": anch[1] = True; t = t[:-1]
    if len(t) != 1: return None
    op, arg = str(t[0][0]), t[0][1]; rep = None
    if op == "SUBPATTERN": arg = arg[3]; op, arg = str(arg[0][0]), arg[0][1]
    if op in ("MAX_REPEAT", "MIN_REPEAT"):
        rep = (arg[0], arg[1]); inner = list(arg[2])
        if len(inner) != 1: return None
        op, arg = str(inner[0][0]), inner[0][1]
    if op == "LITERAL": cs = frozenset(chr(arg))
    elif op == "IN":
        import re
        src = [chr(i) for i in range(128)]
        s = p.strip("^$"); 
        import re as _re
        try: rx = _re.compile(_one(arg, sp))
        except Exception: return None
        cs = frozenset(c for c in src if rx.fullmatch(c))
    elif op == "CATEGORY": return None
    else: return None
    return cs, rep, anch
def _one(arg, sp):
    """the class as a pattern of its own (built again from the parsed form)"""
    cat = {"CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W", "CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D"}
    import re
    out = "["
    for o, x in arg:
        o = str(o)
        if o == "NEGATE": out += "^"
        elif o == "LITERAL": out += re.escape(chr(x))
        elif o == "RANGE": out += re.escape(chr(x[0])) + "-" + re.escape(chr(x[1]))
        elif o == "CATEGORY": out += cat[str(x)]
        else: raise ValueError(o)
    return out + "]"
def l_re(kind):
    def f(it, a, k):
        p, s = a[0], a[1]
        if isinstance(p, Inst) and p.cls == "pattern": p = p.attrs["p"]
        if not isinstance(p, str): it.err(None, "pattern %r" % (p,))
        if isinstance(s, str):
            import re
            return Opaque("match") if getattr(re, kind)(p, s) else None
        if not is_str(s): it.throw(TypeError, "expected string")
        c = class_of_pattern(p)
        if c is None: it.err(None, "pattern %r" % p)
        cs, rep, anch = c
        if kind == "search" and not any(anch) and (rep is None or rep[0] == 1): return Opaque("match") if it.has_char(s, cs) else None
        if (kind == "fullmatch" or (kind == "match" or anch[0]) and anch[1]) and rep is not None and rep[0] <= 1:
            if rep[0] == 1 and not it.truth(s): return None
            fn = lambda ch: ch in cs
            fn.__name__ = "re" + repr(sorted(cs))
            return Opaque("match") if it.class_test(s, fn, None) else None
        if kind == "match" and (rep is None or rep[0] == 1):
            if not it.truth(s): return None
            h = it.str_index(s, 0, None)
            if isinstance(h, str): return Opaque("match") if h in cs else None
            return Opaque("match") if it.char_test(h.segs[0], cs) else None
        it.err(None, "pattern %r" % p)
    return f
def library(it, name):
    H = lambda n, f: Host(name + "." + n, f)
    m = {}
    if name == "string":
        m = {x: getattr(_string, x) for x in ("whitespace", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "punctuation", "printable", "hexdigits")}
    elif name == "collections":
        m = {"Counter": H("Counter", l_counter), "defaultdict": H("defaultdict", l_defaultdict), "OrderedDict": dict, "deque": H("deque", lambda i, a, k: i.to_list(a[0], None) if a else VList([], i)), "namedtuple": Opaque("namedtuple"), "abc": Opaque("collections.abc"), "ChainMap": Opaque("ChainMap")}
    elif name == "collections.abc": m = {x: Opaque("collections.abc." + x) for x in ABCS}; m.update(Iterator=Opaque("Iterator"), Generator=Opaque("Generator"))
    elif name == "itertools":
        ch = H("chain", l_chain)
        m = {"chain": Inst("chain", {"from_iterable": H("from_iterable", l_chain_from)}), "combinations": H("combinations", l_combinations), "count": H("count", lambda i, a, k: Gen(((x, None) for x in __import__("itertools").count(*a))))}
        it.chain = ch
    elif name == "functools":
        def partial(i, a, k):
            f, rest = a[0], list(a[1:])
            return Host("partial", lambda j, b, kk: j.call(f, rest + list(b), {**k, **kk}, None))
        def reduce(i, a, k):
            src = i.iter(a[1]); acc = a[2] if len(a) > 2 else next(src)[0]
            for x, mm in src:
                if mm is not None: i.err(None, "reduce over summarised elements")
                acc = i.call(a[0], [acc, x], {}, None)
            return acc
        same = H("same", lambda i, a, k: a[0] if a and isinstance(a[0], (Func, Bound)) else Host("deco", lambda j, b, kk: b[0]))
        m = {"partial": H("partial", partial), "reduce": H("reduce", reduce), "lru_cache": same, "cache": same, "wraps": same, "cached_property": same, "total_ordering": same}
    elif name == "operator":
        m = {"attrgetter": H("attrgetter", lambda i, a, k: Host("ag", lambda j, b, kk: j.getattr(b[0], a[0], None))), "itemgetter": H("itemgetter", lambda i, a, k: Host("ig", lambda j, b, kk: j.index(b[0], a[0], None)))}
    elif name == "re":
        m = {x: H(x, l_re(x)) for x in ("search", "match", "fullmatch")}
        def comp(i, a, k):
            o = Inst("pattern", {"p": a[0]})
            for x in ("search", "match", "fullmatch"): o.attrs[x] = Host(x, lambda j, b, kk, x=x: l_re(x)(j, [a[0]] + list(b), kk))
            return o
        m["compile"] = H("compile", comp); m["sub"] = H("sub", lambda i, a, k: anytext(("re.sub", repr(a)[:80]))); m["escape"] = H("escape", lambda i, a, k: a[0])
        for x in ("IGNORECASE", "I", "ASCII", "A", "MULTILINE", "M"): m[x] = 0
        m["Pattern"] = Opaque("re.Pattern"); m["error"] = ValueError
        def findall(i, a, k):
            c = class_of_pattern(a[0]) if isinstance(a[0], str) else None
            if c is None or any(c[2]): i.err(None, "findall")
            return VList(["x"], i) if i.has_char(a[1], c[0]) else VList([], i)
        m["findall"] = H("findall", findall)
    elif name in ("typing", "types", "abc", "numbers", "dataclasses", "typing_extensions", "__future__", "enum"):
        m = {x: Opaque(name + "." + x) for x in ("Any", "Optional", "Union", "List", "Dict", "Set", "Tuple", "Callable", "Iterable", "Iterator", "Sequence", "Mapping", "NamedTuple", "ClassVar", "Final", "Literal", "TypedDict", "Protocol", "NoReturn", "Type", "Generator", "TYPE_CHECKING", "ABC", "abstractmethod", "MappingProxyType", "dataclass", "field",
                                              "SimpleNamespace", "Integral", "Number", "Real", "Text", "Collection", "Hashable", "Enum", "IntEnum", "auto", "Self", "TypeVar", "Generic", "overload", "cast")}
        m["TYPE_CHECKING"] = False; m["MappingProxyType"] = H("MappingProxyType", lambda i, a, k: a[0]); m["cast"] = H("cast", lambda i, a, k: a[1]); m["ABC"] = object
        for x in ("TypeVar", "Final"): m.setdefault(x, Opaque(x))
        m["TypeVar"] = H("TypeVar", lambda i, a, k: Opaque("T")); m["dataclass"] = H("dataclass", lambda i, a, k: a[0] if a else Host("deco", lambda j, b, kk: b[0]))
        if name == "enum": it.err(None, "enum module")
    elif name == "contextlib":
        m = {"suppress": H("suppress", lambda i, a, k: Inst("suppress", {"classes": tuple(a)})), "contextmanager": Opaque("contextmanager"), "nullcontext": H("nullcontext", lambda i, a, k: a[0] if a else None), "closing": H("closing", lambda i, a, k: a[0])}
    elif name == "copy": m = {"copy": H("copy", lambda i, a, k: method_of(i, a[0], "copy", [], {}, None)), "deepcopy": H("deepcopy", lambda i, a, k: deep(i, a[0]))}
    elif name == "math": m = {"inf": float("inf")}
    else:
        mod = it.host_module(name)
        if mod is not None: return mod
        it.err(None, "module " + name)
    return Module(name, m)
def deep(it, v):
    if isinstance(v, VList): return VList([Seg(deep(it, x.v), x.k) if isinstance(x, Seg) else deep(it, x) for x in v.items], it)
    if isinstance(v, VDict): return VDict([Seg([x.v[0], deep(it, x.v[1])], x.k) if isinstance(x, Seg) else [x[0], deep(it, x[1])] for x in v.items], it, v.default)
    return v
