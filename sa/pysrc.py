"""Python front end: parsed modules of the repository's package, alias resolution, function index."""
import ast, os
from . import gen

class Mod:
    def __init__(self, name, path, rel):
        self.name = name; self.path = path; self.rel = rel
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src, path)
        self.imports = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n): c.parent = n
            if isinstance(n, ast.Import):
                for a in n.names: self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = name.split(".") if path.endswith("__init__.py") else name.split(".")[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                for a in n.names: self.imports[a.asname or a.name] = base + "." + a.name
    def where(self, n): return "%s:%d (%s)" % (self.rel, n.lineno, func_of(n))
def func_of(n):
    out = []
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): out.append(n.name)
        n = getattr(n, "parent", None)
    return ".".join(reversed(out)) or "<module>"
def load():
    top = os.path.join(gen.REPO, "beschi"); mods = {}
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x != "__pycache__" and x != "boilerplate")
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f); rel = os.path.relpath(p, gen.REPO)
                nm = rel[:-3].replace(os.sep, ".")
                if nm.endswith(".__init__"): nm = nm[:-9]
                mods[nm] = Mod(nm, p, rel)
    return mods
def dotted(n):
    """a.b.c of an attribute chain, or None"""
    if isinstance(n, ast.Name): return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + "." + n.attr
    return None
def local_assignments(fn):
    """name -> list of value expressions assigned in a function or module body"""
    out = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): out.setdefault(t.id, []).append(n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name): out.setdefault(n.target.id, []).append(n.value)
    return out
def enclosing(n):
    n = getattr(n, "parent", None)
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module, ast.Lambda)): n = getattr(n, "parent", None)
    return n
def const_values(e, mod, depth=4):
    """set of possible constant values of an expression (None element: unknown)"""
    if isinstance(e, ast.Constant): return {e.value}
    if isinstance(e, ast.IfExp): return const_values(e.body, mod, depth) | const_values(e.orelse, mod, depth)
    if isinstance(e, ast.Name) and depth:
        f = enclosing(e)
        while f is not None:
            if not isinstance(f, ast.Lambda):
                v = local_assignments(f).get(e.id)
                args = [] if isinstance(f, ast.Module) else f.args.posonlyargs + f.args.args + f.args.kwonlyargs
                if any(a.arg == e.id for a in args): return param_values(f, e.id, mod, depth)
                if v:
                    out = set()
                    for x in v: out |= const_values(x, mod, depth - 1)
                    return out
            f = enclosing(f)
        full = mod.imports.get(e.id)
        if full and mod.world:
            m, _, a = full.rpartition(".")
            if m in mod.world:
                v = local_assignments(mod.world[m].tree).get(a)
                if v:
                    out = set()
                    for x in v: out |= const_values(x, mod.world[m], depth - 1)
                    return out
    return {Unknown}
class Unknown: pass
def param_values(f, name, mod, depth):
    """constants a parameter takes over all call sites of the function in the package"""
    out = set(); a = f.args; pos = a.posonlyargs + a.args
    names = [x.arg for x in pos]
    defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    sites = 0
    for m in (mod.world or {mod.name: mod}).values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call): continue
            cn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if cn != f.name: continue
            sites += 1
            got = None
            for k in n.keywords:
                if k.arg == name: got = k.value
                if k.arg is None: return {Unknown}
            if got is None and name in names:
                i = names.index(name)
                if names[:1] in (["self"], ["cls"]) and isinstance(n.func, ast.Attribute): i -= 1
                if i < len(n.args): got = n.args[i]
                if any(isinstance(x, ast.Starred) for x in n.args): return {Unknown}
            if got is None: got = defaults.get(name)
            out |= {Unknown} if got is None else const_values(got, m, depth - 1)
    return out if sites else {Unknown}
