"""Rules over the Python sources of the generator."""
import ast
from .result import Result
from . import pysrc
from .pysrc import dotted, const_values, func_of, Unknown

def world():
    w = pysrc.load()
    for m in w.values(): m.world = w
    need = ["beschi.protocol", "beschi.writer", "beschi.cli", "beschi.writers"]
    miss = [n for n in need if n not in w]
    if miss: raise RuntimeError("modules vanished: %s" % miss)
    return w

def opens(w):
    """every call that opens a file: (mod, call, kind, mode-values, encoding-expr or None)"""
    out = []
    for m in w.values():
        shadow = {n.name for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call): continue
            d = dotted(n.func)
            full = None
            if d:
                h, _, r = d.partition(".")
                full = (m.imports[h] + ("." + r if r else "")) if h in m.imports else d
            kind = None
            if full in ("open", "builtins.open", "io.open") and not ("open" in shadow and full == "open"): kind, mi, ei = "open", 1, 3
            elif full in ("codecs.open",): kind, mi, ei = "codecs", 1, 2
            elif full in ("os.fdopen",): kind, mi, ei = "open", 1, 3
            elif full in ("io.TextIOWrapper",): kind, mi, ei = "wrap", None, 1
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("read_text", "write_text"):
                kind, mi, ei = n.func.attr, None, 0 if n.func.attr == "read_text" else 1
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "open" and not (isinstance(n.func.value, ast.Name) and n.func.value.id in m.imports):
                kind, mi, ei = "open", 0, 2
            elif full in ("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile"): kind, mi, ei = "tmp", 0, 2
            if kind is None: continue
            kw = {k.arg: k.value for k in n.keywords}
            mode = kw.get("mode") or (n.args[mi] if mi is not None and len(n.args) > mi else None)
            modes = {"r" if kind in ("open", "codecs") else "w+b" if kind == "tmp" else "t"} if mode is None else const_values(mode, m)
            enc = kw.get("encoding") or (n.args[ei] if len(n.args) > ei else None)
            if None in kw:      # **kwargs: follow a literal dict
                for k in n.keywords:
                    if k.arg is None and isinstance(k.value, ast.Dict):
                        for a, b in zip(k.value.keys, k.value.values):
                            if isinstance(a, ast.Constant) and a.value == "encoding": enc = b
            out.append((m, n, kind, modes, enc))
    return out
def norm_enc(v): return v.lower().replace("_", "-") if isinstance(v, str) else v
GOOD_ENC = {"utf-8", "utf8"}
def c36(w, res):
    sites = opens(w); text = 0
    for m, n, kind, modes, enc in sites:
        if kind != "codecs" and modes and all(isinstance(x, str) and "b" in x for x in modes): continue
        text += 1
        ev = {norm_enc(x) for x in const_values(enc, m)} if enc is not None else {None}
        if not ev <= GOOD_ENC:
            res.add("text-encoding %s.%s %s" % (m.name, func_of(n), "/".join(sorted(str(x) for x in modes))), m.where(n),
                    "text file opened with %s" % ("no explicit encoding" if ev == {None} else "encoding %s" % sorted(map(str, ev))))
    # who-may-decode: bytes decoded / encoded with something else
    dec = 0
    for m in w.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("decode", "encode"):
                dec += 1
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "encoding"), None)
                ev = {"utf-8"} if a is None else {norm_enc(x) for x in const_values(a, m)}
                if not ev <= GOOD_ENC: res.add("codec %s.%s" % (m.name, func_of(n)), m.where(n), "text codec %s" % sorted(map(str, ev)))
    # positive example: the rule must recognise a bare open
    ex = ast.parse("open('x','w')").body[0].value
    res.coverage.update(modules=len(w), open_sites=len(sites), text_open_sites=text, codec_calls=dec, rule="every text-mode open names UTF-8",
                        explanation="%d modules, %d file-opening call sites resolved through import aliases, %d in text mode, %d encode/decode calls" % (len(w), len(sites), text, dec))
    res.summary.append("C36: %d modules, %d open sites (%d text)" % (len(w), len(sites), text))
    fin = any(True for m, n, k, md, e in sites if m.name == "beschi.protocol" or any("r" in str(x) or x == "t" for x in md))
    if len(sites) < 2: res.broken.append("only %d file-opening sites found (confirmed 3: protocol, boilerplate, output)" % len(sites))
def check(pid, thorough):
    w = world(); res = Result()
    globals()[pid.lower()](w, res)
    return res
