"""C33: abstract interpretation of the command line driver; every argument combination and every failure point up to the output."""
from .core import AnalysisError, Ctx, PathEnd, Budget
from . import pysrc
from .pyabs import *
from .pyabs import _string
from .result import Result

OUTPUT = ("generated code",)
LOADFAIL = ["FileNotFoundError", "PermissionError", "IsADirectoryError", "UnicodeDecodeError", "KeyError", "RecursionError", "ValueError", "TypeError", "NotImplementedError", "IndexError", "AttributeError", "TOMLDecodeError"]
GENFAIL = ["NotImplementedError", "KeyError", "ValueError", "FileNotFoundError", "RecursionError", "AttributeError"]
OSFAIL = ["PermissionError", "FileNotFoundError", "IsADirectoryError"]
class TOMLDecodeError(ValueError): pass
HOSTEXC = dict(EXCS, TOMLDecodeError=TOMLDecodeError)
class CI(Interp):
    LIMIT = 200000
    def __init__(self, world, ctx):
        Interp.__init__(self, world, ctx)
        self.args = {}; self.failed = []; self.generated = False; self.late = None; self.specs = {}
    def ev(self, *e): self.events.append(e)
    def fail(self, kinds, what):
        """one of the ways this step can fail, or none"""
        i = self.ctx.choose(len(kinds) + 1)
        if i == 0: return
        self.failed.append(what)
        self.throw(HOSTEXC[kinds[i - 1]], anytext((what, kinds[i - 1])))
    def name_fact(self, a, b):
        """the unknown language is none of the texts the program knows, in whatever case"""
        for x, y in ((a, b), (b, a)):
            sx = segs_of(x)
            if isinstance(y, str) and len(sx) == 1 and not isinstance(sx[0], str):
                c = sx[0]
                while c.key[0] in ("lower", "upper", "fold"): c = Chunk.table[c.key[1]]
                if c.key == ("arg", "another language"): return False
        return Interp.name_fact(self, a, b)
    # ---- arguments
    def arg(self, name):
        if name in self.args: return self.args[name]
        sp = self.specs.get(name, {})
        opts = {"version": [False, True], "protocol": [None, anytext1("protocol path")], "lang": ["lang1", "lang2", None, anytext1("another language")], "output": [None, anytext1("output path")],
                "namespace": [None, name_chunk("ns"), mkstr([name_chunk("ns1"), charset(("ws", "cli"), WS), name_chunk("ns2")]), ""], "indent": [None, anytext1("indent"), ""]}.get(name)
        if opts is None: v = Opaque("argument " + name)
        else:
            v = opts[self.ctx.choose(len(opts))]
            if v is None and sp.get("default") is not None: v = sp["default"]
        self.args[name] = v
        if name == "lang" and not isinstance(v, Opaque):
            if v is None: self.failed.append("no language given")
            elif not isinstance(v, str): self.failed.append("unknown language")
        if name == "protocol" and v is None: self.failed.append("no protocol given")
        if name == "namespace" and isinstance(v, AStr) and len(v.segs) > 1: self.failed.append("namespace with whitespace")
        return v
    def opaque_truth(self, v, n): return self.decide(("truth", v.name))
    def opaque_attr(self, v, name, n): return Opaque(v.name + "." + name)
    def opaque_call(self, f, args, kw, n): return Opaque(f.name + "()")
    def opaque_iter(self, v, n): return iter(())
    # ---- stubs
    def stub_call(self, f, args, kw, n):
        if f.cls == "writer class":
            self.fail(["KeyError"], "writer could not be made"); return Inst("writer", {})
        return Interp.stub_call(self, f, args, kw, n)
    def stub_attr(self, v, name, n):
        H = lambda fn: Host(name, fn); c = v.cls
        if c == "writer class":
            if name == "__name__": return "Writer"
            if name == "in_progress": return False
            if name == "get_additional_args": return H(lambda it, a, k: None)
            return Opaque("writer class." + name)
        if c == "writer":
            if name == "generate":
                def gen(it, a, k):
                    it.fail(GENFAIL, "generation failed"); it.generated = True; return mkstr([Chunk.get(OUTPUT, None, 1, INF)])
                return H(gen)
            return Opaque("writer." + name)
        if c == "parser":
            if name == "add_argument":
                def add(it, a, k):
                    long = [x for x in a if isinstance(x, str)]; dest = k.get("dest") or (max(long, key=len).lstrip("-").replace("-", "_") if long else "?")
                    it.specs[dest] = k; return None
                return H(add)
            if name in ("add_argument_group", "add_mutually_exclusive_group", "add_subparsers"): return H(lambda it, a, k: v)
            if name in ("parse_args", "parse_known_args"):
                def parse(it, a, k):
                    for d, sp in it.specs.items():
                        if sp.get("action") == "version" and it.ctx.choose(2) == 1: it.args["version"] = True; it.ev("stdout"); it.throw(SystemExit, 0)
                        bad = sp.get("required") is True and it.arg(d) is None
                        ch = sp.get("choices")
                        if ch is not None and it.arg(d) is not None and not it.member(ch, it.arg(d), n): bad = True
                        if bad: it.ev("stderr"); it.throw(SystemExit, 2)
                        if d in ("protocol", "lang", "output", "namespace", "indent") and sp.get("type") not in (None, str): it.err(n, "argument conversion")
                    o = Inst("args", {}); return o if name == "parse_args" else (o, VList([], it))
                return H(parse)
            if name == "error":
                def err(it, a, k): it.ev("stderr"); it.throw(SystemExit, 2)
                return H(err)
            if name == "exit":
                def ex(it, a, k):
                    st = a[0] if a else k.get("status", 0)
                    if (a[1] if len(a) > 1 else k.get("message")): it.ev("stderr")
                    it.throw(SystemExit, st)
                return H(ex)
            if name in ("print_help", "print_usage"):
                def ph(it, a, k):
                    f = a[0] if a else k.get("file"); it.output(f, "", "")
                return H(ph)
            if name in ("format_help", "format_usage"): return H(lambda it, a, k: anytext((name,)))
            return H(lambda it, a, k: None)
        if c == "args":
            if name == "_get_kwargs": return H(lambda it, a, k: VList([(d, it.arg(d)) for d in it.specs], it))
            if name == "__dict__": return VDict([[d, self.arg(d)] for d in self.specs], self)
            if name in self.specs: return self.arg(name)
            self.throw(AttributeError, name)
        if c == "stream":
            which = v.attrs["name_"]
            if name in ("write", "writelines"): return H(lambda it, a, k: it.ev(which, a[0]))
            if name == "buffer": return v
            if name in ("flush", "close", "reconfigure"): return H(lambda it, a, k: None)
            if name in ("isatty", "fileno"): return H(lambda it, a, k: False)
        if c == "file":
            if name in ("write", "writelines"): return H(lambda it, a, k: it.ev("write", v.attrs["path"], a[0]))
            if name in ("close", "flush", "fileno", "seek", "truncate"): return H(lambda it, a, k: None)
            if name == "name": return v.attrs["path"]
            if name in ("read", "readlines"): return H(lambda it, a, k: anytext(("file contents",)))
        if c == "path":
            p = v.attrs["p"]
            if name in ("write_text", "write_bytes"):
                def wt(it, a, k): it.create(p, "w"); it.ev("write", p, a[0])
                return H(wt)
            if name == "open": return H(lambda it, a, k: it.open_file([p] + list(a), k))
            if name in ("exists", "is_file", "is_dir"): return H(lambda it, a, k: it.decide((name, repr(p))))
            if name in ("unlink", "touch", "rename", "replace"):
                def destroy(it, a, k): it.opened(p, name)
                return H(destroy)
            if name in ("mkdir",): return H(lambda it, a, k: None)
            if name in ("read_text",): return H(lambda it, a, k: anytext(("file contents",)))
            if name in ("resolve", "absolute", "expanduser", "with_suffix", "with_name"): return H(lambda it, a, k: Inst("path", {"p": p if name in ("resolve", "absolute", "expanduser") else Opaque("path near")}))
            if name in ("parent",): return Inst("path", {"p": Opaque("parent")})
            if name in ("name", "suffix", "stem"): return anytext((name,))
        if c == "protocol": return Opaque("protocol." + name)
        return Interp.stub_attr(self, v, name, n)
    def stub_binop(self, op, a, b, n): return Inst("path", {"p": Opaque("path")})
    def leave(self, m, exc, n):
        if isinstance(m, Inst) and m.cls in ("file", "stream"): return False
        return Interp.leave(self, m, exc, n)
    def opened(self, path, how):
        if isinstance(path, Inst) and path.cls == "path": path = path.attrs["p"]
        out = self.args.get("output")
        if isinstance(path, Opaque) and path.name.startswith("temporary"): return
        self.ev("open", path, how, self.generated)
    def create(self, path, mode):
        if self.ctx.choose(2): self.failed.append("output not writable"); self.throw(PermissionError, anytext(("unwritable",)))
        self.opened(path, mode)
    def open_file(self, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(mode, str): self.err(None, "open mode")
        path = a[0].attrs["p"] if isinstance(a[0], Inst) and a[0].cls == "path" else a[0]
        if isinstance(path, int): return Inst("stream", {"name_": {1: "stdout", 2: "stderr"}.get(path, "other")})
        if any(c in mode for c in "wax+"):
            self.create(path, mode)
        else: self.fail(OSFAIL, "unreadable file")
        return Inst("file", {"path": path})
    def output(self, f, text, end):
        if f is None: self.ev("stdout", text); return
        if isinstance(f, Inst) and f.cls == "stream": self.ev(f.attrs["name_"], text); return
        if isinstance(f, Inst) and f.cls == "file": self.ev("write", f.attrs["path"], text); return
        self.err(None, "print to %r" % (f,))
    def host_module(self, name):
        H = lambda n, f: Host(name + "." + n, f)
        if name == "argparse":
            def parser(it, a, k): return Inst("parser", {})
            return Module(name, {"ArgumentParser": H("ArgumentParser", parser), "Namespace": Opaque("Namespace"), "ArgumentTypeError": TypeError, "ArgumentError": TypeError, "SUPPRESS": "==SUPPRESS==", "RawDescriptionHelpFormatter": Opaque("fmt"), "ArgumentDefaultsHelpFormatter": Opaque("fmt"), "HelpFormatter": Opaque("fmt"), "BooleanOptionalAction": Opaque("boa")})
        if name == "sys":
            def ex(it, a, k): it.throw(SystemExit, *(a or [None]))
            s = lambda w: Inst("stream", {"name_": w})
            return Module(name, {"exit": H("exit", ex), "stdout": s("stdout"), "stderr": s("stderr"), "argv": VList(["beschi"], self), "exc_info": H("exc_info", lambda it, a, k: (Opaque("exc type"), Opaque("exc"), Opaque("tb"))), "version_info": (3, 12, 0), "platform": "linux", "__stderr__": s("stderr"), "__stdout__": s("stdout"), "stdin": s("stdin")})
        if name == "traceback":
            def pe(it, a, k): it.output(k.get("file") or Inst("stream", {"name_": "stderr"}), "traceback", "")
            return Module(name, {"format_exc": H("format_exc", lambda it, a, k: mkstr(["Traceback", anytext(("tb",))])), "print_exc": H("print_exc", pe), "print_exception": H("print_exception", pe), "format_exception": H("fe", lambda it, a, k: VList([anytext(("tb",))], it))})
        if name == "os":
            ch = lambda nm: H(nm, lambda it, a, k: it.decide((nm, repr(a[0]))))
            def destroy(nm):
                def f(it, a, k):
                    for p in a: it.opened(p, nm)
                return H(nm, f)
            pth = Module("os.path", {"join": H("join", lambda it, a, k: mkstr([x for p in a for x in (it.to_str(p, None), "/")][:-1])), "basename": H("bn", lambda it, a, k: anytext(("bn",))), "dirname": H("dn", lambda it, a, k: anytext(("dn",))), "abspath": H("ap", lambda it, a, k: a[0]), "realpath": H("ap", lambda it, a, k: a[0]), "expanduser": H("eu", lambda it, a, k: a[0]), "splitext": H("se", lambda it, a, k: (a[0], "")), "exists": ch("exists"), "isfile": ch("isfile"), "isdir": ch("isdir")})
            return Module(name, {"path": pth, "remove": destroy("remove"), "unlink": destroy("unlink"), "rename": destroy("rename"), "replace": destroy("replace"), "truncate": destroy("truncate"), "makedirs": H("makedirs", lambda it, a, k: None), "access": ch("access"), "R_OK": 4, "W_OK": 2, "linesep": "\n", "sep": "/", "environ": VDict([], self), "fspath": H("fspath", lambda it, a, k: a[0]),
                                 "_exit": H("_exit", lambda it, a, k: it.throw(SystemExit, a[0])), "EX_OK": 0, "EX_USAGE": 64, "EX_DATAERR": 65, "EX_NOINPUT": 66, "EX_SOFTWARE": 70, "getcwd": H("getcwd", lambda it, a, k: "/"), "close": H("close", lambda it, a, k: None), "fdopen": H("fdopen", lambda it, a, k: Inst("file", {"path": Opaque("temporary file")}))})
        if name == "os.path": return self.module("os").attrs["path"]
        if name == "pathlib":
            mk = H("Path", lambda it, a, k: Inst("path", {"p": a[0].attrs["p"] if isinstance(a[0], Inst) else a[0]}))
            return Module(name, {"Path": mk, "PurePath": mk})
        if name == "tempfile":
            f = H("tmp", lambda it, a, k: Inst("file", {"path": Opaque("temporary file")}))
            return Module(name, {"NamedTemporaryFile": f, "TemporaryFile": f, "mkstemp": H("mkstemp", lambda it, a, k: (3, Opaque("temporary file")))})
        if name == "shutil":
            def mv(it, a, k): it.opened(a[1], "w")
            return Module(name, {x: H(x, mv) for x in ("move", "copy", "copyfile", "copy2")})
        if name in ("tomllib", "tomli"): return Module(name, {"TOMLDecodeError": TOMLDecodeError, "load": Opaque("load"), "loads": Opaque("loads")})
        if name == "logging":
            e = H("log", lambda it, a, k: it.ev("stderr", a[0]))
            return Module(name, {x: e for x in ("error", "critical", "exception", "warning")} | {x: H(x, lambda it, a, k: None) for x in ("info", "debug", "basicConfig")})
        if name == "warnings": return Module(name, {"warn": H("warn", lambda it, a, k: it.ev("stderr", a[0]))})
        if name == "io": return Module(name, {"StringIO": H("StringIO", lambda it, a, k: Inst("file", {"path": Opaque("temporary buffer")})), "TextIOWrapper": Opaque("tio"), "UnsupportedOperation": OSError})
        if name in ("textwrap", "inspect", "importlib", "time", "datetime", "platform", "gettext", "locale", "signal", "atexit", "errno"): return Module(name, {})
        return None
    def module(self, name):
        if name in self.mods: return self.mods[name]
        if name in ("beschi.writers", "beschi.protocol"):
            m = self.world[name]; env = Env(None); mod = self.mods[name] = Module(name, env.v); mod.env = env; mod.m = m
            env.v["__name__"] = name
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Assign, ast.AnnAssign, ast.Import, ast.ImportFrom)):
                    if name == "beschi.writers" and isinstance(s, ast.ImportFrom) and s.level: continue
                    try: self.stmt(s, env, mod)
                    except (AnalysisError, PyExc): pass
            for q, val in self.hooks.items():
                if q.rpartition(".")[0] == name: env.v[q.rpartition(".")[2]] = val
            return mod
        return Interp.module(self, name)
def anytext1(what): return mkstr([Chunk.get(("arg", what), None, 1, INF)])
def runs(world, entry, limit=60000):
    def run(ctx):
        it = CI(world, ctx)
        def proto(i, a, k):
            if not a or a[0] is None: return Inst("protocol", {})
            i.fail(LOADFAIL, "protocol could not be loaded"); return Inst("protocol", {})
        it.hooks = {"beschi.protocol.Protocol": Host("Protocol", proto), "beschi.writers.all_writers": VDict([["lang1", Inst("writer class", {})]], it), "beschi.writers.experimental_writers": VDict([["lang2", Inst("writer class", {})]], it)}
        try:
            if entry == "script":
                m = it.module("beschi.cli"); it.steps = 0
                f = m.attrs.get("main")
                if f is None: raise AnalysisError("beschi.cli.main vanished")
                r = it.call(f, [], {}, None)
                return ("exit", r, it)
            m = it.world["beschi.__main__"]; it.module("beschi.cli"); env = Env(None); mod = Module("beschi.__main__", env.v); mod.env = env; mod.m = m; env.v["__name__"] = "__main__"
            it.where.append("__main__")
            for s in m.tree.body: it.stmt(s, env, mod)
            return ("exit", None, it)
        except PyExc as p:
            if exc_is(p.v, SystemExit): return ("exit", p.v.args[0] if p.v.args else None, it)
            return ("uncaught", p.v, it)
        except NonTerm: return ("endless", None, it)
    vec = []; n = 0; chain = {}; known = {}
    while True:
        n += 1
        if n > limit: raise Budget("more than %d paths" % limit)
        ctx = Ctx(vec); ctx.shared = {}; ctx.chain = chain; ctx.known = known
        try: ctx.outcome = run(ctx)
        except PathEnd: ctx.outcome = None
        if ctx.outcome is not None: yield ctx
        t = ctx.taken
        while t and t[-1][0] + 1 >= t[-1][1]: t.pop()
        if not t: return
        vec = [o for o, _ in t[:-1]] + [t[-1][0] + 1]
def check(thorough):
    world = pysrc.load(); res = Result(); total = fails = succ = 0; reasons = {}
    if "beschi.cli" not in world: raise RuntimeError("module beschi.cli vanished")
    for entry in ("script", "python -m"):
        if entry != "script" and "beschi.__main__" not in world: continue
        for c in runs(world, entry):
            kind, v, it = c.outcome; total += 1
            status = 0; err = any(e[0] == "stderr" for e in it.events)
            if kind == "exit":
                if v is None or v is False: status = 0
                elif v is True: status = 1
                elif isinstance(v, int): status = v & 255
                elif is_str(v): status = 1; err = True
                else: status = None if isinstance(v, Opaque) else 1
            elif kind == "uncaught": status = 1; err = True
            why = "; ".join(dict.fromkeys(it.failed)) if it.failed else None
            if it.args.get("version") is True: why = None
            opens = [e for e in it.events if e[0] == "open"]
            def add(msg): res.add("%s: %s (%s)" % (entry, msg, why or "no failure"), "beschi/cli.py (main)", "%s when %s%s" % (msg, why or "nothing has failed", "" if it.args.get("output") is None else "; an output file was asked for"))
            if kind == "endless": add("does not end"); continue
            for e in opens:
                if not e[3]: add("the output file is opened (%s) before generation has succeeded" % e[2]); break
            if why is None:
                succ += 1
                continue
            fails += 1; reasons[why] = reasons.get(why, 0) + 1
            if status == 0: add("ends with status zero")
            if not err: add("says nothing on the error stream")
            if opens and it.failed != ["output not writable"]: add("touches the output file")
            if any(e[0] == "stdout" and any(not isinstance(s, str) and s.key == OUTPUT for s in segs_of(e[1])) for e in it.events if len(e) > 1 and is_str(e[1])): add("prints generated code")
    need = ["no protocol given", "no language given", "unknown language", "protocol could not be loaded", "generation failed", "output not writable"]
    miss = [n for n in need if not any(n in r for r in reasons)]
    if miss: res.broken.append("no path reaches: " + ", ".join(miss))
    if not succ: res.broken.append("no path succeeds")
    res.coverage.update(paths=total, failing_paths=fails, succeeding_paths=succ, failure_points=reasons, rule="on every path on which arguments, protocol, language or generation fail: status not zero, text on the error stream, output file not opened; on every path the output is opened only after generate() returned",
                        explanation="%d paths through the driver (%d failing, %d succeeding) from both entry points" % (total, fails, succ))
    res.summary.append("C33: %d paths, %d failing, %d succeeding" % (total, fails, succ))
    return res
