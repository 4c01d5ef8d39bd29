"""C18: every generated source of the protocol family goes through the target language's own compiler front end / type checker."""
import glob, json, os, re, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from . import gen, schema as S

ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME") or "/root", LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""),
           GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", CARGO_NET_OFFLINE="true", DOTNET_CLI_TELEMETRY_OPTOUT="1", DOTNET_NOLOGO="1", DOTNET_SKIP_FIRST_TIME_EXPERIENCE="1")
for k in ("CFLAGS", "CPPFLAGS", "RUSTFLAGS", "GOFLAGS"): ENV.pop(k, None)
NODEMODS = "/opt/veriftools/node/node_modules"

def sh(cmd, cwd, timeout=600, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout + r.stderr

class Unit:
    """one generated source to be type-checked"""
    def __init__(self, key, lang, text, ns): self.key = key; self.lang = lang; self.text = text; self.ns = ns; self.diags = []
    def name(self): return "%s/%s" % (self.lang, self.key)

def first_err(out, n=40):
    lines = [l for l in out.splitlines() if re.search(r"error|warning|^ *-->", l)]
    return [re.sub(r"/tmp/beschi-cc-\w+/", "", l)[:300] for l in lines[:n]] or [out[:300]]

def c_units(us, top):
    W = ["-pedantic-errors", "-Wall", "-Wextra", "-Werror", "-Wno-float-equal", "-Wno-padded", "-Wno-unused-parameter"]
    gcc = "gcc-13" if shutil.which("gcc-13") else "gcc"; gxx = "g++-13" if shutil.which("g++-13") else "g++"
    def one(u):
        d = os.path.join(top, "c_" + u.key); os.mkdir(d)
        open(os.path.join(d, "p.h"), "w").write(u.text)
        guard = re.findall(r"^#ifdef (\w+_IMPLEMENTATION)", u.text, re.M)
        src = "".join("#define %s\n" % g for g in sorted(set(guard))) + '#include "p.h"\n'
        open(os.path.join(d, "p.c"), "w").write(src)
        open(os.path.join(d, "q.c"), "w").write('#include "p.h"\n#include "p.h"\nint q(void);\nint q(void) { return 0; }\n')
        for cc, std in ((gcc, ["-std=c99"]), (gxx, ["-x", "c++", "-std=c++20"])):
            for f in ("p.c", "q.c"):
                rc, out = sh([cc, *std, *(W if cc == gxx else W + ["-Wno-declaration-after-statement"]), "-O1", "-c", "-o", "/dev/null", f], d)
                if rc: u.diags += ["%s %s: %s" % (cc, std[-1], l) for l in first_err(out)]
    return one
def go_batch(us, top):
    d = os.path.join(top, "go"); os.mkdir(d)
    open(os.path.join(d, "go.mod"), "w").write("module x\n\ngo 1.20\n")
    for u in us:
        p = os.path.join(d, "p_" + u.key); os.mkdir(p)
        open(os.path.join(p, "p.go"), "w").write(u.text)
    rc, out = sh(["go", "vet", "./..."], d, env=dict(ENV, GOFLAGS="-mod=mod"))
    if rc:
        hit = False
        for u in us:
            ls = [l for l in out.splitlines() if ("p_" + u.key + "/") in l]
            if ls: u.diags += ls[:3]; hit = True
        if not hit: raise RuntimeError("go vet: " + out[:500])
def rust_units(us, top):
    def one(u):
        d = os.path.join(top, "rs_" + u.key); os.mkdir(d)
        open(os.path.join(d, "p.rs"), "w").write(u.text)
        rc, out = sh(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--emit=metadata", "-D", "warnings", "-A", "nonstandard_style", "-o", "p.rmeta", "p.rs"], d)
        if rc: u.diags += first_err(out)
    return one
def cs_units(us, top):
    csc = sorted(glob.glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll"))
    refs = sorted(glob.glob("/usr/lib/dotnet/packs/Microsoft.NETCore.App.Ref/*/ref/net8*/*.dll"))
    if not csc or not refs: raise RuntimeError("no C# compiler")
    rsp = os.path.join(top, "refs.rsp"); open(rsp, "w").write("\n".join("-r:%s" % r for r in refs))
    def one(u):
        d = os.path.join(top, "cs_" + u.key); os.mkdir(d)
        open(os.path.join(d, "p.cs"), "w").write(u.text)
        rc, out = sh(["dotnet", "exec", csc[-1], "-noconfig", "-nostdlib", "-nologo", "-target:library", "-warn:4", "-warnaserror", "-out:p.dll", "@" + rsp, "p.cs"], d)
        if rc: u.diags += first_err(out)
    return one
def zig_units(us, top):
    def one(u):
        d = os.path.join(top, "zig_" + u.key); os.mkdir(d)
        open(os.path.join(d, "p.zig"), "w").write(u.text)
        open(os.path.join(d, "root.zig"), "w").write('''const p = @import("p.zig");
fn refAll(comptime T: type) void {
    inline for (comptime @typeInfo(T).Struct.decls) |d| {
        const v = @field(T, d.name);
        if (@TypeOf(v) == type) {
            switch (@typeInfo(v)) { .Struct => refAll(v), else => {} }
        } else if (@typeInfo(@TypeOf(v)) == .Fn) {
            if (!@typeInfo(@TypeOf(v)).Fn.is_generic) { _ = &v; }
        }
    }
}
comptime { @setEvalBranchQuota(200000); refAll(p); }
''')
        e = dict(ENV, ZIG_GLOBAL_CACHE_DIR=os.path.join(top, "zc"), ZIG_LOCAL_CACHE_DIR=os.path.join(d, "lc"))
        rc, out = sh(["zig", "ast-check", "p.zig"], d, env=e)
        if rc == 0: rc, out = sh(["zig", "build-obj", "-fno-emit-bin", "root.zig"], d, env=e)
        if rc: u.diags += first_err(out)
        shutil.rmtree(os.path.join(d, "lc"), ignore_errors=True)
    return one
AS_SHIM = '''
type i8 = number; type u8 = number; type i16 = number; type u16 = number; type i32 = number; type u32 = number;
type usize = number; type isize = number; type f32 = number; type f64 = number; type bool = boolean;
type i64 = bigint; type u64 = bigint;
declare const i8: {MAX_VALUE: number; MIN_VALUE: number}; declare const u8: typeof i8; declare const i16: typeof i8; declare const u16: typeof i8; declare const i32: typeof i8; declare const u32: typeof i8;
interface Uint8ArrayConstructor { wrap(b: ArrayBuffer, off?: number, len?: number): Uint8Array; }
interface DataView { getInt64(o: number, le?: boolean): bigint; getUint64(o: number, le?: boolean): bigint; setInt64(o: number, v: bigint, le?: boolean): void; setUint64(o: number, v: bigint, le?: boolean): void; }
interface StringConstructor { UTF8: { encode(s: string, nt?: boolean): ArrayBuffer; decode(b: ArrayBuffer, nt?: boolean): string; byteLength(s: string, nt?: boolean): number; }; }
'''
def ts_batch(us, top, as_=False, sub=""):
    """one tsc program; every generated file is its own module"""
    d = os.path.join(top, ("as" if as_ else "ts") + sub); os.mkdir(d)
    for u in us: open(os.path.join(d, "f_%s.ts" % u.key), "w").write(u.text)
    if as_:
        open(os.path.join(d, "shim.d.ts"), "w").write(AS_SHIM)
    files = ["f_%s.ts" % u.key for u in us] + (["shim.d.ts"] if as_ else [])
    co = dict(noEmit=True, target="es2020", module="es2020", lib=["es2020", "dom"], types=[], pretty=False)
    for o in ("noImplicitAny", "noFallthroughCasesInSwitch", "noPropertyAccessFromIndexSignature", "noImplicitOverride", "noImplicitReturns", "noImplicitThis", "strictNullChecks"): co[o] = True
    json.dump(dict(compilerOptions=co, files=files), open(os.path.join(d, "tsconfig.json"), "w"))
    rc, out = sh(["node", os.path.join(NODEMODS, "typescript/bin/tsc"), "-p", "tsconfig.json"], d)
    if rc:
        hit = False
        for u in us:
            ls = [l for l in out.splitlines() if l.startswith("f_%s.ts" % u.key)]
            if as_: ls = [l for l in ls if not as_noise(l)]
            if ls: u.diags += ls[:3]
            hit = hit or ls
        if not hit and not as_: raise RuntimeError("tsc: " + out[:500])
def as_noise(l):
    # number/bigint mixing is legal between AssemblyScript's integer types; tsc cannot see that
    return bool(re.search(r"bigint|TS2367|TS2365", l)) or ("TS2322" in l and "'number' is not assignable to type 'boolean'" in l)

def family(thorough):
    fam = [S.CORE, S.NOMETA, S.E256, S.EMPTYS, S.NAMES, S.ONEMSG, S.SIMPLEONLY, S.MANY]
    if thorough: fam += [S.sized(l, s) for l in S.SIZE_TYPES for s in S.SIZE_TYPES]
    else:
        n = len(S.SIZE_TYPES)
        fam += [S.sized(S.SIZE_TYPES[i], S.SIZE_TYPES[(i + 3) % n]) for i in range(n)]
    return fam
def optsets(thorough):
    o = [("embed", ["--embed-protocol"]), ("ns", ["--namespace", "Other"]), ("tab", ["--indent", "  "])]
    return o
def typecheck(units):
    top = tempfile.mkdtemp(prefix="beschi-cc-")
    try:
        by = {l: [u for u in units if u.lang == l] for l in gen.LANGS}
        tasks = []
        for l, mk in (("zig", zig_units), ("c", c_units), ("csharp", cs_units), ("rust", rust_units)):
            if by[l]:
                f = mk(by[l], top); tasks += [(f, u) for u in by[l]]
        with ThreadPoolExecutor(8) as ex:
            fs = []
            if by["go"]: fs.append(ex.submit(go_batch, by["go"], top))
            if by["typescript"]:
                flag = [u for u in by["typescript"] if "__flag" in u.key]     # global namespaces: one program each
                fs.append(ex.submit(ts_batch, [u for u in by["typescript"] if u not in flag], top))
                for u in flag: fs.append(ex.submit(ts_batch, [u], top, False, u.key))
            if by["assemblyscript"]: fs.append(ex.submit(ts_batch, by["assemblyscript"], top, True))
            fs += [ex.submit(f, u) for f, u in tasks]
            for f in fs: f.result()
    finally:
        shutil.rmtree(top, ignore_errors=True)
def run(thorough=False, langs=None):
    """-> (units, rejected jobs)"""
    jobs = []
    for sc in family(thorough):
        for l in gen.LANGS:
            jobs.append(gen.Job(sc.toml(), l, [], key=sc.name)); jobs[-1].ns = sc.ns
    for on, o in optsets(thorough):
        for l in gen.LANGS:
            if l == "swift": continue
            for sc in (S.CORE, S.sized("int16", "byte")):
                jobs.append(gen.Job(sc.toml(), l, o, key=sc.name + "__" + on))
    for l, fl in (("go", "--go-no-rename"), ("rust", "--rust-no-rename"), ("typescript", "--typescript-use-namespace")):
        for sc in (S.CORE, S.NAMES): jobs.append(gen.Job(sc.toml(), l, [fl], key=sc.name + "__flag"))
    gen.run(jobs)
    jobs = [j for j in jobs if not (j.code == 2 and "__flag" in j.key)]
    units = []; rejected = []
    for j in jobs:
        if j.code != 0 or j.out is None: rejected.append(j); continue
        if langs and j.lang not in langs: continue
        units.append(Unit(j.key, j.lang, j.out, None))
    typecheck(units)
    return units, rejected

def norm(d):
    """diagnostic without positions, so that the finding names the construct"""
    d = re.sub(r"^\S*?(\w+\.(?:c|h|cs|go|rs|ts|zig))?[(:]\d+[,:]\d+\)?:?", "", d)
    d = re.sub(r"\b\d+[:,]\d+\b", "", d)
    return d.strip()[:160]
def check(thorough):
    from .result import Result
    res = Result("other")
    units, rej = run(thorough)
    per = {}
    for u in units:
        n = per.setdefault(u.lang, [0, 0]); n[0] += 1
        for d in u.diags[:3]:
            n[1] += 1
            res.add("compile %s: %s" % (u.lang, norm(d)), u.name(), d)
    for j in rej:
        res.add("reject %s %s" % (j.lang, j.key), "%s/%s" % (j.lang, j.key), "no source generated for a valid protocol: exit %s %s" % (j.code, (j.err or "").strip().splitlines()[-1:] ))
    tools = dict(c="gcc -std=c99 and g++ -std=c++20, -Wall -Wextra -Werror -pedantic-errors, with and without implementation, included twice", csharp="Roslyn csc -warnaserror -warn:4", go="go vet (type checker and analysers)",
                 rust="rustc --emit=metadata -D warnings", typescript="tsc strict options", assemblyscript="tsc with a shim for the AssemblyScript numeric types", zig="zig ast-check and semantic analysis of every declaration")
    res.coverage.update(sources={l: n[0] for l, n in per.items()}, diagnostics={l: n[1] for l, n in per.items()}, rule="the target compiler's own front end accepts every generated source without a diagnostic", tools=tools,
        explanation="type-checked (never run): " + ", ".join("%d %s" % (n[0], l) for l, n in sorted(per.items())) + " sources generated from /repo over the protocol family and the option sets; Swift has no compiler here")
    res.summary.append("C18: " + ", ".join("%s %d" % (l, n[0]) for l, n in sorted(per.items())))
    for l in gen.LANGS:
        if l == "swift": continue
        if per.get(l, [0])[0] < 10 and not rej: res.broken.append("only %d %s sources" % (per.get(l, [0])[0], l))
    # the tools must still reject an obviously ill-typed source (expected-zero rule)
    bad = {"c": "int x = \"a\" ;\nint f(void){return y;}", "csharp": "class A { int f() { return \"a\"; } }", "go": "package p\nvar x int = \"a\"", "rust": "pub fn f() -> u8 { \"a\" }", "typescript": "export const x: number = 'a';", "assemblyscript": "export const x: u8 = 'a';", "zig": "pub const x: u8 = \"a\";"}
    us = [Unit("bad", l, t, None) for l, t in bad.items()]
    typecheck(us)
    for u in us:
        if not u.diags: res.broken.append("the %s checker accepts an ill-typed source" % u.lang)
    return res
