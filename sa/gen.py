"""Build step: obtains the generated sources by running the repository's own command line, each job in a forked process of its own."""
import json, os, subprocess, sys, tempfile, shutil
REPO = os.environ.get("BESCHI_REPO", "/repo")
PY = os.environ.get("BESCHI_PY") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
LANGS = ["c","csharp","go","rust","swift","typescript","assemblyscript","zig"]
EXT = dict(c="h", csharp="cs", go="go", rust="rs", swift="swift", typescript="ts", assemblyscript="ts", zig="zig")
RUNNER = r'''
import sys, os, json, runpy
jobs = json.load(open(sys.argv[1]))
sys.path.insert(0, sys.argv[2])
sys.dont_write_bytecode = True
import beschi.cli
res = []
def run(j):
    d = j["dir"]
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.chdir(d)
            o = os.open("stdout", os.O_WRONLY|os.O_CREAT|os.O_TRUNC); e = os.open("stderr", os.O_WRONLY|os.O_CREAT|os.O_TRUNC)
            os.dup2(o, 1); os.dup2(e, 2)
            sys.argv = ["beschi"] + j["args"]
            sys.modules.pop("beschi.__main__", None)
            import traceback
            try:
                import signal
                signal.alarm(j.get("timeout", 60))
                runpy.run_module("beschi", run_name="__main__")
                code = 0
            except SystemExit as x:
                code = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
            except BaseException:
                traceback.print_exc(); code = 99
            sys.stdout.flush(); sys.stderr.flush()
        finally:
            os._exit(code)
    return pid
import itertools
live = {}
it = iter(enumerate(jobs)); n = 8
codes = [None] * len(jobs)
def reap():
    pid, st = os.wait()
    codes[live.pop(pid)] = os.waitstatus_to_exitcode(st)
for k, j in it:
    if len(live) >= n: reap()
    live[run(j)] = k
while live: reap()
json.dump(codes, open(sys.argv[1] + ".out", "w"))
'''
class GenError(Exception): pass
class Job:
    def __init__(self, schema_text, lang, opts=(), key=None, name="p"):
        self.text = schema_text; self.lang = lang; self.opts = list(opts); self.key = key; self.name = name
        self.code = None; self.out = None; self.err = None
def run(jobs, keep=None):
    """fills job.code (exit status), job.out (generated text or None), job.err"""
    top = tempfile.mkdtemp(prefix="beschi-gen-")
    try:
        spec = []
        for i, j in enumerate(jobs):
            d = os.path.join(top, str(i)); os.mkdir(d)
            with open(os.path.join(d, "p.toml"), "w", encoding="utf-8") as f: f.write(j.text)
            spec.append(dict(dir=d, args=["--lang", j.lang, "--protocol", "p.toml", "--output", "out.txt"] + j.opts))
        sp = os.path.join(top, "jobs.json"); json.dump(spec, open(sp, "w"))
        rn = os.path.join(top, "runner.py"); open(rn, "w").write(RUNNER)
        env = dict(os.environ); env["PYTHONPATH"] = REPO; env["PYTHONDONTWRITEBYTECODE"] = "1"; env["LC_ALL"] = "C.UTF-8"; env.pop("BESCHI_REPO", None)
        r = subprocess.run([PY, "-B", rn, sp, REPO], env=env, cwd=top, capture_output=True, text=True)
        if r.returncode != 0: raise GenError("generator cannot be run: " + r.stderr[-600:])
        codes = json.load(open(sp + ".out"))
        for i, j in enumerate(jobs):
            d = os.path.join(top, str(i)); j.code = codes[i]
            p = os.path.join(d, "out.txt")
            j.out = open(p, encoding="utf-8").read() if os.path.exists(p) else None
            j.err = open(os.path.join(d, "stderr"), encoding="utf-8", errors="replace").read()
            j.stdout = open(os.path.join(d, "stdout"), encoding="utf-8", errors="replace").read()
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return jobs
