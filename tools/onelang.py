#!/usr/bin/env python3
"""development aid: onelang.py LANG[,LANG] PROPERTY...  runs the wire analyses for some languages only (not used by any registered check)"""
import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")); sys.dont_write_bytecode = True
from sa import wire
import warnings; warnings.simplefilter("ignore")
ls = sys.argv[1].split(","); wire.languages = lambda: ls
rc = 0
for p in sys.argv[2:]:
    if p == "--thorough": continue
    r = wire.check(p, "--thorough" in sys.argv); seen = set()
    for l in r.summary: print(l[:200])
    for f in r.findings:
        if f.key not in seen and len(seen) < 6: seen.add(f.key); print("  FINDING", p, f.key[:230])
    for g in (r.gaps + r.broken)[:6]: print("  GAP", g[:260])
    rc |= 1 if r.findings else 2 if r.gaps or r.broken else 0
sys.exit(rc)
