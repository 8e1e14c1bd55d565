#!/usr/bin/env python3
"""mut.py BASE [ID...]: applies small mutations to scratch copies of BASE and runs the check of their property; prints what each said"""
import os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
def m(i, pid, f, old, new, entry=None): M[i] = (pid, f, old, new, entry)
exec(open(f"{H}/tools/mutants.py").read())
base = sys.argv[1]; want = sys.argv[2:]
for i, (pid, f, old, new, entry) in M.items():
    if want and i not in want and pid not in want: continue
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run(["bash", "-c", f"cd {base} && git archive HEAD | tar -x -C {d}"], check=True)
        s = open(f"{d}/{f}").read()
        if s.count(old) != 1: print(i, pid, "DOES NOT APPLY", s.count(old)); continue
        open(f"{d}/{f}", "w").write(s.replace(old, new))
        r = subprocess.run(["timeout", "900", "python3", f"{H}/check.py", pid, "quick"] + (["--entry", entry] if entry else []), capture_output=True, text=True, env=dict(os.environ, SX_REPO=d), cwd=H)
        l = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "INCONCL" in x or "Error" in x or "error" in x][:2] + r.stdout.splitlines()[-1:]
        print(i, pid, {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode}"), "|", " ; ".join(x[:150] for x in l), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
