#!/usr/bin/env python3
"""Runs the checks of one property: compiles /repo's current sources and the property's harness to
LLVM IR, executes it symbolically (build/symx), replays solver models against a native build of the same
sources, and writes evidence/<id>.json.   usage: check.py ID [quick|thorough] [--keep] [--entry NAME]"""
import sys, os, re, json, time, shutil, subprocess, tempfile, random, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["LC_ALL"] = "C.UTF-8"
from props import PROPS
CLANG = "/usr/lib/llvm-18/bin/clang++"; LINK = "/usr/lib/llvm-18/bin/llvm-link"; GXX = "/usr/bin/g++"
SYS_INC = ["-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/opencascade"]
IRFLAGS = "-std=c++20 -O1 -fno-pic -fno-pie -DNDEBUG -gline-tables-only -fno-vectorize -fno-slp-vectorize -ffp-contract=off -fno-math-errno -frelaxed-template-template-args -DEIGEN_DONT_VECTORIZE -w -Wno-non-pod-varargs -fno-discard-value-names".split()
NATFLAGS = "-std=c++20 -O1 -DNDEBUG -fopenmp -w -DEIGEN_DONT_PARALLELIZE".split()
T0 = time.time()

class Fail(Exception): pass

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", **kw)

def prepare(work, cfg):
    """scratch copy of the sources, with the syntax clang insists on, and the generated files"""
    os.makedirs(f"{work}/src"); os.makedirs(f"{work}/gen/inc")
    shutil.copytree(f"{REPO}/include", f"{work}/include")
    for f in os.listdir(f"{REPO}/src"):
        if f.endswith((".cpp", ".hpp")): shutil.copy(f"{REPO}/src/{f}", f"{work}/src/{f}")
    for d in ("include", "src"):
        for f in os.listdir(f"{work}/{d}"):
            p = f"{work}/{d}/{f}"
            if not p.endswith((".cpp", ".hpp")): continue
            t = open(p, errors="replace").read()
            u = re.sub(r"typename(\s+)(\w+)::(?!template\b)(\w+)(\s*<)", r"typename\1\2::template \3\4", t)
            if u != t: open(p, "w").write(u)
    rs = cfg.get("row_max", 4)
    subst = {"CMAKE_SOURCE_DIR": REPO, "CMAKE_BINARY_DIR": work, "CMAKE_PROJECT_VERSION_MAJOR": "0", "CMAKE_PROJECT_VERSION_MINOR": "2", "CMAKE_PROJECT_VERSION_PATCH": "0",
             "MAX_BASIS_ROW_SIZE": str(rs), "threaded": "OFF", "n_threads": "1", "use_xdmf": "OFF", "use_tecplot": "OFF", "use_nlopt": "OFF", "use_occt": "OFF", "obsessive_timing": "OFF", "COMMIT": "x"}
    def sub(src, dst):
        t = open(src).read()
        for k, v in subst.items(): t = t.replace(f"@{k}@", v)
        open(dst, "w").write(t)
    sub(f"{REPO}/hexed_config.hpp.in", f"{work}/gen/inc/hexed_config.hpp")
    sub(f"{REPO}/config.cpp.in", f"{work}/gen/config.cpp")
    os.makedirs(f"{work}/link"); os.symlink(f"{work}/include", f"{work}/link/hexed")
    if cfg.get("basis"):
        os.makedirs(f"{work}/gen/basis")
        r = run(["python3", f"{REPO}/script/auto_generate.py", f"{work}/gen/basis", str(rs)], cwd=f"{work}/gen")
        if r.returncode: raise Fail("auto_generate.py failed:\n" + r.stdout[-2000:])
    if cfg.get("constants"):
        r = run(["python3", f"{REPO}/script/translate.py", f"{REPO}/include/constants.hpp"], cwd=f"{work}/gen")
        if r.returncode: raise Fail("translate.py failed:\n" + r.stdout[-2000:])

def sources(work, cfg, every=False):
    out = []
    names = list(cfg["srcs"])
    if every:
        skip = {"hexecute", "hil", "Tecplot_file", "Occt", "Xdmf_wrapper", "otter_vis"} | (set() if "kernels_convective" in names else {"kernels_convective", "kernels_diffusive", "kernels_max_dt"})
        names += [f[:-4] for f in sorted(os.listdir(f"{work}/src")) if f.endswith(".cpp") and f[:-4] not in skip and f[:-4] not in names]
    for n in names: out.append(n)
    return out

def srcpath(work, n, native):
    if n.startswith("gen:"):
        p = f"{work}/gen/{n[4:]}"
        return p
    if native: return f"{REPO}/src/{n}.cpp"
    return f"{work}/src/{n}.cpp"

def compile_all(work, cfg, every=False, what=("ir", "nat"), asan=False):
    """compiles harness and sources to bitcode and to native objects, in parallel"""
    h = f"{HERE}/harness/{cfg['harness']}"
    defs = [f"-D{d}" for d in cfg.get("defs", [])]
    jobs = []
    names = sources(work, cfg, every)
    irinc = [f"-I{work}/include", f"-I{work}/gen/inc", f"-I{work}/link", "-isystem", f"{HERE}/harness/inc"] + SYS_INC + [f"-I{HERE}/harness"]
    ninc = [f"-I{REPO}/include", f"-I{work}/gen/inc", f"-I{work}/link"] + SYS_INC + [f"-I{HERE}/harness"]
    tag = "asan" if asan else "nat"
    nf = (["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-std=c++20", "-w", "-DNDEBUG"] if asan else NATFLAGS)
    pre = ["-include", f"{HERE}/harness/string_prefix.hpp"]
    if "ir" in what:
        jobs.append(("ir", "harness", [CLANG] + IRFLAGS + cfg.get("irflags", []) + pre + defs + irinc + ["-c", "-emit-llvm", h, "-o", f"{work}/harness.bc"]))
        for n in names: jobs.append(("ir", n, [CLANG] + IRFLAGS + cfg.get("irflags", []) + pre + irinc + ["-c", "-emit-llvm", srcpath(work, n, False), "-o", f"{work}/{os.path.basename(n).replace('gen:','')}.bc"]))
    if "nat" in what:
        jobs.append((tag, "harness", [GXX] + nf + defs + ninc + ["-c", h, "-o", f"{work}/harness.{tag}.o"]))
        jobs.append((tag, "rt", [GXX] + nf + ninc + ["-c", f"{HERE}/harness/sx_native.cpp", "-o", f"{work}/rt.{tag}.o"]))
        for n in names: jobs.append((tag, n, [GXX] + nf + ninc + ["-c", srcpath(work, n, True), "-o", f"{work}/{os.path.basename(n).replace('gen:','')}.{tag}.o"]))
    def do(j):
        o = j[2][-1]
        if os.path.exists(o): return None
        r = run(j[2])
        if r.returncode:
            if every and j[1] != "harness" and j[1] not in cfg["srcs"]: return None
            return f"{j[0]} {j[1]}: " + r.stdout[-3000:]
    with ThreadPoolExecutor(8) as ex: errs = [e for e in ex.map(do, jobs) if e]
    if errs: raise Fail("compilation failed\n" + "\n".join(errs))
    outs = lambda k: [j[2][-1] for j in jobs if j[0] == k and os.path.exists(j[2][-1])]
    if "ir" in what:
        r = run([LINK, "-o", f"{work}/all.bc"] + outs("ir"))
        if r.returncode: raise Fail("llvm-link failed\n" + r.stdout[-3000:])
    if "nat" in what:
        base = [GXX] + (["-fsanitize=address,undefined"] if asan else []) + ["-fopenmp", "-rdynamic", "-no-pie", "-Wl,--no-demangle", "-o", f"{work}/native.{tag}"] + outs(tag) + ["-ldl"] + cfg.get("natlibs", [])
        r = run(base)
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
        if r.returncode and und:  # code that the harness never reaches: stub it
            with open(f"{work}/stub.s", "w") as f:
                f.write('.section .note.GNU-stack,"",@progbits\n')
                for u in und:
                    if u.startswith(("_ZTI", "_ZTV", "_ZTS")): f.write(f'.data\n.balign 16\n.globl "{u}"\n"{u}":\n.zero 256\n')
                    else: f.write(f'.text\n.globl "{u}"\n"{u}":\n leaq 1f(%rip), %rdi\n jmp sx_missing\n1: .asciz "{u}"\n')
            r = run(["gcc", "-c", f"{work}/stub.s", "-o", f"{work}/stub.o"])
            if r.returncode: raise Fail("stubs failed\n" + r.stdout[-3000:])
            r = run(base + [f"{work}/stub.o"])
        if r.returncode: raise Fail("native link failed\n" + r.stdout[-3000:])

def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, k, v in inputs: f.write(re.sub(r"\s", "_", n) + " " + repr(v) + "\n")

def native(work, entry, args, asan=False, timeout=90, env=None):
    exe = f"{work}/native.asan" if asan else f"{work}/native.nat"
    e = dict(os.environ); e["OMP_NUM_THREADS"] = "1"; e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=43:handle_segv=1:detect_odr_violation=0"; e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    d = tempfile.mkdtemp(dir=work)
    try: r = run([exe, entry] + args, timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired: return 42, "SX-FAIL did not terminate"
    finally: shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); keep = False; only = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"): tier = x
        elif x == "--keep": keep = True
        elif x == "--entry": only = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[pid]
    if tier == "thorough": cfg = dict(cfg, **cfg.get("thorough", {}))
    work = tempfile.mkdtemp(prefix=f"sx_{pid}_")
    try: code = check(pid, tier, seed, cfg, work, only)
    except Fail as e: print(f"ERROR {pid}: {e}"); code = 2
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    sys.exit(code)

def check(pid, tier, seed, cfg, work, only):
    r = run([f"{HERE}/engine/build.sh"])
    if r.returncode: raise Fail("cannot build the engine\n" + r.stdout[-3000:])
    prepare(work, cfg)
    if "gen:basis/Gauss_legendre.cpp" in cfg["srcs"] and not cfg.get("basis"): raise Fail("config")
    compile_all(work, cfg)
    budget = cfg.get("budget", 600 if tier == "quick" else 3000)
    entries = [e if isinstance(e, tuple) else (e, {}) for e in cfg["entries"]]
    if only: entries = [e for e in entries if e[0] == only]
    res = {}
    lock = threading.Lock()
    every_done = [False]
    def engine(en):
        name, opt = en
        log = f"{work}/log.{name}"
        jobs = opt.get("jobs", max(2, 8//max(1, min(len(entries), 4))))
        dl = min(opt.get("deadline", cfg.get("deadline", 400)), max(30, budget - (time.time() - T0)))
        cmd = [os.environ.get("SX_ENGINE", f"{HERE}/build/symx"), f"{work}/all.bc", "--entry", name, "--log", log, "--jobs", str(jobs), "--deadline", str(dl)]
        for l in cfg.get("englibs", []): cmd += ["--lib", l]
        for k, v in opt.get("flags", {}).items(): cmd += [f"--{k}", str(v)]
        try: r = run(cmd, timeout=dl*1.5 + 120); out = r.stdout
        except subprocess.TimeoutExpired: out = "engine timeout"; subprocess.run(["pkill", "-9", "-f", "--", log])
        recs = []
        if os.path.exists(log):
            for line in open(log, errors="replace"):
                try: recs.append(json.loads(line))
                except Exception: pass
        return name, recs, out
    def run_engines(es):
        with ThreadPoolExecutor(cfg.get("parallel", 4)) as ex:
            for name, recs, out in ex.map(engine, es): res[name] = (recs, out)
    run_engines(entries)
    missing = [n for n in res if any(x["k"] == "unsupported" and "no definition of _ZN" in x["what"] and "5hexed" in x["what"] for x in res[n][0])]
    if missing:  # the code under test now uses sources that were not linked
        compile_all(work, cfg, every=True)
        run_engines([e for e in entries if e[0] in missing])
    violations, inconclusive, samples, validated, mismatch = [], [], [], 0, []
    tot = {}; fns = set(); natives = set(); asan_ready = [False]
    known = json.load(open(f"{HERE}/known_findings.json")) if os.path.exists(f"{HERE}/known_findings.json") else []
    known_hit = set()
    repdir = f"{HERE}/replays/{pid}"; shutil.rmtree(repdir, ignore_errors=True)
    per_entry = {}
    rnd_time = [0.0]
    def confirm(name, cand_inputs, kind):
        """replay against the native build; returns (output, inputs file) if it fails there"""
        f = f"{work}/in.{name}.{random.randrange(10**9)}"
        if cand_inputs is not None:
            write_inputs(f, cand_inputs)
            rc, out = native(work, name, [f])
            if rc == 42 or rc < 0 or "SX-FAIL" in out: return out, f
            if kind in ("memory", "div-overflow", "unreachable"):
                if not asan_ready[0]: compile_all(work, cfg, every=bool(missing), what=("nat",), asan=True); asan_ready[0] = True
                rc, out = native(work, name, [f], asan=True)
                if rc == 42 or rc == 43 or rc < 0 or "runtime error" in out or "AddressSanitizer" in out: return out[-3000:], f
        return None
    def search(name):
        """bounded search for a concrete witness, used only when the solver did not give a usable one"""
        t = time.time()
        for i in range(400):
            if time.time() - t > 25 or rnd_time[0] > 120: break
            f = f"{work}/rnd.{name}"
            rc, out = native(work, name, ["--random", str(seed*1000003 + i), f])
            if rc == 42 or rc < 0: rnd_time[0] += time.time() - t; return out, f
        rnd_time[0] += time.time() - t
        return None
    for name, opt in entries:
        recs, out = res[name]
        summ = next((x for x in recs if x["k"] == "summary"), None)
        if summ is None: inconclusive.append(f"{name}: engine gave no summary: {out[-300:]}"); summ = {}
        per_entry[name] = {k: summ.get(k) for k in ("paths", "forks", "queries", "asserts", "proved", "solver_ms", "instructions", "wall")}
        for k, v in summ.items():
            if isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
        for x in recs:
            if x["k"] == "fn": fns.add((x["file"], x["name"]))
            if x["k"] == "native": natives.add(x["name"])
        reach = {x["tag"] for x in recs if x["k"] == "reach"}
        want = set(opt.get("reach", ["end"]))
        lacking = want - reach
        bad = []
        if lacking: bad.append(f"witness not reached: {sorted(lacking)}")
        for x in recs:
            if x["k"] == "unsupported": bad.append("not encoded: " + x["what"] + " at " + x.get("loc", ""))
            if x["k"] == "crash": bad.append("engine: " + x["what"])
        if summ.get("deadline"): bad.append("time limit reached")
        if summ.get("done", 0) != summ.get("paths", 0): bad.append("paths lost")
        # candidates
        by = {}
        for x in recs:
            if x["k"] == "candidate": by.setdefault((x["kind"], re.sub(r"[-+0-9.e]+", "#", x["msg"])), []).append(x)
        need_search = bool(bad) and not cfg.get("no_search")
        for (kind, msg), cs in by.items():
            got = None
            cs.sort(key=lambda c: not c["model"])
            for c in cs[:4]:
                got = confirm(name, c["inputs"], kind)
                if got: break
            if not got:
                need_search = need_search or not cfg.get("no_search"); bad.append(f"undischarged obligation ({kind}): {cs[0]['msg'][:200]} at {cs[0]['loc'][:200]}")
            else: violations.append((name, cs[0]["msg"], kind, got, len(cs)))
        if need_search and not any(v[0] == name for v in violations):
            got = search(name)
            if got: violations.append((name, (got[0].split("SX-FAIL ")[-1].splitlines() or ["?"])[0], "search", got, 1))
        inconclusive += [f"{name}: {b}" for b in sorted(set(bad))[:10]]
        # traces: instances of explored paths, run against the native build
        tr = [x for x in recs if x["k"] == "trace" and not x["uncertain"]]
        random.Random(seed).shuffle(tr)
        for x in tr[:cfg.get("traces", 4)]:
            f = f"{work}/tr.{name}"; write_inputs(f, x["inputs"])
            rc, o = native(work, name, [f])
            if rc == 0: validated += 1
            elif rc in (3, 78, 127): inconclusive.append(f"{name}: replay not possible: {o[-200:]}")
            elif rc == 77: pass # rounding of a real input left the path condition
            elif rc == 42 or rc < 0:
                # the real code fails on an instance of a path the solver passed
                violations.append((name, (o.split("SX-FAIL ")[-1].splitlines() or ["native failure"])[0], "replay", (o, f), 1))
            if len(samples) < 12: samples.append({"entry": name, "path": x["path"], "inputs": x["inputs"][:24], "native_exit": rc})
    real, lines = [], []
    for name, msg, kind, (o, f), n in violations:
        k = next((k for k in known if k["property"] == pid and k.get("status") != "fixed" and re.search(k["match"], f"{name}: {msg}\n{o}")), None)
        if k:
            if k["match"] not in known_hit: lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
            known_hit.add(k["match"]); continue
        os.makedirs(repdir, exist_ok=True)
        rp = f"{repdir}/{name}.{len(real)}.inputs"; shutil.copy(f, rp)
        open(rp + ".txt", "w").write(f"property {pid}\nentry {name} (harness/{cfg['harness']})\nobligation {msg}\nkind {kind}\ninputs in {rp}\nnative output:\n{o}\n")
        real.append((name, msg, kind, rp))
    repo_fns = sorted({(f.replace(work, REPO), n) for f, n in fns if f.startswith((work + "/include", work + "/src", work + "/gen"))})
    cov = {
        "states": int(tot.get("done", 0)), "transitions": int(tot.get("forks", 0)), "traces_validated_against_impl": validated, "samples": samples or [{"entry": n} for n in per_entry],
        "what_the_counts_are": "states: symbolic paths completed; transitions: symbolic branches on which both sides were feasible; traces: solver models of explored paths run against a native build of the same sources with the same outcome",
        "bounds": cfg["bounds"], "functions_encoded": [f"{os.path.basename(f)}:{n}" for f, n in repo_fns], "n_functions_encoded": len(repo_fns),
        "obligations": int(tot.get("asserts", 0)), "obligations_discharged": int(tot.get("proved", 0)),
        "solver_queries": int(tot.get("queries", 0)), "unsat": int(tot.get("unsat", 0)), "sat": int(tot.get("sat", 0)), "unknown": int(tot.get("unknown", 0)), "solver_seconds": round(tot.get("solver_ms", 0)/1000, 2),
        "ir_instructions_executed": int(tot.get("instructions", 0)), "comparisons_decided_by_interval_bounds": int(tot.get("interval_decided", 0)), "native_library_calls": sorted(natives)[:60],
        "per_entry": per_entry, "inconclusive": inconclusive[:40],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 2), "violations": len(real)}
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    for l in lines: print(l)
    for i in inconclusive[:12]: print("INCONCLUSIVE", i[:400])
    print(f"{pid} {tier}: {cov['states']} paths, {cov['obligations_discharged']}/{cov['obligations']} obligations discharged, {cov['solver_queries']} queries ({cov['solver_seconds']} s), {validated} replays agree, {len(real)} violations, {ev['wall_s']} s")
    for name, msg, kind, rp in real[:8]: print(f"  {name}: {msg[:200]} [{kind}]")
    if real:
        print(f"VIOLATION property={pid} replay={real[0][3]}")
        return 1
    return 0

COMMON = [
    "doubles are exact reals: rounding, overflow to infinity and NaN inputs are outside the claim; a stated tolerance covers the rounding of tabulated constants",
    "one OpenMP thread; memory allocation succeeds",
    "clang 18 -O1 IR of /repo's sources stands for the g++ -O2 build (models of explored paths are replayed against a g++ build)",
    "libstdc++/libm functions without IR run natively on concrete data; formatted text is not modelled",
]
main()
