#!/usr/bin/env python3
"""Decides one property: run.py <property> [quick|thorough].

Builds the LLVM IR of the harness crate and the current /repo, runs the symbolic executor over the property's
harnesses, replays counterexamples natively, validates sampled paths against native runs, writes the evidence.
Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: the check could not give an answer."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
FEATURES = os.path.join(ROOT, "features") # the harness of C25, against several builds of the crate
PASSES = "globaldce,default<O1>"
WORKERS = min(8, os.cpu_count() or 4)
sys.path.insert(0, os.path.join(ROOT, "checks"))
import spec

class CheckError(Exception): pass
def log(*a): print("[%7.1fs]" % (time.time() - T0), *a, flush=True)
T0 = time.time()

def environment():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, timeout=60).stdout
        for kv in out.decode(errors="replace").split("\0"):
            k, _, v = kv.partition("=")
            if k in ("RUSTUP_TOOLCHAIN", "CARGO_HOME", "RUSTUP_HOME", "PATH", "CARGO_NET_OFFLINE"): env[k] = v
    except Exception: pass
    env.pop("RUSTFLAGS", None); env.pop("CARGO_TARGET_DIR", None); env["CARGO_NET_OFFLINE"] = "true"
    return env
ENV = environment()

def sh(cmd, timeout=900, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode: raise CheckError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()
def tree(root, skip=("target", ".git")):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip]
        out += [os.path.join(d, f) for f in fs if not f.endswith((".pyc",))]
    return out

class Lock:
    def __init__(self, name): self.path = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True); self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()
def stamp(path):
    try: return open(path).read()
    except OSError: return None
def put(path, text):
    with open(path + ".tmp", "w") as f: f.write(text)
    os.rename(path + ".tmp", path)

def source_key():
    return digest([p for p in tree(REPO, ("target", ".git", "tests", "benches")) if p.endswith((".rs", ".toml", ".json", ".txt", ".js"))] + tree(HARNESS) + tree(FEATURES) + tree(os.path.join(ROOT, "stubs")))

def build_engine():
    with Lock("engine"):
        d = os.path.join(BUILD, "engine"); key = digest(tree(os.path.join(ROOT, "engine")))
        if stamp(d + "/stamp") != key or not os.path.exists(d + "/engine"):
            sh(["bash", os.path.join(ROOT, "engine", "build.sh"), d]); put(d + "/stamp", key)
        return d + "/engine", key

def stale(target, key):
    """cargo goes by modification times; force a rebuild whenever the contents changed."""
    if stamp(target + "/source.stamp") != key:
        for n in ("elasticlunr-rs", "elasticlunr-rs-[0-9]", "elasticlunr-rs-[0-9][0-9]", "harness", "features", "jieba-rs", "lindera"):
            for p in glob.glob(target + "/*/.fingerprint/%s-*" % n): shutil.rmtree(p, ignore_errors=True)
        return True
    return False

def copies():
    """The crates of C25: the current tree under one package name for each set of features."""
    text = open(os.path.join(REPO, "Cargo.toml")).read()
    name = re.compile(r'^name\s*=\s*"elasticlunr-rs"', re.M)
    if not name.search(text): raise CheckError("no package name in Cargo.toml")
    text = re.sub(r"^\[\[(bench|example|test|bin)\]\][^\[]*", "", text, flags=re.M) # their files are not copied
    for i in range(13):
        d = os.path.join(BUILD, "features", "e%d" % i); os.makedirs(d, exist_ok=True)
        if os.path.islink(d + "/src"): os.remove(d + "/src")
        os.symlink(os.path.join(REPO, "src"), d + "/src")
        for f in ("README.md", "build.rs"):
            if os.path.exists(os.path.join(REPO, f)): shutil.copy(os.path.join(REPO, f), d)
        t = name.sub('name = "elasticlunr-rs-%d"' % i, text, count=1)
        if stamp(d + "/Cargo.toml") != t: put(d + "/Cargo.toml", t)
def with_or_without(build, t, all_parts):
    """Two optional parts of the harness: Chinese and Japanese, built against stand-ins for their segmenters ("cjk"), and
    the public building blocks of languages ("blocks"). A part the current tree does not build with is left out."""
    first = None
    for parts in all_parts:
        try: build(["--no-default-features", "--features", " ".join(parts)] if parts != all_parts[0] else [])
        except CheckError as e: first = first or e; continue
        put(t + "/parts", " ".join(parts)); return
    raise first
PARTS = {HARNESS: (["cjk", "blocks"], ["blocks"], ["cjk"], []), FEATURES: (["cjk"], [])}
def build_ir(key, crate=HARNESS, where="ir"):
    with Lock(where):
        t = os.path.join(BUILD, where); bc = t + "/ir/deps/harness.bc"; os.makedirs(t, exist_ok=True)
        if stale(t, key) or not os.path.exists(bc):
            env = dict(ENV, CARGO_TARGET_DIR=t)
            if os.path.exists(bc): os.remove(bc)
            with_or_without(lambda f: sh(["cargo", "rustc", "--offline", "--profile", "ir", "--lib", "--features", "sym"] + f + ["--crate-type", "cdylib", "--", "--emit=llvm-bc"], cwd=crate, env=env), t, PARTS[crate])
            put(t + "/source.stamp", key)
        return bc

def build_native(key, crate=HARNESS, where="native"):
    with Lock(where):
        t = os.path.join(BUILD, where); os.makedirs(t, exist_ok=True)
        if stale(t, key) or not (os.path.exists(t + "/debug/replay") and os.path.exists(t + "/release/replay")):
            env = dict(ENV, CARGO_TARGET_DIR=t)
            with_or_without(lambda f: [sh(["cargo", "build", "--offline", "--bin", "replay"] + p + f, cwd=crate, env=env) for p in ([], ["--release"])], t, PARTS[crate])
            put(t + "/source.stamp", key)
        return {"dev": t + "/debug/replay", "release": t + "/release/replay"}

def prep(engine, ekey, bc, prefix, key):
    with Lock("prep_" + prefix):
        out = os.path.join(BUILD, prefix + "bc"); k = ekey + key + PASSES
        if stamp(out + ".stamp") != k or not os.path.exists(out):
            sh([engine, "prep", bc, out, PASSES, prefix]); put(out + ".stamp", k)
        return out

def replay(binary, items, timeout):
    """items: (fn, args, inputs) -> list of results (None where the process died), one process for all."""
    text = "".join("%s %s : %s\n" % (fn, " ".join(map(str, args)), " ".join(map(str, ins))) for fn, args, ins in items)
    try:
        r = subprocess.run([binary], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e: out, rc, err = e.stdout or b"", "timeout", b""
    res = []
    for l in out.decode(errors="replace").splitlines():
        try: res.append(json.loads(l))
        except ValueError: break
    if len(res) < len(items): res.append({"died": "no answer within %d s" % timeout if rc == "timeout" else "process died (status %s): %s" % (rc, err.decode(errors="replace")[-300:])})
    return res + [None] * (len(items) - len(res))

def bad_native(r):
    if r is None or r.get("bad"): return None
    if "died" in r: return r["died"]
    if r["failed"]: return "assertion: " + r["failed"][0]
    if r["panicked"] is not None and not r["expect"]: return "panic: " + r["panicked"]
    return None

def demangle(names):
    res = set()
    for n in names:
        parts = re.findall(r"(\d+)([A-Za-z_][A-Za-z_0-9]*)", n); path = []; i = 0; s = n
        for m in re.finditer(r"\d+", n): # v0: length-prefixed identifiers
            if m.start() < i: continue
            k = int(m.group()); j = m.end() + (1 if n[m.end():m.end() + 1] == "_" else 0)
            w = n[j:j + k]
            if 0 < k <= 40 and re.fullmatch(r"[A-Za-z_]\w*", w): path.append(w); i = j + k
        path = [w for w in path if not w.startswith(("Cs", "NtC"))]
        if "elasticlunr" in path: path = path[path.index("elasticlunr"):]
        res.add("::".join(path))
    return sorted(res)

LIMITS = ("job time limit", "run time budget", "stopped:", "memory limit", "path instruction limit", "call of unsupported", "unsupported", "atomicrmw", "intrinsic ", "reduce ", "wide bitcast", "large array value", "integer wider", "solver returned unknown", "symbolic heap exhausted")
def main(pid, tier):
    sp = spec.PROPS[pid]; prefix = "h_%s_" % pid.lower()
    jobs = list(sp["jobs"])
    if tier == "thorough": jobs += sp.get("deep", [])
    key = source_key()
    where = ((HARNESS, "ir"), (HARNESS, "native"))
    if pid == "C25": copies(); where = ((FEATURES, "features_ir"), (FEATURES, "features_native"))
    native, nerr = {}, []
    def nb():
        try: native.update(build_native(key, *where[1]))
        except Exception as e: nerr.append(str(e))
    ir = {}
    eng = {}
    def eb():
        try: eng["v"] = build_engine()
        except Exception as e: eng["err"] = str(e)
    et = threading.Thread(target=eb); et.start()
    bc = build_ir(key, *where[0]); et.join()
    if "err" in eng: raise CheckError(eng["err"])
    engine, ekey = eng["v"]
    nt = threading.Thread(target=nb); nt.start()
    log("IR of the current tree built"); mod = prep(engine, ekey, bc, prefix, key)
    nt.join(); log("module prepared, native replay built")
    if nerr: raise CheckError(nerr[0])
    left_out, n_left = [], 0
    have = [set((stamp(BUILD + d + "/parts") or "").split()) for d in ("/" + w[1] for w in where)]
    for part, what in (("cjk", "Chinese and Japanese, for which the crate does not build with the stand-ins"), ("blocks", "the building blocks of languages, whose interface is not the expected one")):
        if not all(part in h for h in have):
            n = len(jobs); jobs = [j for j in jobs if not spec.needs(part, j)]
            n_left += n - len(jobs)
            if len(jobs) < n: left_out.append("%d jobs on %s" % (n - len(jobs), what))
    run = os.path.join(BUILD, "run_" + pid); shutil.rmtree(run, ignore_errors=True); os.makedirs(run)
    limit = sp.get("limit", 400) if tier == "quick" else sp.get("limit_deep", 3000)
    with open(run + "/jobs", "w") as f:
        for i, j in enumerate(jobs): f.write("%d %s %s %s\n" % (i, j[0], j[2] if len(j) > 2 else limit, " ".join(map(str, j[1]))))
    t = time.time()
    budget = max(60, 660 - (t - T0)) if tier == "quick" else 6 * 3600
    env = dict(ENV, ENGINE_BUDGET=str(budget), **({} if tier == "quick" else {"ENGINE_PATH_LIMIT": "20000000000"}))
    proc = subprocess.Popen([engine, "run", mod, run + "/jobs", run, str(WORKERS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    overtime = False
    try: out, _ = proc.communicate(timeout=budget + 60)
    except subprocess.TimeoutExpired: os.killpg(proc.pid, 9); out, _ = proc.communicate(); overtime = True
    wall = time.time() - t
    rows, funcs, stubs, translated = [], set(), set(), 0
    for f in sorted(glob.glob(run + "/w*.jsonl")):
        for l in open(f):
            try: x = json.loads(l)
            except ValueError: continue
            if "job" in x: rows.append(x)
            else: funcs |= set(x["funcs"]); stubs |= set(x["stubs"]); translated = max(translated, x["translated"])
    rows.sort(key=lambda x: int(x["job"]))
    log("%d of %d jobs, %.1f s" % (len(rows), len(jobs), wall))
    problems = []
    undecided = []
    undecided += left_out
    if overtime: undecided.append("the time budget ran out")
    if proc.returncode and not overtime: problems.append("executor failed: %s" % out.decode(errors="replace")[-500:])
    undecided += ["%s %s: not started" % tuple(jobs[i][:2]) for i in sorted(set(range(len(jobs))) - set(int(x["job"]) for x in rows))]
    for x in rows:
        if x["error"]: (undecided if x["error"].startswith(LIMITS) else problems).append("%s %s: %s" % (x["fn"], x["args"], x["error"][:600]))
    # ---- counterexamples: replay natively in both profiles
    confirmed, unconfirmed, known = [], [], []
    cands = [(x["fn"], x["args"], v) for x in rows for v in x["violations"]]
    for fn, args, v in cands[:12]:
        res = {}
        for again in range(8): # more than once: hash tables are seeded at random
            for prof, b in native.items():
                r = replay(b, [(fn, args, v["inputs"])], 60)[0]; w = bad_native(r)
                if w: res[prof] = w
            if res or v["kind"] == "nontermination": break
        if not res and v["kind"] == "nontermination": undecided.append("%s %s: a path of more than %s ends natively" % (fn, args, v["msg"])); continue
        if not res: unconfirmed.append((fn, args, v)); continue
        item = {"property": pid, "harness": fn, "args": args, "inputs": v["inputs"], "symbolic": v["kind"] + ": " + v["msg"], "native": res}
        k = [f for f in spec.known_findings() if f["property"] == pid and f.get("harness") == fn and f.get("args") == args and f.get("inputs") == v["inputs"]]
        (known if k else confirmed).append(item)
        if len(confirmed) >= 3: break
    # ---- sampled paths: the executor's prediction against native runs
    samples = [(x["fn"], x["args"], s) for x in rows for s in x["samples"]]
    validated, mism, shown = 0, [], []
    for prof in ("dev", "release"):
        got = replay(native[prof], [(a, b, s["inputs"]) for a, b, s in samples], 300)
        for (fn, args, s), r in zip(samples, got):
            if r is None or "died" in (r or {}): mism.append("%s %s %s: native run gave no answer (%s)" % (fn, args, s["inputs"], r)); break
            if (r["panicked"] is not None) != s["panicked"] or r["obs"] != s["obs"]:
                if not s["panicked"] or r["panicked"] is None: mism.append("%s %s inputs %s: predicted %s %s, native %s %s" % (fn, args, s["inputs"], s["panicked"], s["obs"][:200], r["panicked"], r["obs"][:200]))
            else: validated += 1
    for (fn, args, s) in samples[::max(1, len(samples) // 8)][:8]:
        shown.append({"harness": fn, "args": args, "inputs": s["inputs"], "observed": [bytes.fromhex(o).decode(errors="backslashreplace") for o in split_fe(s["obs"])]})
    if mism: problems.append("%d sampled paths disagree with the native run, e.g. %s" % (len(mism), mism[0]))
    if unconfirmed: problems.append("%d counterexamples do not reproduce natively, e.g. %s" % (len(unconfirmed), unconfirmed[0]))
    tags = set(t for x in rows for t in x["reach"])
    # deviations the harness recognises exactly and marks with a tag: findings if listed, violations if not
    for tag, fid, ex in sp.get("known", []):
        if tag not in tags: continue
        at = sorted(set(x["fn"] + " " + str(x["args"]) for x in rows if tag in x["reach"]))
        r = replay(native["dev"], [(ex[0], ex[1], ex[2])], 60)[0] or {}
        f = [f for f in spec.known_findings() if f["property"] == pid and f["id"] == fid]
        item = {"property": pid, "harness": ex[0], "args": ex[1], "inputs": ex[2], "symbolic": "deviation %s reached in %d jobs, e.g. %s" % (fid, len(at), at[0]), "native": [bytes.fromhex(o).decode(errors="replace") for o in split_fe(r.get("obs", ""))]}
        if f: item["what"] = f[0]["what"]; known.append(item)
        else: confirmed.append(item)
    # recorded crashes the executor has no notion of (the machine stack): run natively
    for fid, fn, args in sp.get("crash", []):
        r = replay(native["release"], [(fn, args, [])], 120)[0] or {}
        f = [f for f in spec.known_findings() if f["property"] == pid and f["id"] == fid]
        if "died" in r and f: known.append({"what": f[0]["what"], "harness": fn})
        elif "died" in r or bad_native(r): confirmed.append({"property": pid, "harness": fn, "args": args, "inputs": [], "symbolic": "none, native run", "native": r})
    miss = sorted(set(sp.get("reach", [])) - tags)
    if miss and not confirmed: (undecided if undecided else problems).append("vacuous: harness branches %s were never reached" % miss)
    done = sum(1 for x in rows if not x["error"])
    total = len(jobs) + n_left
    if undecided and done * 2 < total: problems.append("only %d of %d jobs were decided, e.g. %s" % (done, total, undecided[0]))
    def tot(k): return sum(x[k] for x in rows)
    summary = {k: tot(k) for k in ("paths", "completed", "panicked", "cut", "forks", "instructions", "asserts", "symbolic_asserts", "queries", "assert_queries", "sat", "unsat", "cache_hits", "concretizations")}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {
              "method": "symbolic execution of the LLVM IR of /repo and its dependencies (rustc, fat LTO), z3 as the deciding solver",
              "bounds": sp["bounds"], "outside": sp.get("outside", ""),
              "functions_encoded": demangle(funcs), "library_functions_translated": translated, "stubs_used": sorted(stubs),
              "jobs": total, "jobs_decided": sum(1 for x in rows if not x["error"]),
              "states": summary["completed"] + summary["panicked"], "transitions": summary["instructions"],
              "states_meaning": "completed symbolic paths (each stands for all inputs that follow it)", "transitions_meaning": "IR instructions executed on symbolic states",
              "forks": summary["forks"], "paths_cut_by_assumptions": summary["cut"],
              "assertions_checked": summary["asserts"], "assertions_over_symbolic_values": summary["symbolic_asserts"],
              "solver_queries": summary["queries"], "assertion_queries": summary["assert_queries"], "sat": summary["sat"], "unsat": summary["unsat"], "query_cache_hits": summary["cache_hits"],
              "solver_s": round(tot("solver_s"), 3), "executor_s": round(tot("wall_s"), 2), "concretizations": summary["concretizations"],
              "max_symbolic_inputs": max([x["max_inputs"] for x in rows] or [0]), "max_path_constraints": max([x["max_constraints"] for x in rows] or [0]),
              "traces_validated_against_impl": validated, "counterexamples_replayed": len(cands), "known_findings": [i.get("what", i["harness"]) for i in known], "reach_tags": sorted(tags),
              "samples": shown, "undecided": undecided[:50], "problems": problems[:10]},
          "assumptions": spec.ASSUMPTIONS + sp.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(confirmed)}
    os.makedirs(ROOT + "/evidence", exist_ok=True); put(ROOT + "/evidence/%s.json" % pid, json.dumps(ev, indent=1, ensure_ascii=False))
    log("%d paths, %d forks, %d M instructions, %d queries, %.1f s in the solver, %d symbolic assertions, %d native validations" % (summary["paths"], summary["forks"], summary["instructions"] // 1000000, summary["queries"], tot("solver_s"), summary["symbolic_asserts"], validated))
    if undecided: print("UNDECIDED: %d of %d jobs hit a limit and are not part of what was explored, e.g. %s" % (total - done, total, undecided[0]), flush=True)
    for p in problems: print("PROBLEM:", p, flush=True)
    for it in known: print("KNOWN-FINDING: property=%s %s" % (pid, it.get("what") or "%s %s %s" % (it["harness"], it["inputs"], it["native"])))
    if confirmed:
        os.makedirs(ROOT + "/replays", exist_ok=True); path = ROOT + "/replays/%s.json" % pid
        put(path, json.dumps({"counterexamples": confirmed, "replay": "echo '%s %s : %s' | %s" % (confirmed[0]["harness"], " ".join(map(str, confirmed[0]["args"])), " ".join(map(str, confirmed[0]["inputs"])), native["dev"])}, indent=1))
        for it in confirmed: print("counterexample:", json.dumps(it))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True); return 1
    return 2 if problems else 0

def does_not_compile(rc):
    """C25 could not be built: does the crate compile with some sets of features only?"""
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "features_native")); res = {}
    for i in (0, 1, 3, 5, 7, 11): # without Chinese and Japanese; everything
        cmd = ["cargo", "check", "--offline", "-p", "elasticlunr-rs-%d" % i]
        r = subprocess.run(cmd, cwd=FEATURES, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        res[i] = (cmd, r.stdout.decode(errors="replace")) if r.returncode else None
    bad = [i for i in res if i < 11 and res[i] and "could not compile `elasticlunr-rs-%d`" % i in res[i][1]]
    if not bad or all(res.values()): return rc
    manifest = open(FEATURES + "/Cargo.toml").read()
    sets = [re.search(r"^e%d = .*features = \[(.*)\]" % i, manifest, re.M).group(1) for i in bad]
    what = "the crate does not compile with the features [%s]" % "], [".join(sets)
    os.makedirs(ROOT + "/replays", exist_ok=True); path = ROOT + "/replays/C25.json"
    put(path, json.dumps({"what": what, "command": res[bad[0]][0], "cwd": FEATURES, "output": res[bad[0]][1][-3000:]}, indent=1))
    put(ROOT + "/evidence/C25.json", json.dumps({"property": "C25", "tier": "quick", "seed": 1, "level": "model_checking", "coverage": {"method": "compilation only: " + what, "states": 0, "transitions": 0, "samples": [what]},
        "assumptions": spec.ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": 1}, indent=1))
    print(what); print("VIOLATION property=C25 replay=%s" % path, flush=True); return 1

def split_fe(h):
    b = bytes.fromhex(h); return [x.hex() for x in b.split(b"\xfe")[:-1]]

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        from concurrent.futures import ThreadPoolExecutor
        key = source_key(); copies()
        with ThreadPoolExecutor(5) as ex:
            n = [ex.submit(build_native, key), ex.submit(build_native, key, FEATURES, "features_native")]
            f = ex.submit(build_ir, key, FEATURES, "features_ir")
            e, ek = build_engine(); bc = build_ir(key)
            list(ex.map(lambda p: prep(e, ek, f.result() if p == "C25" else bc, "h_%s_" % p.lower(), key), list(spec.PROPS))); [x.result() for x in n]
        log("setup done"); sys.exit(0)
    try: rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except CheckError as e:
        print("ERROR:", e); rc = 2
        if sys.argv[1] == "C25": rc = does_not_compile(rc)
    sys.exit(rc)
