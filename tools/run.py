#!/usr/bin/env python3
"""Driver of the checks.  run.py <property> [--replay FILE] | --setup

Builds /repo's current sources (content-addressed, so a stale build is impossible),
builds the property's harness, explores, writes evidence/<id>.json.
Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself failed.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")  # the override is for experiments only
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks_spec import CHECKS, BUILDS, FLAVOURS

COMMON = ["-include", "array", "-include", "limits", "-include", "cstdint", "-include", "numeric", "-include", "string_view", "-w"]

def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CMAKE_PREFIX_PATH"): e.pop(k, None)
    e["CC"], e["CXX"] = "/usr/bin/gcc", "/usr/bin/g++"
    return e

def tree_hash(h, *roots):
    for r in roots:
        if os.path.isfile(r):
            h.update(r.encode()); h.update(open(r, "rb").read()); continue
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(b"\0")
                try: h.update(open(p, "rb").read())
                except OSError: pass
                h.update(b"\1")

class BuildError(Exception): pass

def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def prune(keep=40):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=lambda d: os.path.getmtime(d))
    for d in ds[:-keep]: shutil.rmtree(d, ignore_errors=True)

def sh(cmd, log, cwd=None):
    with open(log, "ab") as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env(), cwd=cwd)
    if r.returncode:
        tail = open(log, errors="replace").read()[-6000:]
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd)[:300], tail))

def build_lib(flavour):
    fl = FLAVOURS[flavour]
    h = hashlib.sha256(repr(sorted(fl.items())).encode() + repr(COMMON).encode())
    tree_hash(h, REPO + "/src", REPO + "/include", VERIF + "/cmake", VERIF + "/shim")
    for x in fl.get("deps", []): tree_hash(h, VERIF + "/" + x)
    key = "lib-%s-%s" % (flavour, h.hexdigest()[:16])
    d = os.path.join(BUILD, key)
    lk = locked("lib-" + flavour)
    try:
        if os.path.exists(d + "/done"): os.utime(d); return d, h.hexdigest()
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        log = d + "/log"
        flags = " ".join(COMMON + fl["cxx"]).replace("@VERIF@", VERIF)
        sh(["cmake", "-S", VERIF + "/cmake", "-B", d, "-G", "Ninja", "-DVERIF=" + VERIF, "-DREPO=" + REPO,
            "-DVP_ADE=" + ("ON" if fl.get("ade") else "OFF"), "-DCMAKE_BUILD_TYPE=", "-DCMAKE_CXX_FLAGS=" + flags,
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"], log)
        sh(["ninja", "-C", d, "dwv"], log)
        open(d + "/done", "w").close(); prune()
        return d, h.hexdigest()
    finally: lk.close()

def build_harness(b):
    spec = BUILDS[b]
    fl = FLAVOURS[spec["flavour"]]
    lib, lh = build_lib(spec["flavour"])
    h = hashlib.sha256((lh + repr(sorted(spec.items()))).encode())
    tree_hash(h, VERIF + "/harness")
    extra = []  # repository sources outside the library
    for pat, defs in spec.get("repo", []):
        tree_hash(h, os.path.dirname(REPO + "/" + pat)); extra += [(f, defs) for f in sorted(glob.glob(REPO + "/" + pat))]
    d = os.path.join(BUILD, "exe-%s-%s" % (b, h.hexdigest()[:16]))
    lk = locked("exe-" + b)
    try:
        if os.path.exists(d + "/done"): os.utime(d); return d + "/check"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        log = d + "/log"
        cxx = [a.replace("@VERIF@", VERIF) for a in (spec.get("cxx") or fl.get("harness_cxx") or fl["cxx"])]
        objs, procs = [], []
        plain = spec.get("plain", [])
        for f, defs in extra:
            o = d + "/x%d.o" % len(objs); objs.append(o)
            cmd = ["g++"] + COMMON + cxx + ["-std=c++17", "-I" + REPO + "/include"] + defs + ["-c", f, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=open(o + ".log", "wb"), stderr=subprocess.STDOUT, env=env()), o + ".log"))
        for s in spec["src"] + plain:
            o = d + "/" + s.replace("/", "_").replace(".", "_") + ".o"; objs.append(o)
            own = s in plain or (s == "mc.cpp" and not spec.get("instrument_engine"))
            src_flags = ["-std=c++17", "-O1"] if own else ["-std=c++17"]
            cmd = ["g++"] + COMMON + (["-g1"] if own else cxx) + src_flags + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO, "-I" + VERIF + "/shim",
                   "-isystem", "/usr/include/eigen3", "-I" + VERIF + "/harness", "-c", VERIF + "/harness/" + s, "-o", o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=open(o + ".log", "wb"), stderr=subprocess.STDOUT, env=env()), o + ".log"))
        for cmd, p, l in procs:
            if p.wait(): raise BuildError("harness build failed: %s\n%s" % (" ".join(cmd)[-300:], open(l, errors="replace").read()[-6000:]))
        link = fl.get("link", [])
        n = len(extra) + len(spec["src"]); last = objs[n:]
        sh(["g++", "-o", d + "/check"] + objs[:n] + [lib + "/libdwv.a"] + last + [a.replace("@VERIF@", VERIF) for a in link] + ["-lpng", "-ljpeg", "-lz", "-lpthread", "-ldl"], log)
        open(d + "/done", "w").close(); prune()
        return d + "/check"
    finally: lk.close()

def findings():
    out = []
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): out.append(l)
    return out

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK): return d
    return None

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # Nothing to install. Builds are made by each check from the tree it sees.
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup ok"); return 0
    pid = a[0]
    spec = CHECKS[pid]["run"]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    t0 = time.time()
    base = os.path.join(tempfile.gettempdir(), "vp-%s-%d" % (pid, os.getpid()))
    os.makedirs(base)
    try:
        builds = [b for b in spec["builds"] if tier == "thorough" or not BUILDS[b].get("thorough_only")]
        if len(a) > 2 and a[1] == "--replay":
            r = json.load(open(a[2]))
            exe = build_harness(r["build"])
            return subprocess.run(BUILDS[r["build"]].get("prefix", []) + [exe, "--scratch", base, "--replay", r["scenario"], r["path"]] + (["--thorough"] if r.get("tier") == "thorough" else []), env=run_env(base, r["build"])).returncode
        tot = dict(states=0, transitions=0, traces=0, paths=0); samples, scen, exhaustive = [], [], True
        exes = [(b, build_harness(b)) for b in builds]
        tb = time.time()
        deadline = t0 + (780 if tier == "quick" else 6 * 3600)
        for b, exe in exes:
            out = base + "/" + b + ".json"
            sc = base + "/" + b; os.makedirs(sc)
            left = max(30, deadline - time.time())
            if tier == "quick" and BUILDS[b].get("budget"): left = min(left, BUILDS[b]["budget"])
            cmd = BUILDS[b].get("prefix", []) + [exe, "--out", out, "--scratch", sc, "--jobs", str(os.cpu_count() or 8), "--budget", str(int(left))]
            if tier == "thorough": cmd.append("--thorough")
            if BUILDS[b].get("hang"): cmd += ["--hang", str(BUILDS[b]["hang"])]
            p = subprocess.run(cmd, env=run_env(sc, b), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            try: r = json.load(open(out))
            except Exception:
                sys.stderr.write("check error: harness gave no result (rc=%d)\n%s\n" % (p.returncode, p.stderr.decode(errors="replace")[-3000:])); return 2
            if r["result"] == "violation":
                rp = VERIF + "/evidence/replay-%s.json" % pid
                r.update(property=pid, build=b, tier=tier, how="python3 /verif/tools/run.py %s --replay %s" % (pid, rp))
                json.dump(r, open(rp, "w"), indent=1)
                write_evidence(pid, tier, seed, spec, tot, samples + [r["run"][:1500]], scen, False, time.time() - t0, tb - t0, 1, builds)
                print("scenario: %s\nrun: %s\n%s" % (r["scenario"], r["run"][:3000], r["message"][:3000]))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                return 1
            if r["result"] != "ok":
                sys.stderr.write("check error: %s\n" % json.dumps(r)[:3000]); return 2
            for k in tot: tot[k] += r[k]
            samples += r["samples"]; scen += r["scenarios"]; exhaustive = exhaustive and r["exhaustive"]
        write_evidence(pid, tier, seed, spec, tot, samples, scen, exhaustive, time.time() - t0, tb - t0, 0, builds)
        for l in findings():
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == pid: print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2)))
        print("%s: held on %d states, %d transitions, %d traces (%s, build %.0f s, total %.0f s)" % (pid, tot["states"], tot["transitions"], tot["traces"], "exhaustive within bounds" if exhaustive else "time budget reached", tb - t0, time.time() - t0))
        return 0
    except BuildError as e:
        sys.stderr.write(str(e) + "\n"); return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)

def run_env(sc, b):
    e = env()
    e.pop("VP_NOASLR", None)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=16777216:malloc_fill_byte=255:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=%d:thread_local_quarantine_size_kb=%d:max_allocation_size_mb=3000:handle_abort=1" % ((0, 0) if BUILDS[b].get("reuse") else (16, 64))
    e["OMP_NUM_THREADS"] = "1"; e["OMP_DYNAMIC"] = "false"
    e["TMPDIR"] = sc; e["VP_SCRATCH"] = sc
    return e

def write_evidence(pid, tier, seed, spec, tot, samples, scen, exhaustive, wall, tb, viol, builds):
    ck = CHECKS[pid]
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
               choice_paths=tot["paths"], scenarios=scen, exhaustive=exhaustive, bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
               states_are=spec["states_are"], transitions_are=spec["transitions_are"],
               samples=samples or ["(none)"], build_seconds=round(tb, 1))
    if ck["level"] == "fault_enumeration":
        cov.update(evaluations=tot["traces"], distinct_nontrivial=tot["states"], rule=spec["states_are"])
    ev = dict(property=pid, tier=tier, seed=seed, level=ck["level"], coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=viol)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % pid, "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
