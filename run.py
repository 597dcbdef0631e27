#!/usr/bin/env python3
"""Build and run one check:  run.py <ID> [--tier quick|thorough] [--replay F] ...
Builds everything from /repo's working tree (object-level cache keyed by the
preprocessed inputs' content), then executes the check binary."""
import sys, os, subprocess, concurrent.futures, hashlib, json, shutil, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
import checks  # noqa

JOBS = int(os.environ.get("VF_JOBS", "8"))

def tree_hash():
    """Content hash of everything a check compiles (repo sources + harness)."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "hwy"), os.path.join(VERIF, "engine"), os.path.join(VERIF, "ops"), os.path.join(VERIF, "contrib")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".inc")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, r).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def deps_ok(obj, cmdhash):
    """Object is current if its depfile's inputs have the recorded content hashes."""
    try:
        rec = json.load(open(obj + ".json"))
    except Exception:
        return False
    if rec["cmd"] != cmdhash or not os.path.exists(obj):
        return False
    for p, hv in rec["deps"].items():
        if filehash(p) != hv:
            return False
    return True

_fh = {}
def filehash(p):
    if p not in _fh:
        try:
            _fh[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        except OSError:
            _fh[p] = ""
    return _fh[p]

def compile_one(job):
    src, obj, cmd = job
    cmdhash = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    if deps_ok(obj, cmdhash):
        return (True, "", 0.0, src)
    t = time.time()
    dep = obj + ".d"
    full = cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return (False, " ".join(full) + "\n" + r.stdout, time.time() - t, src)
    txt = open(dep).read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split()
    deps = {f: filehash(f) for f in files if not f.startswith("/usr/")}
    with open(obj + ".json.tmp", "w") as f:
        json.dump({"cmd": cmdhash, "deps": deps}, f)
    os.rename(obj + ".json.tmp", obj + ".json")
    return (True, r.stdout, time.time() - t, src)

def build(cid, tier, verbose=False):
    chk = checks.get(cid, tier, REPO, VERIF)
    bdir = os.path.join(BUILD, cid + ("-t" if tier == "thorough" else ""))
    os.makedirs(bdir, exist_ok=True)
    lib = os.path.join(BUILD, "lib")
    os.makedirs(lib, exist_ok=True)
    jobs, objs = [], []
    for s in chk["sources"]:
        d = lib if s.get("shared") else bdir
        obj = os.path.join(d, s["name"] + ".o")
        objs.append(obj)
        jobs.append((s["src"], obj, s["cmd"]))
    jobs_sorted = jobs
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, jobs_sorted))
    ok = True
    for r in res:
        if not r[0]:
            ok = False
            sys.stderr.write(r[1][-6000:] + "\n")
            open(os.path.join(BUILD, "compile_error.txt"), "a").write(r[1])
        elif verbose:
            print("  %6.1fs %s" % (r[2], r[3]))
    if not ok:
        return None
    exe = os.path.join(bdir, cid)
    link = [checks.CXX, "-o", exe + ".tmp"] + objs + chk.get("link", []) + ["-lpthread", "-lm"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return None
    os.rename(exe + ".tmp", exe)
    print("build %s: %.1fs" % (cid, time.time() - t0), flush=True)
    return exe

def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__); return 2
    cid = args[0]; rest = args[1:]
    if cid == "--setup":  # nothing is prebuilt: every check builds from /repo's tree
        for t in (checks.CXX, checks.CLANG):
            if not shutil.which(t):
                sys.stderr.write("missing compiler %s\n" % t); return 1
        return 0
    verbose = "-v" in rest
    rest = [a for a in rest if a != "-v"]
    tier = "quick"
    if "--tier" in rest:
        tier = rest[rest.index("--tier") + 1]
    env = dict(os.environ, VERIF_ROOT=VERIF)
    exe = build(cid, tier, verbose)
    if exe is None:
        # The tree does not compile in a configuration this check needs.
        sys.stderr.write("check build failed\n")
        return 2
    if "--build-only" in rest:
        return 0
    return subprocess.call([exe, "--property", cid] + rest, env=env)

if __name__ == "__main__":
    sys.exit(main())
