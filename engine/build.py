#!/usr/bin/env python3
"""Build the symbolic-execution instrumented Cantera from /repo's working tree.

Objects are cached under /verif/.cache keyed by the content of everything that went into them
(preprocessed source, compiler flags, pass), so a check recompiles exactly what changed.
"""
import os, sys, subprocess, hashlib, json, re, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = f"{VERIF}/engine"
CACHE = os.environ.get("VERIF_CACHE", f"{VERIF}/.cache")
DIRS = ["base", "thermo", "tpx", "equil", "numerics", "kinetics", "transport", "oneD", "zeroD", "clib"]
NOBUILTIN = ["pow", "exp", "log", "log10", "exp2", "log2", "sin", "cos", "tan", "sinh", "cosh", "tanh",
             "cbrt", "fmod", "hypot", "atan2", "sqrt", "expm1", "log1p"]
DEFS = ["-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", f'-DCANTERA_DATA="{REPO}/data"', '-DGIT_COMMIT="verif"', "-DCT_VERIF_SYM=1"]
INCS = [f"-I{ENG}/inc", f"-I{REPO}/include", f"-I{REPO}/src"]
CXX = ["clang++", "-std=c++17", "-O1", "-fPIC", "-g0", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
       "-fno-unroll-loops", "-fno-math-errno", "-fmerge-all-constants"] + [f"-fno-builtin-{f}" for f in NOBUILTIN]
LIBS = ["-lyaml-cpp", "-lfmt", "-lsundials_cvodes", "-lsundials_idas", "-lsundials_nvecserial",
        "-lsundials_sunlinsolspgmr", "-lsundials_sunlinsoldense", "-lsundials_sunlinsolband", "-lsundials_generic",
        "-lopenblas", "-ldl", "-lpthread"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, **kw)

def build_pass():
    src = open(f"{ENG}/SymPass.cpp", "rb").read() + open(f"{ENG}/symops.h", "rb").read()
    key = sha(src)
    out = f"{CACHE}/libsympass-{key}.so"
    if not os.path.exists(out):
        flags = run(["llvm-config-18", "--cxxflags"]).stdout.decode().split() or run(["llvm-config", "--cxxflags"]).stdout.decode().split()
        flags = [f for f in flags if not f.startswith("-std=")]
        tmp = f"{out}.{os.getpid()}"
        r = run(["clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-w", "-fno-rtti", *flags, f"{ENG}/SymPass.cpp", "-o", tmp])
        if r.returncode:
            raise SystemExit("pass build failed:\n" + r.stderr.decode()[-4000:])
        os.rename(tmp, out)
    return out, key

class BuildError(Exception):
    pass

_fh = {}
def filehash(path):
    h = _fh.get(path)
    if h is None:
        try:
            with open(path, "rb") as f: h = hashlib.sha256(f.read()).hexdigest()[:24]
        except OSError:
            h = "missing"
        _fh[path] = h
    return h

def compile_one(args):
    """object file of one source: reused when every file it was compiled from is unchanged, or when its
    preprocessed text is"""
    src, passlib, passkey, extra, instrument = args
    flags = CXX + DEFS + INCS + extra
    cfg = sha(src, passkey if instrument else "plain", *flags)
    man = f"{CACHE}/man/{cfg}"
    try:
        with open(man) as f: deps, out = json.load(f)
        if os.path.exists(out) and all(filehash(p) == h for p, h in deps.items()):
            return out, False
    except (OSError, ValueError):
        pass
    os.makedirs(f"{CACHE}/man", exist_ok=True)
    tag = f"{os.getpid()}.{cfg[:10]}"
    dep = f"{man}.d.{tag}"
    pp = run(flags[:1] + ["-E", "-P", "-MD", "-MF", dep, "-MT", "x"] + flags[1:] + [src])
    if pp.returncode:
        raise BuildError(f"{src}:\n" + pp.stderr.decode()[-3000:])
    with open(dep) as f: names = f.read().replace("\\\n", " ").split()[1:]
    os.unlink(dep)
    key = sha(pp.stdout.rstrip(), cfg)
    deps = {p: filehash(p) for p in names if p.startswith((REPO + "/", VERIF + "/"))}
    d = f"{CACHE}/obj/{key[:2]}"
    out = f"{d}/{os.path.basename(src)}.{key}.o"
    new = False
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        tmp = f"{out}.{tag}"
        r = run(flags + ([f"-fpass-plugin={passlib}"] if instrument else []) + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError(f"{src}:\n" + r.stderr.decode()[-3000:])
        os.rename(tmp, out)
        new = True
    with open(f"{man}.{tag}", "w") as f: json.dump([deps, out], f)
    os.rename(f"{man}.{tag}", man)
    return out, new

def prune(keep_bytes=6 << 30):
    """bound the cache: oldest objects and executables go first"""
    fs = []
    for root, _, names in os.walk(CACHE):
        for n in names:
            p = os.path.join(root, n)
            try: st = os.stat(p)
            except OSError: continue
            fs.append((max(st.st_atime, st.st_mtime), st.st_size, p))
    tot = sum(f[1] for f in fs)
    for t, s, p in sorted(fs):
        if tot <= keep_bytes or time.time() - t < 1800: break
        try: os.unlink(p); tot -= s
        except OSError: pass

def sources():
    out = []
    for d in DIRS:
        p = f"{REPO}/src/{d}"
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith((".cpp", ".c")):
                    out.append(f"{p}/{f}")
    out.append(f"{REPO}/src/extensions/canteraStatic.cpp")
    return out

def build(harnesses, jobs=8, verbose=False):
    """returns (dict harness -> executable, stats)"""
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    passlib, passkey = build_pass()
    rt = [(f"{ENG}/runtime.cpp", passlib, passkey, [f"-I{ENG}", "-O2"], False)]
    lib = [(f"{ENG}/lapack_model.cpp", passlib, passkey, [], True)] + [(s, passlib, passkey, [], True) for s in sources()]
    har = [(f"{VERIF}/harness/{h}.cpp", passlib, passkey, [f"-I{ENG}", f"-I{VERIF}/harness", "-O0" if False else "-O1"], True) for h in harnesses]
    _fh.clear()
    with ThreadPoolExecutor(jobs) as ex:
        # biggest first
        todo = rt + har + sorted(lib, key=lambda a: -os.path.getsize(a[0]))
        res = list(ex.map(compile_one, todo))
    n = sum(r[1] for r in res)
    rto, haro, libo = res[0][0], [r[0] for r in res[1:1 + len(har)]], sorted(r[0] for r in res[1 + len(har):])
    if verbose:
        print(f"compiled {n} of {len(res)} units in {time.time()-t0:.1f} s", file=sys.stderr)
    lk = sha(*libo, rto)
    so = f"{CACHE}/bin/libctsym-{lk}.so"
    os.makedirs(f"{CACHE}/bin", exist_ok=True)
    if not os.path.exists(so):
        tmp = f"{so}.{os.getpid()}"
        rsp = tmp + ".rsp"
        open(rsp, "w").write("\n".join(libo + [rto]))
        r = run(["clang++", "-shared", "-fuse-ld=lld", "-Wl,-Bsymbolic", "-o", tmp, f"@{rsp}", *LIBS])
        os.unlink(rsp)
        if r.returncode:
            raise BuildError("link:\n" + r.stderr.decode()[-3000:])
        os.rename(tmp, so)
    exes = {}
    for h, o in zip(harnesses, haro):
        exe = f"{CACHE}/bin/{h}-{sha(lk, o)}"
        if not os.path.exists(exe):
            tmp = f"{exe}.{os.getpid()}"
            r = run(["clang++", "-fuse-ld=lld", "-o", tmp, o, so, f"-Wl,-rpath,{CACHE}/bin", *LIBS])
            if r.returncode:
                raise BuildError(f"link {h}:\n" + r.stderr.decode()[-3000:])
            os.rename(tmp, exe)
        exes[h] = exe
    return exes, {"compiled": n, "units": len(res), "build_s": round(time.time() - t0, 1)}

if __name__ == "__main__":
    try:
        hs = sys.argv[1:]
        if hs == ["--all"]:
            import json
            hs = sorted({h for c in json.load(open(f"{ENG}/props.json")).values() for h in c["harness"]})
        print(build(hs, verbose=True))
    except BuildError as e:
        print(e); sys.exit(3)
