#!/usr/bin/env python3
"""Builds one check's executable from /repo's working tree (never from /repo/_build).

build(cid) -> path of executable. Library sources are compiled through ccache (cache inside
/verif/_build) so unchanged files cost nothing when the cache survives; each check has a committed
list of the library sources it needs (deps/<id>.txt), and when that list turns out not to be enough
(a refactoring moved something) everything is compiled. Symbols that belong to the sources that need
GoTools get placeholders, exactly as the repository's own build does it here.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, "_build")
JOBS = os.cpu_count() or 8

DEFS = """-DDUNE_ISTL_VERSION_MAJOR=2 -DDUNE_ISTL_VERSION_MINOR=9 -DDUNE_ISTL_VERSION_REVISION=0
-DHAS_CEREAL=1 -DHAS_HDF5=1 -DHAS_ISTL=1 -DHAS_SUPERLU=1 -DHAS_UMFPACK=1 -DHAVE_NULLPTR=1
-DHAVE_SUITESPARSE_UMFPACK=1 -DHAVE_SUPERLU=1 -DHAVE_UMFPACK=1 -DISTL_VERSION="2.9.0" -DPROFILE_LEVEL=3
-DReal=double -DSUPERLU_INT_TYPE=int -DSUPERLU_MIN_VERSION_4_3=1 -DSUPERLU_MIN_VERSION_5=1 -DSUPERLU_NTYPE=1
-DSUPERLU_POST_2005_VERSION=1 -DUSE_CBLAS=1 -DUSE_OPENMP=1 -DepsZ=1.0e-12""".split()
DEFS = [d if not d.startswith("-DISTL_VERSION") else '-DISTL_VERSION="2.9.0"' for d in DEFS]
INCS = ["-I" + os.path.join(B, "gen")] + ["-I%s/%s" % (REPO, d) for d in (
    "Apps/Utils", "3rdparty", "src/ASM", "src/LinAlg", "src/SIM", "src/Utility", "src/Eig",
    "3rdparty/autodiff", "3rdparty/expreval")] + [
    "-isystem", "/usr/include/superlu", "-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/suitesparse"]
BASE = ["-std=gnu++20", "-fopenmp", "-DNDEBUG", "-w"]
FLAV = {"plain": ["-O1"], "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
        # memory accesses call the simulator's hooks (sim/simomp.C), not the sanitizer's runtime
        "hooked": ["-O1", "-fsanitize=thread"]}
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "cblas_daxpy", "cblas_dscal",
                                                  "cblas_ddot", "cblas_dnrm2", "cblas_dasum"))]
LIBS = """/usr/lib/x86_64-linux-gnu/libopenblas.so -ldl /usr/lib/x86_64-linux-gnu/libarpack.so
/usr/lib/x86_64-linux-gnu/libtinyxml2.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so
/usr/lib/x86_64-linux-gnu/libsuperlu.so /usr/lib/x86_64-linux-gnu/libumfpack.so
/usr/lib/x86_64-linux-gnu/libsuitesparseconfig.so -ldunecommon -lgfortran -lquadmath -lgomp -lpthread -lm""".split()

CLASSES = (
    r"ASMmxBase|ASMstruct|ASMs1D(?:C1|Lag|Spec)?|ASMs2D(?:C1|IB|Lag|mx|Spec|Tri)?|ASMs3D(?:Lag|mx|Spec)?"
    r"|SplineField(?:2D|3D)?|SplineFields(?:1D|2D|2Dmx|3D|3Dmx)|SplineInterpolator|SplineUtils"
    r"|(?:Default|MultiPatch)\w*ModelGenerator\w*|SIMMultiPatchModelGen")
ALLOWED = re.compile(
    r"^(?:vtable for |typeinfo for |typeinfo name for |VTT for |construction vtable for "
    r"|guard variable for |(?:non-)?virtual thunk to )?(?:%s)(?:$|::)" % CLASSES)
GOTOOLS = set("""src/ASM/ASMmxBase.C src/ASM/ASMs1D.C src/ASM/ASMs1DC1.C src/ASM/ASMs1DLag.C src/ASM/ASMs1DSpec.C
src/ASM/ASMs2D.C src/ASM/ASMs2DC1.C src/ASM/ASMs2DIB.C src/ASM/ASMs2DLag.C src/ASM/ASMs2Dmx.C src/ASM/ASMs2Drecovery.C
src/ASM/ASMs2DSpec.C src/ASM/ASMs2DTri.C src/ASM/ASMs3D.C src/ASM/ASMs3DLag.C src/ASM/ASMs3Dmx.C src/ASM/ASMs3Drecovery.C
src/ASM/ASMs3DSpec.C src/ASM/ASMstruct.C src/ASM/SplineField2D.C src/ASM/SplineField3D.C src/ASM/SplineField.C
src/ASM/SplineFields1D.C src/ASM/SplineFields2D.C src/ASM/SplineFields2Dmx.C src/ASM/SplineFields3D.C
src/ASM/SplineFields3Dmx.C src/ASM/SplineInterpolator.C src/Utility/SplineUtils.C""".split())


class BuildError(Exception):
    pass


def config():
    return json.load(open(os.path.join(V, "tools", "checks.json")))


def env():
    e = dict(os.environ, CCACHE_DIR=os.path.join(B, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="2G",
             CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime", LC_ALL="C")
    return e


def gen():
    d = os.path.join(B, "gen")
    os.makedirs(d, exist_ok=True)
    txt = re.sub(r"@\w+@", "0.0", open(REPO + "/src/IFEM.h.in").read())
    f = os.path.join(d, "IFEM.h")
    if not os.path.exists(f) or open(f).read() != txt:
        open(f, "w").write(txt)


def library_sources():
    src = [l.strip() for l in open(os.path.join(V, "tools", "sources.txt")) if l.strip()]
    known = set(l.strip() for l in open(os.path.join(V, "tools", "known_sources.txt")))
    now = set(re.findall(r"(?:src|3rdparty)/[\w/.+-]+\.(?:C|cpp|f)\b", open(REPO + "/CMakeLists.txt").read()))
    now |= {"Apps/Utils/" + s for s in re.findall(r"\b\w+\.C\b", open(REPO + "/Apps/Utils/CMakeLists.txt").read())}
    extra = [s for s in sorted(now - known) if "/Test/" not in s and os.path.exists(os.path.join(REPO, s))]
    return [s for s in src if os.path.exists(os.path.join(REPO, s))] + extra


def compile_one(src, obj, flags, log):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cc = shutil.which("ccache")
    pre = [cc] if cc else []
    if src.endswith(".f"):
        cmd = ["gfortran", "-O1", "-c", src, "-o", obj]
    else:
        cmd = pre + ["g++"] + DEFS + INCS + ["-I" + V + "/sim", "-I" + V + "/checks"] + BASE + flags + ["-c", src, "-o", obj]
    r = subprocess.run(cmd, capture_output=True, text=True, env=env())
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
    return obj


def objname(src, tag):
    rel = os.path.relpath(src, REPO) if src.startswith(REPO) else "verif/" + os.path.relpath(src, V)
    return os.path.join(B, "obj", tag, rel + ".o")


def link(cmd, out):
    r = subprocess.run(cmd, capture_output=True, text=True, env=env())
    if r.returncode == 0:
        return
    probe = subprocess.run(cmd + ["-Wl,--no-demangle"], capture_output=True, text=True, env=env())
    syms = sorted(set(re.findall(r"undefined reference to `([^']+)'", probe.stderr)))
    names = subprocess.run(["c++filt"], input="\n".join(syms) + "\n", capture_output=True, text=True).stdout.splitlines()
    bad = [n for n in names if not ALLOWED.match(n)]
    if not syms or bad:
        raise BuildError("link failed: " + (r.stderr[-3000:] if not syms else "undefined: " + "; ".join(bad[:20])))
    stub = out + ".leftout"
    text, data, info = [], [], []
    for s, n in zip(syms, names):
        if s.startswith("_ZTI"):
            info.append(f'.globl {s}\n.balign 8\n{s}:\n.quad _ZTVN10__cxxabiv117__class_type_infoE+16\n'
                        f'.quad 1f\n.section .rodata\n1: .asciz "{s[4:]}"\n.section .data.rel.leftout,"aw"\n')
        elif "(" in n:
            text.append(f".globl {s}\n.type {s},@function\n.set {s}, ifem_left_out\n")
        else:
            data.append(f".globl {s}\n.balign 16\n{s}: .zero 4096\n")
    with open(stub + ".s", "w") as f:
        f.write('.text\n.globl ifem_left_out\n.type ifem_left_out,@function\nifem_left_out:\n')
        f.write("subq $8,%rsp\ncall abort\n" + "".join(text))
        f.write('.section .data.rel.leftout,"aw"\n' + "".join(info))
        f.write('.section .leftout,"aw"\n.balign 4096\n' + "".join(data))
        f.write('.section .note.GNU-stack,"",@progbits\n')
    if subprocess.run(["gcc", "-fPIC", "-c", stub + ".s", "-o", stub + ".o"]).returncode:
        raise BuildError("placeholder object")
    r = subprocess.run(cmd + [stub + ".o"], capture_output=True, text=True, env=env())
    if r.returncode:
        raise BuildError("link failed: " + r.stderr[-3000:])


def build(cid, full=False, verbose=False, mapfile=None):
    t0 = time.time()
    cfg = config()[cid]
    gen()
    flav = cfg.get("flavour", "asan")
    lib = library_sources()
    deps = os.path.join(V, "deps", cid + ".txt")
    if full or not os.path.exists(deps):
        need = lib
    else:
        want = set(l.strip() for l in open(deps))
        known = set(l.strip() for l in open(os.path.join(V, "tools", "sources.txt")))
        need = [s for s in lib if s in want or s not in known]
    out = os.path.join(B, "bin", cid)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    jobs = []
    own = [os.path.join(V, s) for s in cfg["src"]]
    for s in own:
        f = list(FLAV[flav if s.split("/")[-1] not in ("simomp.C", "simclock.C") else "plain"])
        f += cfg.get("own_flags", [])
        jobs.append((s, objname(s, flav + "-" + cid), f))
    nown = len(jobs)
    for s in need:
        jobs.append((os.path.join(REPO, s), objname(os.path.join(REPO, s), flav), list(FLAV[flav])))
    # heavy files first
    order = sorted(range(len(jobs)), key=lambda k: (k >= nown, -os.path.getsize(jobs[k][0])))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = [ex.submit(compile_one, jobs[k][0], jobs[k][1], jobs[k][2], None) for k in order]
        errs = []
        for f in fut:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs[:3]))
    ar = out + ".a"
    if os.path.exists(ar):
        os.remove(ar)
    subprocess.run(["ar", "qcs", ar] + [j[1] for j in jobs[nown:]], check=True)
    cmd = ["g++", "-fopenmp", "-o", out] + [j[1] for j in jobs[:nown]]
    if flav == "asan":
        cmd += ["-fsanitize=address"]
    if flav == "hooked":
        cmd += WRAP
    cmd += ["-rdynamic"] + [ar] + LIBS + cfg.get("ldflags", [])
    if mapfile:
        cmd += ["-Wl,-Map=" + mapfile]
    try:
        link(cmd, out)
    except BuildError:
        if need is lib:
            raise
        return build(cid, True, verbose, mapfile)
    if verbose:
        print("built %s in %.1f s (%d library sources)" % (cid, time.time() - t0, len(need)), file=sys.stderr)
    return out


def update_deps(cid):
    m = os.path.join(B, cid + ".map")
    build(cid, True, True, m)
    objs = set(re.findall(r"\.a\(([\w.+-]+\.o)\)", open(m).read()))
    lib = library_sources()
    d = [s for s in lib if os.path.basename(s) + ".o" in objs]
    os.makedirs(os.path.join(V, "deps"), exist_ok=True)
    open(os.path.join(V, "deps", cid + ".txt"), "w").write("".join(s + "\n" for s in d))
    print(cid, len(d), "sources")


if __name__ == "__main__":
    try:
        if sys.argv[1] == "deps":
            for c in sys.argv[2:] or config():
                update_deps(c)
        elif sys.argv[1] == "all":
            for c in config():
                build(c, verbose=True)
        else:
            for c in sys.argv[1:]:
                build(c, verbose=True)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
