"""Builds the symbolic executor and instrumented programs from /repo's current tree."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = REPO + "/cppcore"
BUILD = os.environ.get("VERIF_BUILD", ROOT + "/build")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang++"
LLC = LLVM + "/bin/llc"
NM = LLVM + "/bin/llvm-nm"
JOBS = min(8, os.cpu_count() or 1)

BASE = ["-std=c++11", "-DNDEBUG", "-w", "-I" + ROOT + "/engine/compat", "-include", "compat.hpp",
        "-I" + CORE + "/include", "-I/usr/include/eigen3", "-I" + ROOT + "/engine", "-I" + ROOT + "/harness"]
SYM = ["-O1", "-DEIGEN_DONT_VECTORIZE", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off"]

GROUPS = {
    "core": ["src/Lattice.cpp", "src/Model.cpp", "src/hamiltonian/*.cpp", "src/system/*.cpp", "src/leads/*.cpp", "src/utils/*.cpp"],
    "kpm": ["src/KPM.cpp", "src/kpm/*.cpp"],
    "kpmdefault": ["src/kpm/default/*.cpp"],
    "solver": ["src/solver/Solver.cpp"],
}


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])
    return p.stdout.decode(errors="replace")


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def filehash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def cached(key, ext, make):
    """make(tmp) writes the file; the result is kept under a content hash"""
    os.makedirs(BUILD + "/cache", exist_ok=True)
    path = "%s/cache/%s%s" % (BUILD, key, ext)
    if not os.path.exists(path):
        tmp = "%s.%d.%d%s" % (path, os.getpid(), id(make), ext)
        make(tmp)
        os.replace(tmp, path)
    return path


def engine():
    srcs = [ROOT + "/engine/" + n for n in ("symins.cpp", "rt.cpp", "ops.h", "sym.h", "models.cpp", "plain.cpp")]
    hs = {os.path.basename(s): filehash(s) for s in srcs}

    def mk_ins(out):
        flags = run([LLVM + "/bin/llvm-config", "--cxxflags"]).split()
        run([CLANG, "-O1"] + [f for f in flags if not f.startswith("-std")] + ["-std=c++17", "-fno-rtti", "-w",
             ROOT + "/engine/symins.cpp", "-o", out, "-L" + LLVM + "/lib", "-lLLVM-18"])

    def mk_rt(out):
        run(["g++", "-O2", "-std=c++14", "-w", "-c", ROOT + "/engine/rt.cpp", "-o", out])

    def mk_plain(out):
        run(["g++", "-O1", "-std=c++14", "-w", "-c", ROOT + "/engine/plain.cpp", "-o", out])

    with ThreadPoolExecutor(3) as ex:
        a = ex.submit(cached, digest("ins", hs["symins.cpp"], hs["ops.h"]), ".bin", mk_ins)
        b = ex.submit(cached, digest("rt", hs["rt.cpp"], hs["ops.h"], hs["sym.h"]), ".o", mk_rt)
        c = ex.submit(cached, digest("plain", hs["plain.cpp"], hs["sym.h"]), ".o", mk_plain)
        return a.result(), b.result(), c.result()


def sources(groups):
    out = []
    for g in groups:
        for pat in GROUPS[g]:
            out += sorted(glob.glob(CORE + "/" + pat))
    return out


def preprocess(src, flags):
    p = subprocess.run([CLANG] + flags + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        raise BuildError(src + "\n" + p.stderr.decode(errors="replace")[-4000:])
    return p.stdout


def program(name, groups, extra_flags=()):
    """returns (symbolic executable, plain executable)"""
    harness = ROOT + "/harness/" + name + ".cpp"
    flags = BASE + list(extra_flags)
    with ThreadPoolExecutor(JOBS) as ex:
        eng = ex.submit(engine)
        units = [harness] + sources(groups) + [ROOT + "/engine/models.cpp"]

        def bitcode(src):
            f = flags + SYM + (["-fno-builtin"] if src.endswith("models.cpp") else [])
            if src.startswith(ROOT + "/harness"):
                f = [x for x in f if x != "-std=c++11"] + ["-std=c++14"]
            text = preprocess(src, f)
            key = digest("bc", text, " ".join(f))
            return cached(key, ".bc", lambda out: run([CLANG] + f + ["-emit-llvm", "-c", src, "-o", out]))

        bcs = list(ex.map(bitcode, units))
        ins, rt, plain = eng.result()
        syms = run([NM, "--defined-only", "--format=just-symbols"] + bcs)
        symlist = "\n".join(sorted(set(x for x in syms.split("\n") if x and not x.endswith(":"))))
        sympath = cached(digest("sym", symlist), ".txt", lambda out: open(out, "w").write(symlist))
        inskey = os.path.basename(ins)

        def instr(bc):
            def mk(out):
                t = out + ".bc"
                run([ins, bc, t, sympath])
                run([LLC, "-O1", "-filetype=obj", "-relocation-model=pic", t, "-o", out])
                os.unlink(t)
            return cached(digest("io", os.path.basename(bc), inskey, os.path.basename(sympath)), ".o", mk)

        def native(bc):
            return cached(digest("no", os.path.basename(bc)), ".o",
                          lambda out: run([LLC, "-O1", "-filetype=obj", "-relocation-model=pic", bc, "-o", out]))

        io = list(ex.map(instr, bcs))
        no = list(ex.map(native, bcs[:-1]))
    exe = cached(digest("exe", *io, rt), ".exe", lambda out: run(["g++"] + io + [rt, "-o", out, "-lz3", "-lfmt", "-lpthread"]))
    pexe = cached(digest("pexe", *no, plain), ".exe", lambda out: run(["g++"] + no + [plain, "-o", out, "-lfmt", "-lpthread"]))
    return exe, pexe


def asan_program(name, groups, extra_flags=()):
    """the same harness against an ordinary build of the real sources, with AddressSanitizer (only to confirm counterexamples)"""
    harness = ROOT + "/harness/" + name + ".cpp"
    flags = BASE + list(extra_flags) + ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]

    def comp(src):
        f = [x for x in flags if x != "-std=c++11"] + ["-std=c++14"] if src.startswith(ROOT) else flags
        key = digest("asan", preprocess(src, f), " ".join(f))
        return cached(key, ".o", lambda out: run([CLANG] + f + ["-c", src, "-o", out]))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(comp, [harness, ROOT + "/engine/plain.cpp"] + sources(groups)))
    return cached(digest("asanexe", *objs), ".exe", lambda out: run([CLANG, "-fsanitize=address"] + objs + ["-o", out, "-lfmt", "-lpthread"]))
