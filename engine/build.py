"""Compiles /repo's current sources and the harnesses to LLVM bitcode (clang 18) in a scratch directory
and loads them. Everything is rebuilt on every run."""
import os, subprocess, tempfile, concurrent.futures as cf, shutil, atexit, re, sys
import llvmir, symex

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-std=c++17", "-O1", "-g0", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-fno-vectorize", "-fno-slp-vectorize",
         "-ffp-contract=off", "-fno-math-errno", "-I" + REPO + "/src", "-I/usr/include/eigen3", "-I" + HERE, "-w"]
NOINL = re.compile(r"^_ZN9factorama(9ExpMapSO3|9LogMapSO3|34compute_inverse_right_jacobian_so3)E"
                   r"|^_ZNK5Eigen10MatrixBaseI.*E10stableNormEv$|^_ZSt4endl|^_ZStlsI|^_ZN5EigenlsI|^_ZNSolsE"
                   r"|^_ZNK?5Eigen22SimplicialCholeskyBaseI.*(7computeILb1|11_solve_impl|9factorizeILb1|14analyzePatternE)")


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="fverif_")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def repo_sources():
    """every library translation unit of the current tree (so code moved between files is still found)"""
    d = REPO + "/src/factorama"
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".cc", ".cxx")))


def _one(src, extra):
    out = os.path.join(scratch(), os.path.basename(src).rsplit(".", 1)[0] + ".bc")
    cmd = ["clang++-18"] + FLAGS + extra + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), "\n".join(x for x in p.stderr.splitlines() if "error" in x)[:2000]))
    return out


def program(harnesses, sources=None, extra=(), noinline=NOINL):
    srcs = list(harnesses) + [os.path.join(os.path.dirname(HERE), 'harness', 'strings.cpp')] + (repo_sources() if sources is None else sources)
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda s: _one(s, list(extra)), srcs))
        mods = list(ex.map(lambda b: llvmir.Module(b, noinline=lambda n: bool(noinline.match(n))), bcs))
    return symex.Program(mods)
