"""Compile a harness translation unit (which includes the real headers/sources of /repo) to
bitcode, and native drivers with sanitizers."""
import os, subprocess, shutil, tempfile, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vc_", dir=os.environ.get("TMPDIR", "/tmp"))
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def cleanup():
    if _tmp is not None:
        shutil.rmtree(_tmp, ignore_errors=True)


EIG = "/usr/include/eigen3"
INC = ["-I", f"{VERIF}/harness/stubs", "-I", f"{REPO}/include", "-I", f"{REPO}/src", "-I", f"{REPO}/src/lib", "-I", f"{VERIF}/harness", "-I", EIG]


class BuildError(Exception):
    pass


def _run(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


def bitcode(src, defs=(), debug=True):
    d = tmp()
    base = os.path.join(d, os.path.basename(src).replace(".cpp", ""))
    cmd = ["clang++-18", "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-ffp-contract=off",
           "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0", "-DEIGEN_NO_DEBUG", "-fno-vectorize", "-w"]
    if debug:
        cmd.append("-DDEBUG")
    cmd += list(defs) + INC + ["-emit-llvm", "-c", os.path.join(VERIF, "harness", src), "-o", base + ".bc"]
    _run(cmd)
    _run(["/usr/lib/llvm-18/bin/opt", "-passes=function(sroa,loop-simplify)", base + ".bc", "-o", base + ".opt.bc"])
    return base + ".opt.bc"


def native(src, extra=(), defs=(), san=True, opt="-O1"):
    d = tmp()
    out = os.path.join(d, os.path.basename(src).replace(".cpp", "") + ".exe")
    cmd = ["g++", "-std=c++17", opt, "-g", "-w", "-ffp-contract=off"]
    if san:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    cmd += list(defs) + INC + [os.path.join(VERIF, "harness", src)] + [os.path.join(REPO, e) for e in extra] + ["-o", out]
    _run(cmd)
    return out
