"""Running the generator and looking at what it wrote."""
import os, re, subprocess
from . import build
from .pbt import Violation, Inconclusive

FWI = "-I" + build.FW_INC
ENVG = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1")


def run(exe, args, cwd=None, timeout=20, env=None):
    try:
        p = subprocess.run([exe] + args, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout,
                           env=env or ENVG, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Violation("hang", "the generator did not end within %d s: %s" % (timeout, args))
    return p


def err_tail(p, n=600):
    """stderr without the generator's chatter about macros."""
    return "\n".join(x for x in p.stderr.splitlines() if not x.startswith(("Warning: Undefining", "Warning: Redefining")))[-n:]


def cc(args, cwd=None, timeout=120):
    return subprocess.run(args, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)


def first_error(text):
    for line in text.splitlines():
        if "error:" in line or "undefined reference" in line:
            return line[-400:]
    return text[:400]


def globals_of(obj):
    """Global symbols an object defines: name -> type letter."""
    p = cc(["nm", "--defined-only", "-g", obj])
    out = {}
    for line in p.stdout.splitlines():
        f = line.split()
        if len(f) == 3:
            out[f[2]] = f[1]
    return out


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def read(path):
    with open(path, errors="replace") as f:
        return f.read()


def read_b(path):
    with open(path, "rb") as f:
        return f.read()
