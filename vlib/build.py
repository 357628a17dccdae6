"""Builds what the checks need from /repo's current working tree into /verif/build (git-ignored).

Objects are cached by the content of the source, of every header under src/ and of the flags, so a
check that runs right after another one on the same tree builds nothing."""
import fcntl, glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EM_REPO", "/repo")
BUILD = os.environ.get("EM_BUILD", os.path.join(VERIF, "build"))
FW_INC = os.path.join(REPO, "src/easyMockFramework/include")
GEN_INC = os.path.join(REPO, "src/easyMockGenerate/include")
LLVM = "/usr/lib/llvm-14"
SAN = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-g1"]
VARIANTS = {"plain": ["-O0"], "asan": ["-O0"] + SAN}


class BuildError(Exception):
    pass


def _implicit_dirs():
    out = subprocess.run(["gcc", "-xc", "-E", "-v", "/dev/null"], capture_output=True, text=True).stderr
    dirs, on = [], False
    for line in out.splitlines():
        if line.startswith("#include <"):
            on = True
        elif line.startswith("End of search"):
            on = False
        elif on and line.startswith(" "):
            dirs.append(os.path.realpath(line.strip()))
    return ":".join(dirs)


_hdr_hash = None


def headers_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith((".cpp", ".c", ".txt")):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    with open(p, "rb") as fd:
                        h.update(fd.read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), (p.stderr + p.stdout)[-4000:]))


def _obj(src, cc, flags, extra_key=""):
    with open(src, "rb") as fd:
        data = fd.read()
    key = hashlib.sha256(("\0".join([src, cc, headers_hash(), extra_key] + flags)).encode() + data).hexdigest()[:24]
    out = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + key + ".o")
    return out, [cc] + flags + ["-c", src, "-o", out + ".tmp%d" % os.getpid()]


def _compile_all(jobs):
    """jobs: list of (obj, cmd); compiles the missing ones in parallel, biggest source first."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo = [(o, c) for o, c in jobs if not os.path.exists(o)]
    todo.sort(key=lambda oc: -os.path.getsize(oc[1][-3]))
    todo.sort(key=lambda oc: "LLVMParser" not in oc[0])

    def one(oc):
        o, c = oc
        _run(c)
        os.replace(c[-1], o)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, todo))
    return [o for o, _ in jobs]


def _link(out_name, objs, cmd_tail, cc):
    key = hashlib.sha256("\0".join(objs + cmd_tail + [cc]).encode()).hexdigest()[:16]
    base, ext = os.path.splitext(out_name)
    out = os.path.join(BUILD, "bin", base + "-" + key, out_name)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        _run([cc] + objs + cmd_tail + ["-o", tmp])
        os.replace(tmp, out)
    return out


def gen_sources():
    root = os.path.join(REPO, "src/easyMockGenerate/src")
    return sorted(glob.glob(root + "/**/*.cpp", recursive=True))


def _gen_flags(variant):
    return ["-std=gnu++17", "-w", "-DBACKTRACE_SUPPORT", "-DC_IMPLICIT_INCLUDE_DIRECTORIES=\"%s\"" % _implicit_dirs(),
            "-I" + FW_INC, "-I" + GEN_INC, "-I" + LLVM + "/include"] + VARIANTS[variant]


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def generator_jobs(variant):
    return [_obj(s, "g++", _gen_flags(variant)) for s in gen_sources()]


def generator(variant="plain"):
    with _lock():
        objs = _compile_all(generator_jobs(variant))
        tail = VARIANTS[variant] + ["-L" + LLVM + "/lib", "-lctemplate", "-lboost_filesystem", "-lboost_system",
                                    "-lclang", "-lclang-cpp", "-lLLVM-14", "-lpthread", "-lcurses", "-lunwind", "-ldw"]
        return _link("EasyMockGenerate", objs, tail, "g++")


def framework_sources():
    root = os.path.join(REPO, "src/easyMockFramework/src")
    return sorted(glob.glob(root + "/*.cpp") + glob.glob(root + "/*.c"))


def _fw_objs(variant):
    jobs = []
    for s in framework_sources():
        if s.endswith(".cpp"):
            jobs.append(_obj(s, "g++", ["-std=gnu++17", "-w", "-fPIC", "-DBACKTRACE_SUPPORT", "-g1", "-I" + FW_INC] + VARIANTS[variant]))
        else:
            jobs.append(_obj(s, "gcc", ["-w", "-fPIC", "-DBACKTRACE_SUPPORT", "-g1", "-I" + FW_INC] + VARIANTS[variant]))
    return jobs


def framework(variant="asan"):
    """Path of libEasyMockFramework.so built in the given variant."""
    with _lock():
        objs = _compile_all(_fw_objs(variant))
        return _link("libEasyMockFramework.so", objs, ["-shared"] + VARIANTS[variant] + ["-lunwind", "-ldw"], "g++")


def harness(name, sources, repo_sources=(), variant="asan", cc="g++", flags=(), libs=()):
    """Builds a harness of /verif together with some sources of /repo."""
    with _lock():
        jobs = []
        base = ["-w", "-DBACKTRACE_SUPPORT", "-DC_IMPLICIT_INCLUDE_DIRECTORIES=\"%s\"" % _implicit_dirs(),
                "-I" + FW_INC, "-I" + GEN_INC, "-I" + os.path.join(VERIF, "harness")] + VARIANTS[variant] + list(flags)
        hk = ""
        for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
            hk += hashlib.sha256(open(h, "rb").read()).hexdigest()
        ccc = "clang" if "clang" in cc else "gcc"
        for s in list(sources) + list(repo_sources):
            if s.endswith(".c"):
                jobs.append(_obj(s, ccc, base, hk))
            else:
                jobs.append(_obj(s, cc, ["-std=gnu++17"] + base, hk))
        objs = _compile_all(jobs)
        return _link(name, objs, VARIANTS[variant] + list(flags) + list(libs), cc)


def obj(name, src, cc, flags):
    """Compiles one file of /verif/harness."""
    with _lock():
        hk = ""
        for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
            hk += hashlib.sha256(open(h, "rb").read()).hexdigest()
        return _compile_all([_obj(src, cc, list(flags), hk)])[0]


def prune(keep=400):
    d = os.path.join(BUILD, "obj")
    try:
        fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.unlink(f)
        b = os.path.join(BUILD, "bin")
        import shutil
        ds = sorted((os.path.join(b, f) for f in os.listdir(b)), key=os.path.getmtime)
        for x in ds[:-30]:
            shutil.rmtree(x, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["plain"]:
        print(generator(v), framework(v), "%.1fs" % (time.time() - t))
