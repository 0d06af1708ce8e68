#!/usr/bin/env python3
"""Builds instrumented copies of awkward from /repo's working tree.

  build.py [variant ...]      variants: asan (default), tsan

Objects are cached under /verif/.build by a hash of (compiler flags, source
text, text of every repository header it reaches through #include "..."), never
by time stamps, so the result always corresponds to the tree as it is now.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
PY = "/opt/vp/venv/bin/python"
PYINC = "/usr/include/python3.12"
EXTSUFFIX = ".cpython-312-x86_64-linux-gnu.so"

COMMON = [
    "-std=c++17", "-fPIC", "-fno-omit-frame-pointer", "-fvisibility=hidden",
    "-fvisibility-inlines-hidden", "-w", "-Wno-error", "-Wno-c++11-narrowing",
    "-DAWKWARD_VERIF_HOOKS",
    "-I" + REPO + "/include", "-I" + REPO + "/rapidjson/include",
    "-I" + REPO + "/dlpack/include", "-I/opt/vp/cmake/include", "-I" + PYINC,
]

# Undefined-behaviour checks that correct code may legitimately trip are left
# out, see DESIGN.md ("Sanitizer configuration").
IGNORE = "-fsanitize-ignorelist=" + os.path.join(VERIF, "vlib", "san-ignore.txt")
UBSAN = ("-fsanitize=alignment,array-bounds,bool,builtin,enum,"
         "integer-divide-by-zero,null,object-size,"
         "return,returns-nonnull-attribute,"
         "unreachable,vla-bound")

VARIANTS = {
    "asan": {
        "lib": ["-O1", "-gline-tables-only", "-fsanitize=address", UBSAN,
                "-fsanitize-recover=undefined", IGNORE],
        "python": ["-O0", "-gline-tables-only", "-fsanitize=address"],
        "link": ["-shared", "-shared-libasan", "-fsanitize=address",
                 "-fsanitize=undefined"],
    },
    "tsan": {
        "lib": ["-O1", "-gline-tables-only", "-fsanitize=thread"],
        "python": None,
        "link": ["-shared", "-fsanitize=thread", "-shared-libsan"],
    },
    "plain": {
        "lib": ["-O1"],
        "python": ["-O0"],
        "link": ["-shared"],
    },
    "cov": {
        "lib": ["-O1", "-gline-tables-only", "-fprofile-instr-generate", "-fcoverage-mapping"],
        "python": ["-O0"],
        "link": ["-shared", "-fprofile-instr-generate"],
    },
}

INCLUDE = re.compile(r'^\s*#\s*include\s+["<](awkward/[^">]+)[">]', re.M)
_text, _closure = {}, {}


class BuildError(Exception):
    pass


def text(path):
    if path not in _text:
        try:
            with open(path, "rb") as f:
                _text[path] = f.read()
        except OSError:
            _text[path] = b""
    return _text[path]


def includes(path):
    out = []
    for m in INCLUDE.findall(text(path).decode("utf-8", "replace")):
        p = os.path.join(REPO, "include", m)
        if os.path.exists(p):
            out.append(p)
    # non-"awkward/..." quoted includes, relative to the file
    for m in re.findall(r'^\s*#\s*include\s+"([^"]+)"', text(path).decode("utf-8", "replace"), re.M):
        p = os.path.join(os.path.dirname(path), m)
        if os.path.exists(p):
            out.append(os.path.normpath(p))
    return out


def closure(path):
    if path not in _closure:
        seen, todo = {path}, [path]
        while todo:
            for i in includes(todo.pop()):
                if i not in seen:
                    seen.add(i)
                    todo.append(i)
        _closure[path] = sorted(seen)
    return _closure[path]


def key(path, flags):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    h.update(text(os.path.join(VERIF, "vlib", "san-ignore.txt")))
    for p in closure(path):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(hashlib.sha256(text(p)).digest())
    return h.hexdigest()[:32]


def compile_one(src, flags, obj, clang="clang++"):
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([clang] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        # A file clang refuses but g++ (the project's compiler here) takes is
        # still linked in, uninstrumented.
        plain = [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize", "-Wno-c++11", "-gline", "-fcoverage", "-fprofile"))]
        r2 = subprocess.run(["g++"] + plain + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)
        if r2.returncode != 0:
            raise BuildError("cannot compile %s:\n%s\n%s" % (src, r.stdout[-4000:], r2.stdout[-4000:]))
    os.rename(tmp, obj)


def version_info():
    return text(os.path.join(REPO, "VERSION_INFO")).decode().strip()


def jobs_for(variant):
    v = VARIANTS[variant]
    ver = ['-DVERSION_INFO="%s"' % version_info()]
    out = []
    for s in sorted(glob.glob(REPO + "/src/cpu-kernels/*.cpp")):
        out.append(("kernels", s, COMMON + v["lib"] + ver))
    for s in sorted(glob.glob(REPO + "/src/libawkward/**/*.cpp", recursive=True)):
        out.append(("lib", s, COMMON + v["lib"] + ver + ["-DLIBAWKWARD_EXPORT_SYMBOL=EXPORT_SYMBOL"]))
    if v["python"] is not None:
        for s in sorted(glob.glob(REPO + "/src/python/*.cpp")):
            out.append(("python", s, COMMON + v["python"] + ver))
    return out


def build(variant="asan", quiet=False, jobs=None):
    """Returns (package parent directory, {info})."""
    t0 = time.time()
    _text.clear()
    _closure.clear()
    objdir = os.path.join(BUILD, variant, "obj")
    os.makedirs(objdir, exist_ok=True)
    lock = open(os.path.join(BUILD, variant, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        groups, todo, used = {"kernels": [], "lib": [], "python": []}, [], set()
        for group, src, flags in jobs_for(variant):
            obj = os.path.join(objdir, os.path.basename(src)[:-4] + "-" + key(src, flags) + ".o")
            groups[group].append(obj)
            used.add(obj)
            if not os.path.exists(obj):
                todo.append((src, flags, obj))
        # biggest first, python bindings before everything
        todo.sort(key=lambda j: ("/src/python/" not in j[0], -os.path.getsize(j[0])))
        with concurrent.futures.ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
            for f in [ex.submit(compile_one, *j) for j in todo]:
                f.result()
        v = VARIANTS[variant]
        pkg = os.path.join(BUILD, variant, "pkg")
        ak = os.path.join(pkg, "awkward")
        targets = {"libawkward-cpu-kernels.so": groups["kernels"],
                   "libawkward.so": groups["kernels"] + groups["lib"]}
        if v["python"] is not None:
            targets["_ext" + EXTSUFFIX] = groups["kernels"] + groups["lib"] + groups["python"]
        libdir = os.path.join(BUILD, variant, "lib")
        os.makedirs(libdir, exist_ok=True)

        def link(name, objs):
            stamp = os.path.join(libdir, name + ".stamp")
            want = hashlib.sha256("\n".join(objs + v["link"]).encode()).hexdigest()
            path = os.path.join(libdir, name)
            if os.path.exists(path) and os.path.exists(stamp) and open(stamp).read() == want:
                return
            tmp = path + ".tmp"
            rsp = path + ".rsp"
            with open(rsp, "w") as f:
                f.write("\n".join(objs))
            r = subprocess.run(["clang++"] + v["link"] + ["@" + rsp, "-ldl", "-o", tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("cannot link %s:\n%s" % (name, r.stdout[-4000:]))
            os.rename(tmp, path)
            with open(stamp, "w") as f:
                f.write(want)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(link, n, o) for n, o in targets.items()]:
                f.result()
        # the Python package: links to the tree's .py files next to the libraries
        shutil.rmtree(pkg, ignore_errors=True)
        for root, dirs, files in os.walk(REPO + "/src/awkward"):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            rel = os.path.relpath(root, REPO + "/src/awkward")
            os.makedirs(os.path.join(ak, rel), exist_ok=True)
            for f in files:
                if not f.endswith((".so", ".pyc")):
                    os.symlink(os.path.join(root, f), os.path.normpath(os.path.join(ak, rel, f)))
        for n in targets:
            os.symlink(os.path.join(libdir, n), os.path.join(ak, n))
        egg = os.path.join(pkg, "awkward.egg-info")
        os.makedirs(egg)
        with open(os.path.join(egg, "PKG-INFO"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: awkward\nVersion: %s\n" % version_info())
        with open(os.path.join(egg, "entry_points.txt"), "w") as f:
            f.write("[numba_extensions]\ninit = awkward._connect._numba:register\n")
        if variant == "tsan":
            build_harnesses(v, libdir)
        # drop objects of other trees so that the cache cannot grow without bound
        stale = [p for p in glob.glob(objdir + "/*.o") if p not in used]
        if len(stale) > 400:
            for p in sorted(stale, key=os.path.getmtime)[:-400]:
                os.remove(p)
        return pkg, {"compiled": len(todo), "cached": len(used) - len(todo), "build_s": round(time.time() - t0, 1)}
    finally:
        lock.close()


def build_harnesses(v, libdir):
    """C++ drivers of the library, next to it."""
    for src in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        flags = [f for f in COMMON + v["lib"]]
        exe = os.path.join(libdir, os.path.basename(src)[:-4])
        want = key(src, flags) + hashlib.sha256(open(src, "rb").read()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == want:
            continue
        rt = os.path.dirname(subprocess.run(["clang++", "-print-file-name=libclang_rt.tsan-x86_64.so"],
                                            stdout=subprocess.PIPE, text=True).stdout.strip())
        r = subprocess.run(["clang++"] + flags + [src, "-o", exe + ".tmp", os.path.join(libdir, "libawkward.so"), "-fsanitize=thread",
                            "-shared-libsan", "-Wl,-rpath," + libdir, "-Wl,-rpath," + rt, "-lpthread", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cannot build %s:\n%s" % (src, r.stdout[-4000:]))
        os.rename(exe + ".tmp", exe)
        with open(exe + ".stamp", "w") as f:
            f.write(want)


def env_for(variant):
    """Environment in which the venv's Python imports that variant."""
    pkg = os.path.join(BUILD, variant, "pkg")
    env = {
        "HOME": "/root", "LANG": "C.UTF-8",
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "PYTHONPATH": pkg + ":" + VERIF, "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0", "JAX_PLATFORMS": "cpu", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
        "PYTHONFAULTHANDLER": "0",
    }
    if variant == "asan":
        rt = subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"],
                            stdout=subprocess.PIPE, text=True).stdout.strip()
        cxx = subprocess.run(["clang++", "-print-file-name=libstdc++.so.6"],
                             stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_PRELOAD"] = rt + ":" + cxx
        env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:halt_on_error=1:"
                               "allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:"
                               "quarantine_size_mb=64:max_allocation_size_mb=4096:symbolize=1:"
                               "detect_container_overflow=0:max_free_fill_size=4096:free_fill_byte=221")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
        env["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer" if os.path.exists("/usr/bin/llvm-symbolizer") else "/usr/lib/llvm-18/bin/llvm-symbolizer"
    for k in ("VERIF_SEED", "VERIF_TIER"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


if __name__ == "__main__":
    for var in sys.argv[1:] or ["asan"]:
        try:
            print(var, build(var))
        except BuildError as e:
            print("BUILD-ERROR", e)
            sys.exit(2)
