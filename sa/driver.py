"""Builds the extractor, extracts the requested translation units from /repo's current tree, caches by content."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor
from . import prog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
INCDIRS = ["CPPQEDcore", "CPPQEDcore/high", "CPPQEDcore/composites", "CPPQEDcore/structure", "CPPQEDcore/quantumdata", "CPPQEDcore/quantumoperator",
           "CPPQEDcore/quantumtrajectory", "CPPQEDutils", "CPPQEDelements", "CPPQEDelements/frees", "CPPQEDelements/interactions", "CPPQEDelements/utils"]
DEFS = ["-DBOOST_IOSTREAMS_DYN_LINK", "-DBOOST_SERIALIZATION_DYN_LINK", "-DBZ_HAVE_BOOST_SERIALIZATION", "-DCPPQED_HAS_GSL", "-DNDEBUG"]


class Broken(Exception):
    """the analysis could not be carried out (neither pass nor violation)"""


def flags():
    return (["-std=c++20", "-w", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + DEFS +
            ["-I" + os.path.join(REPO, d) for d in INCDIRS] + ["-I" + os.path.join(VERIF, "stubs"), "-isystem", "/usr/include/eigen3",
             "-include", "boost/preprocessor/iteration/iterate.hpp"])


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash():
    h = hashlib.sha256()
    for base in ("CPPQEDcore", "CPPQEDutils", "CPPQEDelements"):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, base))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".cc", ".tcc", ".hpp")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for base in ("stubs", "witness"):
        for dp, dn, fn in sorted(os.walk(os.path.join(VERIF, base))):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(VERIF, "tool", "extract.cc"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def extractor():
    src = os.path.join(VERIF, "tool", "extract.cc")
    with open(src, "rb") as fh:
        key = sha(fh.read())
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "extract-" + key)
    if os.path.exists(out):
        return out
    for f in os.listdir(CACHE):
        if f.startswith("extract-"):
            os.unlink(os.path.join(CACHE, f))
    tmp = out + ".tmp%d" % os.getpid()
    import glob
    lib = sorted(glob.glob("/usr/lib/llvm-18/lib/libclang-cpp.so*") + glob.glob("/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*"))
    if not lib:
        raise Broken("libclang-cpp not found")
    cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp, lib[0], "/usr/lib/llvm-18/lib/libLLVM-18.so", "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("extractor does not build: " + r.stderr[:2000])
    os.replace(tmp, out)
    return out


def tu_path(name):
    p = os.path.join(VERIF, "witness", name)
    if os.path.exists(p):
        return p
    p = os.path.join(REPO, name)
    if os.path.exists(p):
        return p
    raise Broken("translation unit %s vanished" % name)


def extract(names):
    """-> list of (name, json path)"""
    ex = extractor()
    th = tree_hash()
    d = os.path.join(CACHE, "tu-" + th)
    keep = int(os.environ.get("VERIF_CACHE_KEEP", "2"))
    if not os.path.isdir(d):
        olds = sorted((f for f in os.listdir(CACHE) if f.startswith("tu-")), key=lambda f: os.path.getmtime(os.path.join(CACHE, f)))
        for f in olds[:max(0, len(olds) - keep + 1)]:
            shutil.rmtree(os.path.join(CACHE, f), ignore_errors=True)
        os.makedirs(d, exist_ok=True)

    def one(name):
        out = os.path.join(d, name.replace("/", "_") + ".json")
        if os.path.exists(out):
            return name, out, None
        src = tu_path(name)
        tmp = out + ".tmp%d" % os.getpid()
        with open(tmp, "w") as fh:
            r = subprocess.run([ex, src, REPO + "/," + os.path.join(VERIF, "witness") + "/"] + flags(), stdout=fh, stderr=subprocess.PIPE, text=True, cwd="/")
        if os.path.getsize(tmp) < 1000:
            os.unlink(tmp)
            return name, None, r.stderr[:3000]
        if r.returncode != 0:
            # clang went on after errors: what it understood is analysed, but nothing is called violated on that basis
            with open(out + ".err", "w") as fh:
                fh.write(r.stderr[:3000])
        os.replace(tmp, out)
        return name, out, None

    with ThreadPoolExecutor(8) as pool:
        res = list(pool.map(one, names))
    bad = [(n, e) for n, o, e in res if o is None]
    if bad:
        raise Broken("cannot parse %s: %s" % bad[0])
    return [(n, o) for n, o, _ in res]


_progs = {}
ERRORS = {}


def program(names):
    key = tuple(names)
    if key not in _progs:
        L = extract(names)
        for n, o in L:
            if os.path.exists(o + ".err"):
                with open(o + ".err") as fh:
                    ERRORS[n] = fh.read()
        _progs[key] = prog.load(L)
    return _progs[key]
