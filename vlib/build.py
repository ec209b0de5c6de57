"""Builds /repo's current working tree (plus harness files of /verif) with sanitizers.

Content-addressed object cache under /verif/.build/cache: the key of an object is the hash of the
compiler command, the source and every header it read last time, so a stale object can never be
used; without a cache everything is simply compiled.  Nothing is written into /repo.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
CACHE = os.path.join(BUILD, "cache")

COMMON = ["-std=c++17", "-DVERIFYPN_VERSION=\"4.4.2\"", "-DVERIFYPN_VERIF_HOOKS", "-w", "-fPIC"]
FLAVOURS = {
    # address + undefined behaviour, asserts of the code on
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=null", "-fno-sanitize-recover=undefined"],
    # thread sanitizer, with the project's multicore query simplification on
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVERIFYPN_MC_Simplification"],
    # fast, asserts on
    "plain": ["-O1", "-g0"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": []}
INCLUDES = ["-I", REPO + "/include", "-I", VERIF + "/shim", "-isystem", "/usr/include/rapidxml"]
CXX = "g++"

_hash_memo = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(path):
    with _lock:
        if path in _hash_memo:
            return _hash_memo[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = None
    with _lock:
        _hash_memo[path] = h
    return h


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def generate(gen):
    """bison and flex into our own directory (the repo's build writes them into src/, git-ignored)."""
    os.makedirs(gen, exist_ok=True)
    y = REPO + "/src/PetriEngine/PQL/PQLQueryParser.y"
    l = REPO + "/src/PetriEngine/PQL/PQLQueryTokens.l"
    stamp = sha(fhash(y) or "", fhash(l) or "")
    sp = gen + "/stamp"
    if os.path.exists(sp) and open(sp).read() == stamp:
        return
    for cmd in (["bison", "--defines=" + gen + "/PQLQueryParser.parser.hpp", "-o", gen + "/PQLQueryParser.parser.cpp", y],
                ["flex", "-o", gen + "/PQLQueryTokens.lexer.cpp", l]):
        r = run(cmd)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stderr.decode())
    with open(sp, "w") as f:
        f.write(stamp)


def compile_one(src, flavour, extra=()):
    """Returns the path of the object for src."""
    gen = BUILD + "/gen"
    flags = COMMON + FLAVOURS[flavour] + list(extra) + INCLUDES + ["-I", gen]
    if src.startswith(REPO + "/src/"):
        # the repo's own convention: CMAKE_INCLUDE_CURRENT_DIR
        flags += ["-I", os.path.dirname(src)]
    base = sha(CXX, json.dumps(flags), src)
    src_h = fhash(src)
    man = os.path.join(CACHE, base + ".dep")
    # direct lookup: a manifest holds dependency lists seen earlier for this source
    deps_known = []
    if os.path.exists(man):
        try:
            deps_known = json.load(open(man))
        except ValueError:
            deps_known = []
    for deps in deps_known:
        hs = [fhash(d) for d in deps]
        if None in hs:
            continue
        key = sha(base, src_h, json.dumps(list(zip(deps, hs))))
        obj = os.path.join(CACHE, key + ".o")
        if os.path.exists(obj):
            return obj
    tmp = os.path.join(CACHE, "tmp-%d-%d-%s" % (os.getpid(), threading.get_ident(), base[:16]))
    cmd = [CXX] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = run(cmd)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr.decode(errors="replace")[-6000:]))
    txt = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted({os.path.normpath(d) for d in txt.split(":", 1)[1].split()})
    os.unlink(tmp + ".d")
    hs = [fhash(d) for d in deps]
    key = sha(base, src_h, json.dumps(list(zip(deps, hs))))
    obj = os.path.join(CACHE, key + ".o")
    os.replace(tmp + ".o", obj)
    if deps not in deps_known:
        deps_known = [deps] + deps_known[:20]
        with open(tmp + ".m", "w") as f:
            json.dump(deps_known, f)
        os.replace(tmp + ".m", man)
    return obj


def repo_sources():
    out = []
    for d, _, fs in sorted(os.walk(REPO + "/src")):
        for f in sorted(fs):
            if f.endswith(".cpp") and ".parser." not in f and ".lexer." not in f:
                out.append(os.path.join(d, f))
    return out + [BUILD + "/gen/PQLQueryParser.parser.cpp", BUILD + "/gen/PQLQueryTokens.lexer.cpp"]


def build(name, flavour, harness, with_main=False, jobs=None, verbose=True):
    """Links harness sources (+ the whole repo) into .build/bin/<name>.  Returns the path."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    generate(BUILD + "/gen")
    srcs = repo_sources()
    if not with_main:
        srcs = [s for s in srcs if s != REPO + "/src/main.cpp"]
    # biggest first: better packing
    srcs.sort(key=lambda s: -os.path.getsize(s))
    todo = [os.path.join(VERIF, h) for h in harness] + srcs
    with cf.ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flavour), todo))
    key = sha(flavour, json.dumps(objs))
    exe = os.path.join(BUILD, "bin", name + "-" + flavour)
    kp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kp) and open(kp).read() == key):
        tmp = exe + ".tmp%d" % os.getpid()
        r = run([CXX, "-fuse-ld=gold" if False else "-g0", "-o", tmp] + objs + LINK[flavour] + ["-lglpk", "-lpthread"])
        if r.returncode:
            raise BuildError("link\n" + r.stderr.decode(errors="replace")[-6000:])
        os.replace(tmp, exe)
        with open(kp, "w") as f:
            f.write(key)
    if verbose:
        print("built %s (%d objects) in %.1fs" % (os.path.basename(exe), len(objs), time.time() - t0), flush=True)
    return exe


def prune(max_bytes=3 << 30):
    """Keeps the cache bounded."""
    try:
        es = [(e.stat().st_mtime, e.stat().st_size, e.path) for e in os.scandir(CACHE)]
    except OSError:
        return
    tot = sum(e[1] for e in es)
    for m, s, p in sorted(es):
        if tot <= max_bytes:
            break
        os.unlink(p)
        tot -= s


if __name__ == "__main__":
    try:
        for fl in sys.argv[1:] or ["asan"]:
            build("verifypn", fl, [], with_main=True)
    except BuildError as e:
        print(e)
        sys.exit(2)
