"""Front end: turn /repo's current working tree into a resolved program model.

Nothing here runs code of the system under analysis: cmake is configured in a
scratch directory (its generators produce the parser sources), and a libclang
based extractor dumps every translation unit's type-checked AST and CFG.
"""
import fcntl
import concurrent.futures as cf
import hashlib
import json
import os
import pickle
import shlex
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "build"))


class Broken(Exception):
    """the analysis cannot give an answer (exit status 2)"""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise Broken("command failed: %s\n%s" % (
            cmd if isinstance(cmd, str) else " ".join(cmd),
            p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout.decode("utf8", "replace")


def sha(data):
    return hashlib.sha256(data).hexdigest()[:16]


def build_tool():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = sha(open(src, "rb").read())
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "extract-" + h)
    if os.path.exists(out):
        return out
    inc = run(["llvm-config-18", "--cppflags"]).split()
    libdir = run(["llvm-config-18", "--libdir"]).strip()
    cands = [
        os.path.join(libdir, "libclang-cpp.so"),
        os.path.join(libdir, "libclang-cpp.so.18.1"),
        "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1",
        "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18",
    ]
    lib = next((c for c in cands if os.path.exists(c)), None)
    if lib is None:
        raise Broken("no libclang-cpp for LLVM 18")
    tmp = out + ".tmp%d" % os.getpid()
    run(["/usr/bin/clang++-18", "-O1", "-std=c++17", "-fno-exceptions", "-fno-rtti"]
        + inc + [src, "-o", tmp, lib, "-L" + libdir, "-lLLVM-18"])
    os.rename(tmp, out)
    return out


SKIP_DIRS = {".git", "_build", "build", "__pycache__"}


def tree_files():
    res = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            res.append(p)
    return res


def is_gen_input(p):
    rel = os.path.relpath(p, REPO)
    return (
        os.path.basename(p) == "CMakeLists.txt"
        or p.endswith((".cmake", ".in", ".re2c", ".re", ".py", ".yy", ".conf"))
        or rel.startswith("tools/")
        or rel.startswith("libdstr/")
    )


def digest(files):
    h = hashlib.sha256()
    for p in files:
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()[:16]


def prepare_gen(files):
    g = digest([p for p in files if is_gen_input(p)])
    names = "\n".join(os.path.relpath(p, REPO) for p in files if p.endswith((".c", ".h")))
    g = sha((g + names + REPO).encode())
    bd = os.path.join(WORK, "gen-" + g)
    stamp = os.path.join(bd, "verif.stamp")
    if os.path.exists(stamp):
        return bd
    for old in os.listdir(WORK):
        if old.startswith("gen-"):
            shutil.rmtree(os.path.join(WORK, old), ignore_errors=True)
    env = dict(os.environ, CC="gcc", PYTHONDONTWRITEBYTECODE="1", LANG=os.environ.get("LANG", "C.UTF-8"))
    run(["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=debug",
         "-DBUILD_TESTS=no", "-DBUILD_SERVER_CODE=yes",
         "-DPYTHON_3_CMD=/usr/bin/python3", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], env=env)
    tg = run(["ninja", "-C", bd, "-t", "targets", "all"], env=env)
    want = []
    for ln in tg.splitlines():
        if not ln.rstrip().endswith("CUSTOM_COMMAND"):
            continue
        t = ln.rsplit(":", 1)[0]
        if os.path.isabs(t) or t.endswith(".stamp"):
            continue
        if "/generated/" in t or t.endswith((".h", ".c")):
            want.append(t)
    # headers expanded by the in-tree template tool would drag in every library
    # through target ordering: build the others, then run their command alone
    late = [t for t in want if t.endswith("print_help.h")]
    run(["ninja", "-C", bd] + [t for t in want if t not in late], env=env)
    for t in late:
        cmds = run(["ninja", "-C", bd, "-t", "commands", t], env=env).splitlines()
        mine = [c for c in cmds if os.path.basename(t) in c]
        if len(mine) == 1:
            p = subprocess.run(mine[0], shell=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode == 0 and os.path.exists(os.path.join(bd, t)):
                continue
        run(["ninja", "-C", bd, t], env=env)
    open(stamp, "w").write("ok\n")
    return bd


def compdb(bd):
    d = json.load(open(os.path.join(bd, "compile_commands.json")))
    seen = {}
    for x in d:
        f = os.path.normpath(os.path.join(x["directory"], x["file"]))
        rel = os.path.relpath(f, REPO)
        if rel.startswith("test/") or "/test_" in rel:
            continue
        if f in seen:
            continue
        seen[f] = x
    return seen


def extract_one(tool, resdir, bd, f, x, outdir):
    args = shlex.split(x["command"]) if "command" in x else list(x["arguments"])
    flags = []
    skip = False
    for a in args[1:]:
        if skip:
            skip = False
            continue
        if a in ("-o", "-MF", "-MT", "-MQ"):
            skip = True
            continue
        if a in ("-c", "-MD", "-MMD", "-Werror") or a.startswith("-W") or os.path.normpath(
                os.path.join(x["directory"], a)) == f:
            continue
        flags.append(a)
    out = os.path.join(outdir, sha(f.encode()) + ".json")
    cmd = [tool, out, REPO, bd, x["directory"], f, "--"] + flags + [
        "-Wno-everything", "-resource-dir", resdir, "-fno-builtin-memcpy"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(out):
        raise Broken("extractor failed on %s:\n%s" % (f, p.stdout.decode("utf8", "replace")[-3000:]))
    return f, out


def build_model(verbose=False):
    files = tree_files()
    src = [p for p in files if p.endswith((".c", ".h")) or is_gen_input(p)]
    me = sha(open(os.path.abspath(__file__), "rb").read()
             + open(os.path.join(VERIF, "checks", "model.py"), "rb").read()
             + open(os.path.join(VERIF, "tool", "extract.cpp"), "rb").read())
    key = sha((digest(src) + me + REPO).encode())
    cache = os.path.join(WORK, "model-%s.pickle" % key)
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, "rb"))
        except Exception:
            pass
    os.makedirs(WORK, exist_ok=True)
    # checks started side by side build the model once
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(cache):
            try:
                return pickle.load(open(cache, "rb"))
            except Exception:
                pass
        return extract_model(files, cache)


def extract_model(files, cache):
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        ft = ex.submit(build_tool)
        fg = ex.submit(prepare_gen, files)
        tool, bd = ft.result(), fg.result()
    db = compdb(bd)
    resdir = run(["/usr/bin/clang-18", "-print-resource-dir"]).strip()
    outdir = os.path.join(WORK, "tu-%d" % os.getpid())
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    try:
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            outs = list(ex.map(lambda kv: extract_one(tool, resdir, bd, kv[0], kv[1], outdir), db.items()))
        import model
        m = model.load([o for _, o in sorted(outs)])
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    for old in os.listdir(WORK):
        if old.startswith("model-"):
            p = os.path.join(WORK, old)
            try:
                os.unlink(p)
            except OSError:
                pass
    sys.setrecursionlimit(100000)
    tmp = cache + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(m, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(tmp, cache)
    return m
