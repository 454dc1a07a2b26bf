"""Get the resolved program of dosisod/skull: whole-program LLVM IR as Python data.

/repo's current working tree (the skull/ directory) is copied to a scratch
directory, shim.h is generated there the way the Makefile does it, every .c file is
compiled by clang at -O0 -g to IR (nothing of it is ever run), promoted to SSA
with mem2reg, linked into one module and dumped to JSON by tools/irdump.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKULL_SRC", "/repo")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/bin/llvm-link-18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (not a verdict on the property)."""


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if p.returncode != 0:
        raise AnalysisBroken("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode()[-2000:]))
    return p.stdout


def irdump_bin():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(VERIF, "build", "irdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = run(["/usr/bin/llvm-config-18", "--cppflags"]).decode().split()
    tmp = out + ".%d.tmp" % os.getpid()
    run(["g++", "-O1", "-std=c++17", "-fno-rtti"] + flags +
        [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, out)
    return out


def llvm_cflags():
    for c in ("llvm-config-19", "/usr/lib/llvm-19/bin/llvm-config", "llvm-config-18"):
        p = shutil.which(c)
        if p:
            return [f for f in run([p, "--cflags"]).decode().split() if f.startswith("-I")]
    raise AnalysisBroken("no llvm-config")


def sources():
    root = os.path.join(REPO, "skull")
    return sorted(glob.glob(root + "/**/*", recursive=True))


def tree_hash():
    h = hashlib.sha256()
    for f in sources():
        if os.path.isfile(f) and not f.endswith("/shim.h"):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
    h.update(open(os.path.join(VERIF, "tools", "irdump.cpp"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:24]


def extract():
    """-> parsed JSON of the whole program"""
    cache = os.path.join(VERIF, "build", "ir-%s.json" % tree_hash())
    if os.path.exists(cache):
        try:
            return json.load(open(cache))
        except ValueError:
            pass
    dump = irdump_bin()
    inc = llvm_cflags()
    scratch = tempfile.mkdtemp(prefix="skull-ir-")
    try:
        shutil.copytree(os.path.join(REPO, "skull"), os.path.join(scratch, "skull"))
        shim = open(os.path.join(scratch, "skull/shim.ll"), "rb").read()
        with open(os.path.join(scratch, "skull/shim.h"), "w") as f:
            f.write("char LL_SHIM[] = {\n%s\n};\nunsigned int LL_SHIM_len = %d;\n" % (
                ", ".join("0x%02x" % b for b in shim), len(shim)))
        cs = sorted(glob.glob(scratch + "/skull/**/*.c", recursive=True))
        if len(cs) < 20:
            raise AnalysisBroken("only %d C files under skull/" % len(cs))

        def one(c):
            rel = os.path.relpath(c, scratch)
            bc = c + ".bc"
            run([CLANG, "-std=c18", "-I.", "-D_GNU_SOURCE", "-D__NO_CTYPE", '-DSKULL_VERSION="v"', "-w",
                 "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fPIC", "-fno-discard-value-names",
                 "-c", "-emit-llvm", rel, "-o", bc] + inc, cwd=scratch)
            return bc
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, cs))
        run([LINK, "-o", "all.bc"] + bcs, cwd=scratch)
        run([OPT, "-passes=mem2reg", "all.bc", "-o", "ssa.bc"], cwd=scratch)
        out = run([dump, "ssa.bc"], cwd=scratch)
        data = json.loads(out)
        data["units"] = [os.path.relpath(c, scratch) for c in cs]
        data["shim_ll"] = shim.decode("utf-8", "replace")
        tmp = cache + ".%d.tmp" % os.getpid()
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        for old in glob.glob(os.path.join(VERIF, "build", "ir-*.json")):
            try:
                if os.path.getmtime(old) < __import__("time").time() - 3600:
                    os.unlink(old)
            except OSError:
                pass
        with open(tmp, "w") as f:
            json.dump(data, f)
        os.replace(tmp, cache)
        return data
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    d = extract()
    print(len(d["units"]), "units", len(d["functions"]), "functions", len(d["structs"]), "structs")
