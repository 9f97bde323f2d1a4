"""Scratch copy of /repo/src, the project's own generators and compile commands,
and the fact extraction over every unit the build compiles."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZMDP_REPO", "/repo")
TOOL_SRC = os.path.join(VERIF, "tool", "extract.cpp")


class Broken(Exception):
    """the analysis itself cannot give an answer (exit status 2)"""


def build_tool():
    h = hashlib.sha256(open(TOOL_SRC, "rb").read()).hexdigest()[:16]
    bd = os.path.join(VERIF, "build")
    os.makedirs(bd, exist_ok=True)
    exe = os.path.join(bd, "extract-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d" % os.getpid()
    flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    libs = ["/usr/lib/llvm-18/lib/libclang-cpp.so.18.1"]
    for c in ("/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
              "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        if os.path.exists(c):
            libs.append(c)
            break
    r = subprocess.run([shutil.which("clang++") or "g++", "-O0", "-fno-rtti"] + flags + [TOOL_SRC, "-o", tmp] + libs,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("cannot build the extractor:\n" + r.stdout[-2000:])
    os.rename(tmp, exe)
    return exe


def _ignore(d, names):
    return [n for n in names if n in ("obj", "lib", "bin", "testTmp") and os.path.isdir(os.path.join(d, n))
            or (n == "include" and os.path.basename(d) == "parsers")]


def _env():
    e = dict(os.environ, LC_ALL="C")
    for k in ("MAKEFLAGS", "MFLAGS", "TEST", "NO_DEPEND", "DEPEND"):
        e.pop(k, None)
    return e


def compile_commands(T):
    """run the generators and return [(dir, source, args)] for every unit built"""
    mk = ["make", "-fMakefile", "CC=gcc -fcommon"]
    src = os.path.join(T, "src")
    r = subprocess.run(mk + ["headerinstall"], cwd=src, env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("headerinstall failed:\n" + r.stdout[-2000:])
    r = subprocess.run(mk + ["-w", "-n", "-B", "DEPEND=1", "libinstall", "bininstall"], cwd=src, env=_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = r.stdout.replace("\\\n", " ")
    dirs, cmds, gens = [src], [], []
    for ln in out.splitlines():
        m = re.match(r"make(?:\[\d+\])?: (Entering|Leaving) directory '(.*)'", ln)
        if m:
            if m.group(1) == "Entering":
                dirs.append(m.group(2))
            else:
                dirs.pop()
            continue
        w = ln.split(None, 1)
        if not w:
            continue
        if w[0] in ("bison", "flex", "yacc", "lex") or ("embedFiles" in ln):
            gens.append((dirs[-1], ln))
        elif w[0] in ("gcc", "g++", "cc", "c++") and " -c " in ln:
            cmds.append((dirs[-1], ln))
    for d, c in gens:
        os.makedirs(os.path.join(d, "include"), exist_ok=True)
        r = subprocess.run(c, shell=True, cwd=d, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Broken("generator failed: %s\n%s" % (c, r.stdout[-1000:]))
    res, seen = [], set()
    for d, c in cmds:
        a = shlex.split(c)
        i = a.index("-c")
        s = a[i + 1]
        full = os.path.normpath(os.path.join(d, s))
        if full in seen:
            continue
        seen.add(full)
        fl, j = [], 1
        while j < len(a):
            if a[j] == "-o":
                j += 2
                continue
            if a[j] == "-c":
                j += 2
                continue
            if a[j] in ("-pipe", "-fcommon") or a[j].startswith("-DCFLAGS") or a[j] == "-Wall":
                j += 1
                continue
            fl.append(a[j])
            j += 1
        fl.append('-DCFLAGS="flags"')
        cxx = a[0] in ("g++", "c++")
        fl += ["-std=gnu++17" if cxx else "-std=gnu17", "-w", "-DGCC_VERSION=130300"]
        res.append((d, full, fl))
    if not any(s.endswith("zmdp.cc") for _, s, _ in res):
        raise Broken("make -n lists no compile command for zmdp.cc (%d units)" % len(res))
    return res


def extract(keep=None):
    """-> (facts: list of json records per unit, units, scratch root)"""
    exe = build_tool()
    T = os.path.realpath(tempfile.mkdtemp(prefix="zmdp-sa-"))
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(T, "src"), symlinks=True, ignore=_ignore)
        units = compile_commands(T)

        def one(ix):
            d, s, fl = units[ix]
            out = os.path.join(T, "facts.%d" % ix)
            r = subprocess.run([exe, T, out, s, "--"] + fl, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Broken("cannot parse %s:\n%s" % (s.replace(T, REPO), "\n".join(l for l in r.stdout.splitlines() if "error:" in l)[:1500] or "rc %d " % r.returncode + r.stdout[-3000:]))
            return out

        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            outs = list(ex.map(one, range(len(units))))
        raw = []
        for (d, s, fl), o in zip(units, outs):
            raw.append((s.replace(T + "/", ""), open(o).read().splitlines()))
        cfgfile = open(os.path.join(T, "src/main/zmdp.config"), errors="replace").read() \
            if os.path.exists(os.path.join(T, "src/main/zmdp.config")) else ""
        return raw, T, cfgfile
    finally:
        shutil.rmtree(T, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    raw, T, _ = extract()
    print(len(raw), "units", sum(len(x) for _, x in raw), "records", sum(len(l) for _, x in raw for l in x) / 1e6, "MB", time.time() - t)
    for s, ls in raw:
        print(s, len(ls), sum(map(len, ls)) // 1000)
