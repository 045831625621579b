#!/usr/bin/env python3
"""Builds the simulator with the rcutils sources of /repo's working tree. Offline; writes only under /verif/build."""
import os, re, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CC, CXX = "clang", "clang++"


def repo_sources():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"\nset\(rcutils_sources\n([^()]*)\)", t)
    if not m:
        raise SystemExit("no set(rcutils_sources ...) in CMakeLists.txt")
    return [os.path.join(REPO, s.replace("${time_impl_c}", "src/time_unix.c")) for s in m.group(1).split()]


def build(quiet=True):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = os.path.join(OUT, "include", "rcutils")
    os.makedirs(inc, exist_ok=True)
    hdr = os.path.join(inc, "logging_macros.h")
    sim = os.path.join(VERIF, "sim")
    n = []
    n.append("ninja_required_version = 1.5\nbuilddir = %s\n" % OUT)
    san = ("-fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores "
           "-fno-omit-frame-pointer -fno-optimize-sibling-calls -fno-sanitize-address-globals-dead-stripping -fno-data-sections")
    defs = "-D_GNU_SOURCE -DRCUTILS_ENABLE_FAULT_INJECTION -U_FORTIFY_SOURCE"
    incs = "-I%s/include -I%s/include -I%s" % (REPO, OUT, sim)
    n.append("rule macros\n command = cd %s && python3 -B -c \"import em; em.invoke(['-o', '$out.tmp', '-D', "
             "'rcutils_module_path=\\\"%s\\\"', '$in'])\" && (cmp -s $out.tmp $out || mv $out.tmp $out)\n restat = 1\n" % (OUT, REPO))
    n.append("rule repocc\n command = %s -std=gnu11 -g -O1 -fno-pic -fno-builtin %s %s -DRCUTILS_BUILDING_DLL -I%s/shim %s -w -MMD -MF $out.d "
             "-c $in -o $out.raw && objcopy --redefine-syms=%s/syms.txt --set-section-flags .bss=alloc,load,contents,data "
             "--rename-section .data=repo_data --rename-section .bss=repo_bss $out.raw $out && sed -i 's#^$out.raw:#$out:#' $out.d\n depfile = $out.d\n deps = gcc\n"
             % (CC, san, defs, sim, incs, OUT))
    n.append("rule usercc\n command = %s -std=gnu11 -g -O1 -fno-pic -fno-builtin %s %s %s -w -MMD -MF $out.d "
             "-c $in -o $out.raw && objcopy --redefine-syms=%s/syms.txt --set-section-flags .bss=alloc,load,contents,data "
             "--rename-section .data=repo_data --rename-section .bss=repo_bss $out.raw $out && sed -i 's#^$out.raw:#$out:#' $out.d\n depfile = $out.d\n deps = gcc\n"
             % (CC, san, defs, incs, OUT))
    n.append("rule usercxx\n command = %s -std=c++17 -g -O1 -fno-pic -fno-builtin -fno-exceptions %s %s %s -w -MMD -MF $out.d "
             "-c $in -o $out.raw && objcopy --redefine-syms=%s/syms.txt --set-section-flags .bss=alloc,load,contents,data "
             "--rename-section .data=repo_data --rename-section .bss=repo_bss $out.raw $out && sed -i 's#^$out.raw:#$out:#' $out.d\n depfile = $out.d\n deps = gcc\n"
             % (CXX, san, defs, incs, OUT))
    n.append("rule simcxx\n command = %s -std=c++17 -g -O1 -fno-pic %s %s -Wall -Wno-unused-variable -MMD -MF $out.d -c $in -o $out\n"
             " depfile = $out.d\n deps = gcc\n" % (CXX, defs, incs))
    n.append("rule py\n command = python3 -B $in $out\n restat = 1\n")
    n.append("rule syms\n command = nm --defined-only $in | awk '$$3 ~ /^sim_/ {n=$$3; sub(/^sim_/, \"\", n); print n, $$3}' | sort > $out\n")
    n.append("rule link\n command = %s -fsanitize=address -no-pie -rdynamic -o $out $in -lpthread -ldl -lm\n" % CXX)
    n.append("build %s: macros %s/resource/logging_macros.h.em | %s/rcutils/logging.py %s/rcutils/__init__.py\n" % (hdr, REPO, REPO, REPO))
    objs = []
    wl = sorted(f for f in os.listdir(sim) if f.endswith(".cpp"))
    for f in wl:
        o = os.path.join(OUT, "o", f[:-4] + ".o")
        n.append("build %s: simcxx %s || %s\n" % (o, os.path.join(sim, f), hdr))
        objs.append(o)
    n.append("build %s/syms.txt: syms %s/o/seams.o\n" % (OUT, OUT))
    for s in repo_sources():
        o = os.path.join(OUT, "r", os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
        n.append("build %s: repocc %s | %s/syms.txt || %s\n" % (o, s, OUT, hdr))
        objs.append(o)
    for f in sorted(os.listdir(sim)):
        if f.endswith((".c", ".cc")):
            o = os.path.join(OUT, "u", os.path.splitext(f)[0] + ".o")
            n.append("build %s: %s %s | %s/syms.txt || %s\n" % (o, "usercc" if f.endswith(".c") else "usercxx", os.path.join(sim, f), OUT, hdr))
            objs.append(o)
    n.append("build %s/sim: link %s\n" % (OUT, " ".join(objs)))
    n.append("default %s/sim\n" % OUT)
    nf = os.path.join(OUT, "build.ninja")
    txt = "\n".join(n)
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    for d in "oru":
        os.makedirs(os.path.join(OUT, d), exist_ok=True)
    p = subprocess.run(["ninja", "-C", OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise SystemExit(3)
    if not quiet:
        sys.stdout.write(p.stdout[-2000:])
    return os.path.join(OUT, "sim")


if __name__ == "__main__":
    print(build(quiet=False))
