#!/usr/bin/env python3
"""Builds simulator runners from /repo's working tree.

build.build(["x86_64:asan", ...]) returns {target: path of the runner}.

For each personality the library's own CMake project is configured as if for
that processor and compiled by the host compiler; the archive is joined into
one object, every undefined symbol S for which the simulator defines sim_S is
redirected there, and the writable data is collected into named sections.
Build directories are keyed by the content of the sources.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

# personality -> (processor number, operating system number, CMake system name, CMake processor)
ARCHES = {
    "x86_64": (1, 0, "Linux", "x86_64"),
    "aarch64": (2, 0, "Linux", "aarch64"),
    "armv7l": (3, 0, "Linux", "armv7l"),
    "riscv64": (4, 0, "Linux", "riscv64"),
    "x86_64-freebsd": (1, 1, "FreeBSD", "x86_64"),
    "x86_64-macos": (1, 2, "Darwin", "x86_64"),
    "arm64-macos": (2, 2, "Darwin", "arm64"),
    "arm64-ios": (2, 2, "iOS", "arm64"),
    "x86_64-windows": (1, 3, "Windows", "AMD64"),
    "arm64-windows": (2, 3, "Windows", "ARM64"),
    "wasm": (5, 4, "Emscripten", "wasm"),
    "aarch64-android": (2, 5, "Android", "aarch64"),
    "armv7l-android": (3, 5, "Android", "armv7-a"),
    "x86_64-android": (1, 5, "Android", "x86_64"),
}
# not a system the library's CMake project knows: the sources its Bazel project names
EMSCRIPTEN_SRCS = ["src/api.c", "src/cache.c", "src/init.c", "src/log.c", "src/emscripten/init.c"]
CORE = ["core", "memory", "env", "osenv", "winenv", "machine", "hosts", "oracle", "props", "otheros", "logging", "tools", "mock", "main"]
WARN = ["-Wall", "-Wextra"]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def repo_files():
    out = [os.path.join(REPO, "CMakeLists.txt")]
    for d in ("src", "include", "deps/clog", "cmake", "tools"):
        for base, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(base, f) for f in files if not f.endswith((".o", ".a"))]
    return out


def sim_files():
    return [os.path.join(base, f) for base, _, files in os.walk(SIM) for f in files if f.endswith((".cpp", ".h", ".c", ".py", ".inc"))]


def make_isa(dst):
    text = open(REPO + "/include/cpuinfo.h").read()
    names = re.findall(r"^static inline (?:bool|uint32_t)\s+(cpuinfo_(?:has|get)_\w+)\s*\(void\)", text, re.M)
    seen = []
    for n in names:
        if n not in seen:
            seen.append(n)
    with open(dst, "w") as f:
        for n in seen:
            f.write("ISA(%s)\n" % n)


def make_names(d):
    text = open(REPO + "/include/cpuinfo.h").read()
    for kind in ("vendor", "uarch"):
        body = re.search(r"enum cpuinfo_%s \{(.*?)\};" % kind, text, re.S).group(1)
        names = re.findall(r"^\s*cpuinfo_%s_(\w+)\s*[=,]" % kind, body, re.M)
        with open("%s/%ss.inc" % (d, kind), "w") as f:
            f.write("".join("%s(%s)\n" % (kind.upper(), n) for n in names))


def tools_for(arch):
    """the command-line tools of a personality"""
    i = ARCHES[arch][0]
    names = ["cpu-info", "isa-info", "cache-info", "cpuinfo-dump"]
    return names + {1: ["cpuid-dump"], 2: ["auxv-dump"], 3: ["auxv-dump"]}.get(i, [])


def cmake_args(command, first):
    """files that a command of the library's CMake project names after its first argument"""
    text = re.sub(r"#.*", "", open(REPO + "/CMakeLists.txt").read())
    out = []
    for body in re.findall(r"\b%s\s*\(\s*%s\s([^()$]*)\)" % (command, first), text, re.I):
        out += [f for f in body.split() if f.endswith(".c") and os.path.exists("%s/%s" % (REPO, f))]
    return out


def compile_core(d):
    """The simulator itself: compiled once, linked into every runner."""
    objs = []
    jobs = []
    for n in CORE + ["tsan_rt"]:
        o = "%s/%s.o" % (d, n)
        objs.append(o)
        jobs.append(["g++", "-std=c++17", "-O2", "-g"] + WARN + ["-c", "%s/%s.cpp" % (SIM, n), "-o", o])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    defs = set()
    for o in objs:
        for line in run(["nm", "--defined-only", o]).splitlines():
            f = line.split()
            if len(f) == 3 and f[1] == "T" and f[2].startswith("sim_"):
                defs.add(f[2][4:])
    with open(d + "/seams.json", "w") as f:
        json.dump(sorted(defs), f)


def variant_flags(variant):
    base = ["-O1", "-g", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector",
            "-fsanitize-coverage=trace-pc"]
    if variant in ("asan", "log", "tools", "mock"):
        return base + ["-fsanitize=address,bounds", "-fsanitize-undefined-trap-on-error"]
    if variant == "race":
        return base + ["-fsanitize=thread"]
    raise BuildError("variant " + variant)


def compile_target(core, d, arch, variant):
    i, system, name, processor = ARCHES[arch]
    os.makedirs(d)
    flags = variant_flags(variant)
    who = ["-DSIM_PERSONALITY=%d" % i, "-DSIM_OS=%d" % system, "-DSIM_IPHONE=%d" % (name == "iOS"), "-I%s/shadow" % SIM]
    if variant == "mock":
        who.append("-DCPUINFO_MOCK=1")
    cflags = flags + ["-DCPUINFO_SIM=1"] + who + ["-include", "%s/prelude.h" % SIM]
    if name == "Emscripten":
        os.makedirs(d + "/lib")
        objs = []
        common = cmake_args("SET", "CPUINFO_SRCS") + [os.path.relpath(f, REPO) for f in glob.glob(REPO + "/src/emscripten/*.c")]
        for src in sorted(set(common + [f for f in EMSCRIPTEN_SRCS if os.path.exists("%s/%s" % (REPO, f))])):
            objs.append("%s/lib/%s.o" % (d, src.replace("/", "_")))
            run(["gcc", "-std=gnu99", "-w"] + cflags + ["-I%s/include" % REPO, "-I%s/src" % REPO, "-DCPUINFO_LOG_LEVEL=2", "-DCPUINFO_LOG_TO_STDIO=1",
                 "-c", "%s/%s" % (REPO, src), "-o", objs[-1]])
        run(["ar", "rcs", d + "/lib/libcpuinfo.a"] + objs)
    else:
        cmake = ["cmake", "-S", REPO, "-B", d + "/lib", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                 "-DCMAKE_SYSTEM_NAME=Linux", "-DCMAKE_SYSTEM_PROCESSOR=" + processor, "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                 "-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY", "-DCMAKE_C_FLAGS=" + " ".join(cflags), "-DCPUINFO_LIBRARY_TYPE=static"]
        cmake += ["-DCPUINFO_BUILD_%s=OFF" % x for x in ("TOOLS", "UNIT_TESTS", "MOCK_TESTS", "BENCHMARKS", "PKG_CONFIG")]
        if name != "Linux":
            # the host's tool chain, the other system's sources
            with open(d + "/system.cmake", "w") as f:
                f.write("SET(CMAKE_SYSTEM_NAME %s)\n" % name)
                if name == "Android":
                    f.write("SET(ANDROID TRUE)\n")
            cmake.append("-DCMAKE_PROJECT_INCLUDE=" + d + "/system.cmake")
        if variant in ("log", "mock"):
            cmake.append("-DCPUINFO_LOG_LEVEL=debug")
        run(cmake)
        run(["ninja", "-C", d + "/lib", "cpuinfo"])
    parts = ["--whole-archive", d + "/lib/libcpuinfo.a", "--no-whole-archive"]
    if variant == "log":
        inc = ["-I%s/src" % REPO, "-I%s/include" % REPO, "-I%s/deps/clog/include" % REPO]
        for lvl, tab in ((5, "debug"), (2, "error"), (0, "none")):
            o = "%s/logdrv%d.o" % (d, lvl)
            run(["gcc", "-std=gnu99", "-w"] + cflags + inc + ["-DLOGDRV_LEVEL=%d" % lvl, "-DLOGDRV_TABLE=log_fns_" + tab, "-DLOGDRV_CLOG=1", "-c", SIM + "/logdrv.c", "-o", o])
            parts.append(o)
        run(["gcc", "-std=gnu99", "-w"] + cflags + inc + ["-c", REPO + "/deps/clog/src/clog.c", "-o", d + "/clog.o"])
        parts.append(d + "/clog.o")
    if variant == "mock":
        inc = ["-D_GNU_SOURCE=1", "-DCPUINFO_LOG_LEVEL=5", "-DCPUINFO_LOG_TO_STDIO=1", "-I%s/src" % REPO, "-I%s/include" % REPO]
        for src in [REPO + "/" + f for f in sorted(set(cmake_args("LIST", "APPEND\\s+CPUINFO_MOCK_SRCS"))) if i == 1 or "/x86/" not in f] + [SIM + "/mockdrv.c"]:
            parts.append("%s/mock-%s.o" % (d, os.path.basename(src)[:-2]))
            run(["gcc", "-std=gnu99", "-w"] + cflags + inc + ["-c", src, "-o", parts[-1]])
    if variant == "tools":
        for tool in tools_for(arch):
            o, entry = "%s/%s.o" % (d, tool), "tool_" + tool.replace("-", "_")
            objs = []
            for src in cmake_args("ADD_EXECUTABLE", tool) or ["tools/%s.c" % tool]:
                objs.append("%s/%s-%s.o" % (d, tool, os.path.basename(src)[:-2]))
                run(["gcc", "-std=gnu99", "-w"] + cflags + ["-I%s/src" % REPO, "-I%s/include" % REPO, "-c", "%s/%s" % (REPO, src), "-o", objs[-1]])
            run(["ld", "-r", "-o", o] + objs)
            run(["objcopy", "--redefine-sym", "main=" + entry, "--keep-global-symbol=" + entry, o])
            parts.append(o)
    run(["ld", "-r", "-o", d + "/joined.o"] + parts)
    seams = set(json.load(open(core + "/seams.json")))
    und = set()
    for line in run(["nm", "-u", d + "/joined.o"]).splitlines():
        und.add(line.split()[-1])
    renames, left = [], []
    for s in sorted(und):
        if s in seams:
            renames.append("%s sim_%s" % (s, s))
        elif not s.startswith(("__asan_", "__tsan_", "__sanitizer_", "__ubsan_", "sim_", "cpuinfo_sim_", "_GLOBAL_OFFSET_TABLE_")):
            left.append(s)
    with open(d + "/syms", "w") as f:
        f.write("\n".join(renames) + "\n")
    cmd = ["objcopy", "--redefine-syms=" + d + "/syms"]
    for line in run(["objdump", "-h", d + "/joined.o"]).splitlines():
        f = line.split()
        if len(f) > 2 and f[0].isdigit():
            if f[1] == ".bss" or f[1].startswith(".bss.") or f[1].startswith(".tbss"):
                cmd += ["--rename-section", f[1] + "=libbss"]
            elif f[1] == ".data" or (f[1].startswith(".data.") and not f[1].startswith(".data.rel.ro")):
                cmd += ["--rename-section", f[1] + "=libdata"]
    run(cmd + [d + "/joined.o", d + "/library.o"])
    obs = d + "/observe.o"
    make_isa(d + "/isa_queries.inc")
    make_names(d)
    run(["g++", "-std=c++17", "-w"] + [f for f in flags if f != "-fsanitize-coverage=trace-pc" and f != "-fsanitize=thread"]
        + who + ["-I" + d, "-I" + SIM, "-I%s/include" % REPO, "-c", SIM + "/observe.cpp", "-o", obs])
    objs = ["%s/%s.o" % (core, n) for n in CORE] + [obs, d + "/library.o"]
    link = ["g++", "-o", d + "/sim"]
    if variant == "race":
        objs.append(core + "/tsan_rt.o")
    else:
        link.append("-fsanitize=address")
    run(link + objs)
    with open(d + "/seams.json", "w") as f:
        json.dump({"simulated": [r.split()[0] for r in renames], "real": left}, f)
    shutil.rmtree(d + "/lib")
    os.remove(d + "/joined.o")


def build(targets, failed=None):
    """{target: runner}; with failed, targets that do not compile are left out and their errors put there"""
    os.makedirs(BUILD, exist_ok=True)
    sim_key = digest(sim_files())
    key = hashlib.sha256((digest(repo_files()) + sim_key).encode()).hexdigest()[:16]
    out = {}
    with open(BUILD + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        core = "%s/core-%s" % (BUILD, sim_key)
        if not os.path.exists(core + "/ok"):
            shutil.rmtree(core, ignore_errors=True)
            os.makedirs(core)
            compile_core(core)
            open(core + "/ok", "w").close()

        def one(t):
            d = "%s/%s/%s" % (BUILD, key, t.replace(":", "-"))
            if not os.path.exists(d + "/ok"):
                shutil.rmtree(d, ignore_errors=True)
                try:
                    compile_target(core, d, *t.split(":"))
                except BuildError as e:
                    if failed is None:
                        raise
                    failed[t] = str(e)
                    return
                open(d + "/ok", "w").close()
            out[t] = d + "/sim"

        os.makedirs("%s/%s" % (BUILD, key), exist_ok=True)
        os.utime("%s/%s" % (BUILD, key))
        os.utime(core)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, targets))
        # keep the newest few
        dirs = sorted((os.path.getmtime(p), p) for p in glob.glob(BUILD + "/*") if os.path.isdir(p))
        for m, p in dirs[:-8]:
            if time.time() - m > 3600:
                shutil.rmtree(p, ignore_errors=True)
    return out


def planned():
    """every target some check runs"""
    import campaign

    return sorted({t for targets, _, _ in campaign.PLAN.values() for t, _ in targets})


if __name__ == "__main__":
    t0 = time.time()
    failed = {}
    try:
        for k, v in build(sys.argv[1:] or planned(), failed).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
    for k, v in failed.items():
        print(k, "failed:", v)
    if len(failed) > len(planned()) // 2:
        sys.exit(2)
    print("%.1f s" % (time.time() - t0))
