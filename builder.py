"""Builds library variants (with the repository's own CMake files) and harnesses, keyed by content."""
import concurrent.futures as cf, fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
KEEP = 60

ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr"
# name: (compiler, flags for library and harness, cmake options)
VARIANTS = {
    "asan":        ("g++", "-g1 -O1 -fno-omit-frame-pointer " + ASAN, []),
    "asanns":      ("g++", "-g1 -O1 -fno-omit-frame-pointer " + ASAN, ["-DCPPTRACE_GET_SYMBOLS_WITH_NOTHING=ON"]),
    "asandl":      ("g++", "-g1 -O1 -fno-omit-frame-pointer " + ASAN, ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL=ON"]),
    "plain":       ("g++", "-g1 -O1", []),
    "ndebug":      ("g++", "-g1 -O2 -DNDEBUG", []),
    "nodl":        ("g++", "-g1 -O1", ["-DHAS_DL_FIND_OBJECT=OFF"]),
    "dladdr":      ("g++", "-g1 -O1", ["-DHAS_DL_FIND_OBJECT=OFF", "-DHAS_DLADDR1=OFF", "-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL=ON"]),
    "fakea2l":     ("g++", "-g1 -O1 -fno-omit-frame-pointer " + ASAN, ["-DCPPTRACE_ADDR2LINE_SEARCH_SYSTEM_PATH=ON"]),
    "execinfo":    ("g++", "-g1 -O1", ["-DCPPTRACE_UNWIND_WITH_EXECINFO=ON"]),
    "libunwind":   ("g++", "-g1 -O1", ["-DCPPTRACE_UNWIND_WITH_LIBUNWIND=ON"]),
    "libdl":       ("g++", "-g1 -O1", ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL=ON"]),
    "libbacktrace": ("g++", "-g1 -O1", ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBBACKTRACE=ON"]),
    "libdwarf":    ("g++", "-g1 -O1 -fno-omit-frame-pointer " + ASAN, ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDWARF=ON", "-DCPPTRACE_USE_EXTERNAL_LIBDWARF=ON", "-Dlibdwarf_DIR=" + os.path.join(VERIF, "harness", "fakedwarf")]),
    "nosym":       ("g++", "-g1 -O1", ["-DCPPTRACE_GET_SYMBOLS_WITH_NOTHING=ON"]),
    "clang":       ("clang++-18", "-gline-tables-only -O1", []),
    "clangasan":   ("clang++-18", "-gline-tables-only -O1 -fno-omit-frame-pointer " + ASAN, []),
    "fuzz":        ("clang++-18", "-gline-tables-only -O1 -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,function", []),
    "tsan":        ("g++", "-g1 -O1 -fsanitize=thread", ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL=ON"]),
    "tsandladdr":  ("g++", "-g1 -O1 -fsanitize=thread", ["-DHAS_DL_FIND_OBJECT=OFF", "-DHAS_DLADDR1=OFF", "-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL=ON"]),
    "tsana2l":     ("g++", "-g1 -O1 -fsanitize=thread", []),
    "clangtsan":   ("clang++-18", "-gline-tables-only -O1 -fsanitize=thread", ["-DCPPTRACE_GET_SYMBOLS_WITH_LIBDL=ON"]),
}
SYMBOL_OPT = "CPPTRACE_GET_SYMBOLS_WITH_"

class Step:
    def __init__(s, harness=None, variant=None, props=None, jobs=8, max_secs=(120, 3600), custom=None, thorough_only=False, env=None, variants=(), std="17"):
        s.harness, s.variant, s.props, s.jobs, s.max_secs = harness, variant, props or {}, jobs, max_secs
        s.custom, s.thorough_only, s.env = custom, thorough_only, env or {}
        s.variants = list(variants) or ([variant] if variant else [])
    def tags(s):
        return [s.harness, s.variant, getattr(s.custom, "__name__", None)] + list(s.props)

_tree = None
def repo_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for root in ("CMakeLists.txt", "cmake", "include", "src"):
            p = os.path.join(REPO, root)
            files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
            for f in files:
                h.update(f.encode() + b"\0")
                with open(f, "rb") as x: h.update(x.read())
                h.update(b"\0")
        _tree = h.hexdigest()[:16]
    return _tree

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def env_base():
    e = dict(os.environ)
    for k in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS"): e.pop(k, None)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["LC_ALL"] = "C.UTF-8"
    return e

def run_env(st):
    e = env_base()
    e.pop("LC_ALL")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=2048"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:die_after_fork=0:suppressions=" + os.path.join(VERIF, "engine", "tsan.supp")
    e.update(st.env)
    return e

def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def _prune(prefix, keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and not d.endswith(".lock")]
    ds.sort(key=lambda d: os.path.getmtime(d))
    for d in ds[:-keep] if len(ds) > keep else []:
        if os.path.isdir(d): shutil.rmtree(d, ignore_errors=True)
        else: os.unlink(d)

def lib_dir(variant): return os.path.join(BUILD, "lib-%s-%s" % (variant, repo_hash()))

class BuildError(Exception): pass

def build_lib(variant):
    d = lib_dir(variant)
    stamp = os.path.join(d, "done")
    if os.path.exists(stamp):
        os.utime(d); return d
    with _lock("lib-" + variant):
        if os.path.exists(stamp): return d
        shutil.rmtree(d, ignore_errors=True)
        cxx, flags, opts = VARIANTS[variant]
        cc = {"g++": "gcc", "clang++-18": "clang-18"}[cxx]
        args = ["cmake", "-G", "Ninja", "-S", REPO, "-B", d, "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DCCACHE_PROGRAM=", "-DCPPTRACE_DISABLE_CXX_20_MODULES=ON",
                "-DCMAKE_BUILD_TYPE=", "-DCMAKE_C_COMPILER=/usr/bin/" + cc, "-DCMAKE_CXX_COMPILER=/usr/bin/" + cxx, "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_POSITION_INDEPENDENT_CODE=ON"]
        if not any(SYMBOL_OPT in o for o in opts): args.append("-DCPPTRACE_GET_SYMBOLS_WITH_ADDR2LINE=ON")
        if shutil.which("ccache"): args += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
        args += opts
        r = sh(args, env=env_base())
        if r.returncode: raise BuildError("configure of %s failed:\n%s" % (variant, r.stdout.decode(errors="replace")[-3000:]))
        r = sh(["ninja", "-C", d, "cpptrace-lib"], env=env_base())
        if r.returncode: raise BuildError("build of %s failed:\n%s" % (variant, r.stdout.decode(errors="replace")[-3000:]))
        open(stamp, "w").close()
        _prune("lib-" + variant + "-", 3)
    return d

def lib_file(variant): return os.path.join(lib_dir(variant), "libcpptrace.a")
def include_flags(variant): return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(lib_dir(variant), "include"), "-DCPPTRACE_STATIC_DEFINE"]
def lib_defines(variant):
    # the definitions the library itself was compiled with (needed when a harness includes internal headers)
    nin = open(os.path.join(lib_dir(variant), "build.ninja")).read()
    m = re.search(r"src/cpptrace\.cpp\.o:.*?\n((?:  .*\n)+)", nin)
    d = re.search(r"  DEFINES = (.*)", m.group(1)).group(1) if m else ""
    return [x.replace('\\"', '"') for x in d.split()]
def link_libs(variant):
    l = ["-ldl", "-pthread"]
    if variant == "libunwind": l.insert(0, "-lunwind")
    if variant == "libbacktrace": l.insert(0, "-lbacktrace")
    return l

def harness_key(st):
    import plan
    h = hashlib.sha256(repo_hash().encode())
    spec = plan.HARNESSES[st.harness]
    for f in spec["src"] + spec.get("deps", []) + ["engine/vt.hpp", "engine/vt.cpp"]:
        with open(os.path.join(VERIF, f), "rb") as x: h.update(x.read())
    h.update(repr(sorted(spec.items())).encode() + repr(VARIANTS[st.variant]).encode())
    return h.hexdigest()[:16]

def harness_exe(st): return os.path.join(BUILD, "h-%s-%s-%s" % (st.harness, st.variant, harness_key(st)), "harness")

def compile_objs(st):
    """compile the harness objects (needs only the generated headers of the library's configure step)"""
    import plan
    spec = plan.HARNESSES[st.harness]
    exe = harness_exe(st)
    d = os.path.dirname(exe)
    os.makedirs(d, exist_ok=True)
    cxx, flags, _ = VARIANTS[st.variant]
    fl = flags.split() + ["-std=c++" + spec.get("std", "17")] + include_flags(st.variant) + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness"), "-w"]
    fl += ['-DVT_LIB="%s"' % lib_file(st.variant), '-DVT_CXX="%s"' % cxx, '-DVT_LIBS="%s"' % " ".join(link_libs(st.variant)), '-DVT_INC="-I%s/include -I%s/include -DCPPTRACE_STATIC_DEFINE"' % (REPO, lib_dir(st.variant))]
    if spec.get("internal"): fl += lib_defines(st.variant)
    fl += spec.get("flags", [])
    cc = (["ccache"] if shutil.which("ccache") else []) + [cxx]
    objs = []
    jobs = []
    for f in spec["src"] + ["engine/vt.cpp"]:
        o = os.path.join(d, f.replace("/", "_") + ".o")
        objs.append(o)
        ff = fl
        if f in spec.get("per_file", {}): ff = fl + spec["per_file"][f]
        if f.endswith(".c"):
            ffc = [x for x in ff if not x.startswith("-std=")]
            jobs.append(([x.replace("g++", "gcc").replace("clang++-18", "clang-18") if x in ("g++", "clang++-18") else x for x in cc] + ffc + ["-c", os.path.join(VERIF, f), "-o", o], f))
        else: jobs.append((cc + ff + ["-c", os.path.join(VERIF, f), "-o", o], f))
    def one(j):
        r = sh(j[0], env=env_base())
        if r.returncode: raise BuildError("compiling %s (%s) failed:\n%s" % (j[1], st.variant, "\n".join([l for l in r.stdout.decode(errors="replace").split("\n") if "error" in l][:15])))
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    return objs

def build_harness(st):
    import plan
    exe = harness_exe(st)
    if os.path.exists(exe):
        os.utime(os.path.dirname(exe)); return
    with _lock("h-%s-%s" % (st.harness, st.variant)):
        if os.path.exists(exe): return
        build_lib(st.variant)
        objs = compile_objs(st)
        spec = plan.HARNESSES[st.harness]
        cxx, flags, _ = VARIANTS[st.variant]
        fl = flags.replace("fuzzer-no-link", "fuzzer").split() if spec.get("fuzz") else flags.split()
        cmd = [cxx] + fl + objs + spec.get("prelink", []) + [lib_file(st.variant)] + link_libs(st.variant) + spec.get("link", []) + ["-o", exe + ".tmp"]
        r = sh(cmd, env=env_base())
        if r.returncode: raise BuildError("linking %s (%s) failed:\n%s" % (st.harness, st.variant, r.stdout.decode(errors="replace")[-4000:]))
        os.replace(exe + ".tmp", exe)
        _prune("h-%s-%s-" % (st.harness, st.variant), 3)

def build_all(steps):
    vs = sorted({v for s in steps for v in s.variants})
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(build_lib, vs))
    seen, todo = set(), []
    for s in steps:
        if s.harness and (s.harness, s.variant) not in seen:
            seen.add((s.harness, s.variant)); todo.append(s)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(build_harness, todo))
