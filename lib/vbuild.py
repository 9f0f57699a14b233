"""Builds /repo's libraries (from its current working tree) in instrumented
variants, and the harness drivers on top of them.  Everything lands in
/verif/build/<variant>, which git ignores."""
import hashlib, json, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
LIBS = ["hawktracer", "hawktracer_parser", "hawktracer_client_utils", "hawktracer_client"]

VARIANTS = {
    # sequential drivers: address + undefined-behaviour sanitizers
    "asan": dict(cc="/usr/bin/gcc", cxx="/usr/bin/g++", libs=LIBS + ["hawktracer-converter"],
                 flags="-O1 -g -DNDEBUG -fno-omit-frame-pointer -fsanitize=address -fsanitize=undefined -fno-sanitize=alignment,vptr,nonnull-attribute -fno-sanitize-recover=undefined"),
    # schedule exploration: every memory access calls into harness/rt
    "sched": dict(cc="/usr/bin/clang-18", cxx="/usr/bin/clang++-18",
                  flags="-O1 -g -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread -mllvm -tsan-instrument-read-before-write=1"),
    # plain
    "plain": dict(cc="/usr/bin/gcc", cxx="/usr/bin/g++", flags="-O1 -g -DNDEBUG"),
    # core library compiled as C (FORCE_C_COMPILATION), schedule exploration
    "schedc": dict(cc="/usr/bin/gcc", cxx="/usr/bin/g++",
                   flags="-O1 -g -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread",
                   opts=["-DFORCE_C_COMPILATION=ON", "-DENABLE_CLIENT=OFF"],
                   libs=["hawktracer"]),
    # with the malloc hooks platform feature compiled in
    "hooks": dict(cc="/usr/bin/gcc", cxx="/usr/bin/g++", flags="-O1 -g -DNDEBUG -fno-builtin",
                  opts=["-DHT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED=ON",
                        "-DHT_PLATFORM_FEATURE_ALLOC_HOOKS_SOURCE=@REPO@/lib/platform/linux/alloc_hooks.c"]),
}

# the same, the library compiled as C
VARIANTS["asanc"] = dict(VARIANTS["asan"], opts=["-DFORCE_C_COMPILATION=ON"], libs=["hawktracer", "hawktracer_parser"])

# the library as tools/amalgamate.py makes it: one header, one source file, compiled as C or as C++
for _v, _cc, _x in (("amalgc", "/usr/bin/gcc", "c"), ("amalgcpp", "/usr/bin/g++", "cpp")):
    VARIANTS[_v] = dict(VARIANTS["asan"], amalgam=(_cc, _x), libs=["hawktracer_parser"])

# the Python extensions, as the project builds them, with sanitizers; targets are Python scripts of
# the harness, run by a wrapper that sets up the interpreter
PYFLAGS = "-O1 -g -fno-omit-frame-pointer -fsanitize=address -fsanitize=undefined -fno-sanitize=alignment,vptr,nonnull-attribute"

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def fresh(variant):
    """ninja goes by time stamps: a source put back with an old one would be missed.  Throw the
    variant's build away when a file differs from what was last built but is not newer."""
    sums = {}
    for top, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in (".git", "_build", "build", "__pycache__")]
        for f in fs:
            p = os.path.join(top, f)
            if os.path.isfile(p):
                with open(p, "rb") as h:
                    sums[p] = hashlib.sha1(h.read()).hexdigest()
    d = os.path.join(BUILD, variant)
    rec = os.path.join(d, "sources.json")
    if os.path.isdir(d):
        old = None
        if os.path.exists(rec):
            with open(rec) as h:
                old = json.load(h)
            t = os.path.getmtime(rec)
        if old is None or any(old.get(p) != s and os.path.getmtime(p) <= t for p, s in sums.items()):
            shutil.rmtree(d)
    os.makedirs(d, exist_ok=True)
    with open(rec, "w") as h:
        json.dump(sums, h)

def build_py(targets):
    fresh("pymod")
    rb = os.path.join(BUILD, "pymod", "repo")
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", PATH="/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LD_PRELOAD"):
        env.pop(k, None)
    _run(["cmake", "-S", REPO, "-B", rb, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
          "-DCMAKE_C_FLAGS=-Wno-error -w -DNDEBUG " + PYFLAGS, "-DCMAKE_CXX_FLAGS=-Wno-error -w -include stdint.h -DNDEBUG " + PYFLAGS,
          "-DPYTHON_EXECUTABLE=/usr/bin/python3", "-DENABLE_TESTS=OFF", "-DENABLE_BENCHMARKS=OFF", "-DENABLE_EXAMPLES=OFF",
          "-DENABLE_PYTHON_BINDINGS=ON", "-DENABLE_DOC=OFF"], env=env)
    shutil.rmtree(os.path.join(rb, "build"), ignore_errors=True)    # distutils keeps old objects
    env["CFLAGS"] = "-include stdint.h -w " + PYFLAGS
    env["LDFLAGS"] = "-fsanitize=address -fsanitize=undefined"
    _run(["ninja", "-C", rb, "-j1", "python_bindings_hawktracer.core", "python_bindings_hawktracer.client"], env=env)
    sos = {}
    for root, _, fs in os.walk(rb):
        for f in fs:
            if f.endswith(".so"):
                sos.setdefault(f.split(".")[0], root)
    pyp = os.path.dirname(sos["core"])
    ld = ":".join(sorted({d for k, d in sos.items() if k.startswith("lib")}))
    pre = ":".join(_run(["/usr/bin/gcc", "-print-file-name=" + x], env=env).strip() for x in ("libasan.so", "libstdc++.so.6"))
    res = {}
    for t in targets:
        res[t] = os.path.join(BUILD, "pymod", t)
        with open(res[t] + ".tmp", "w") as f:
            f.write("#!/bin/sh\nexport LD_LIBRARY_PATH=%s PYTHONPATH=%s:%s PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1\n"
                    "export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_segv=1:exitcode=99 UBSAN_OPTIONS=halt_on_error=1:abort_on_error=1:print_stacktrace=1\n"
                    "LD_PRELOAD=%s exec /usr/bin/python3 -X faulthandler=0 %s.py \"$@\"\n" % (ld, pyp, os.path.join(VERIF, "harness"), pre, os.path.join(VERIF, "harness", t)))
        os.chmod(res[t] + ".tmp", 0o755)
        os.rename(res[t] + ".tmp", res[t])
    return res

UNDEFINE = """#undef HT_EVENT_DEFINITIONS
#define HT_EVENT_DEFINITIONS(...)
#undef MKCREFLECT_DEFINE_GET_METHOD
#define MKCREFLECT_DEFINE_GET_METHOD(...)
"""

def amalgam(v, rb, env):
    """Generates and compiles the amalgamated library.  Its header stands for each of the library's
    headers (rb/shim); event classes are declared by them, and defined after event_macros_impl.h."""
    cc, ext = v["amalgam"]
    am, shim = os.path.join(rb, "amal"), os.path.join(rb, "shim")
    for d in (am, shim):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(env, PYTHONDONTWRITEBYTECODE="1")
    _run(["/usr/bin/python3", "-W", "ignore", os.path.join(REPO, "tools", "amalgamate.py"), "--root-dir", REPO, "--out-dir", am,
          "--config-path", os.path.join(rb, "lib", "include", "hawktracer", "ht_config.h")] + (["--cpp"] if ext == "cpp" else []), env=env)
    _run([cc, "-w", "-I" + am, "-c", os.path.join(am, "hawktracer." + ext), "-o", os.path.join(rb, "amal.o")] + v["flags"].split() + (["-fpermissive"] if ext == "cpp" else []), env=env)
    lib = os.path.join(rb, "lib", "libhawktracer.a")
    if os.path.exists(lib):
        os.unlink(lib)
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    _run(["ar", "rcs", lib, os.path.join(rb, "amal.o")], env=env)
    top = os.path.join(REPO, "lib", "include")
    for root, _, fs in os.walk(top):
        if os.path.basename(root) == "internal" or "/internal/" in root:
            continue
        for f in fs:
            if not f.endswith((".h", ".hpp", ".h.in")):
                continue
            rel = os.path.relpath(os.path.join(root, f), top).replace(".h.in", ".h")
            p = os.path.join(shim, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as h:
                h.write('#include "%s"\n' % os.path.join(am, "hawktracer.h"))
                if f == "event_macros_impl.h":
                    with open(os.path.join(root, f)) as g:
                        h.write(g.read())
                else:
                    h.write("#ifndef HAWKTRACER_EVENT_MACROS_IMPL_H\n%s#endif\n" % UNDEFINE)

def no_library(d, target, why):
    """What stands for a driver when there is no library to link it with."""
    p = os.path.join(d, "nolib_" + target)
    rec = json.dumps(dict(e="NoLibrary", why=" ".join(x for x in why.split("\n") if "error" in x or "undefined" in x or "multiple" in x)[:600]))
    with open(p + ".tmp", "w") as f:
        f.write("""#!/usr/bin/python3
import sys
a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
with open(a["--out"], "w") as f:
    for n in range(int(a["--first"]), int(a["--first"]) + int(a["--count"])):
        f.write('{"e":"Case","n":%%d}\\n%%s\\n' %% (n, %r))
""" % rec)
    os.chmod(p + ".tmp", 0o755)
    os.rename(p + ".tmp", p)
    return p

def build(variant, targets):
    """Returns {target: executable path}."""
    if variant == "pymod":
        return build_py(targets)
    v = VARIANTS[variant]
    fresh(variant)
    libs = v.get("libs", LIBS)
    rb = os.path.join(BUILD, variant, "repo")
    hb = os.path.join(BUILD, variant, "h")
    env = dict(os.environ, CC=v["cc"], CXX=v["cxx"], PATH="/usr/local/bin:/usr/bin:/bin")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH"):
        env.pop(k, None)
    opts = [o.replace("@REPO@", REPO) for o in v.get("opts", [])]
    _run(["cmake", "-S", REPO, "-B", rb, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
          "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_STATIC_LIB=ON",
          "-DCMAKE_C_FLAGS=-Wno-error -w " + v["flags"],
          "-DCMAKE_CXX_FLAGS=-Wno-error -w -include stdint.h " + v["flags"],
          "-DENABLE_TESTS=OFF", "-DENABLE_BENCHMARKS=OFF", "-DENABLE_EXAMPLES=OFF",
          "-DENABLE_PYTHON_BINDINGS=OFF", "-DENABLE_DOC=OFF"] + opts, env=env)
    if "amalgam" in v:
        _run(["ninja", "-C", rb] + libs, env=env)
        try:
            amalgam(v, rb, env)
        except BuildError as e:
            return {t: no_library(os.path.join(BUILD, variant), t, str(e)) for t in targets}
    else:
        _run(["ninja", "-C", rb] + libs, env=env)
    hflags = v["flags"] if not variant.startswith("sched") else "-O1 -g"
    _run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", hb, "-G", "Ninja",
          "-DCMAKE_BUILD_TYPE=None", "-DVARIANT=" + variant, "-DREPO=" + REPO, "-DREPO_BUILD=" + rb,
          "-DCMAKE_C_FLAGS=-w " + hflags, "-DCMAKE_CXX_FLAGS=-w -include stdint.h " + hflags], env=env)
    try:
        _run(["ninja", "-C", hb] + list(targets), env=env)
    except BuildError as e:
        if "amalgam" not in v:
            raise
        return {t: no_library(os.path.join(BUILD, variant), t, str(e)) for t in targets}
    return {t: os.path.join(hb, t) for t in targets}

if __name__ == "__main__":
    for t, e in build(sys.argv[1], sys.argv[2:]).items():
        print(t, e)
