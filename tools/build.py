#!/usr/bin/env python3
"""Builds libCZI (from /repo's working tree) and the harnesses, one build directory per sanitizer variant."""
import os, subprocess, sys, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    # address + undefined behaviour, every report is fatal. (alignment: libCZI reads little-endian file structures in place
    # all over, which x86/ARM allow; that check would only report the idiom.)
    "asan": dict(cc="gcc", cxx="g++",
                 flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,vptr "
                       "-fno-sanitize-recover=all -ftrivial-auto-var-init=pattern -Wno-error -w"),
    "tsan": dict(cc="clang", cxx="clang++",
                 flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -Wno-error -w"),
    "plain": dict(cc="gcc", cxx="g++", flags="-O1 -g1 -fno-omit-frame-pointer -Wno-error -w"),
}
GUARD = "-DLIBCZI_VERIF_HOOKS=1"

CMAKE_OPTS = ["-G", "Ninja", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
    "-DCMAKE_PROJECT_libCZI_INCLUDE=/opt/vp/cmake/libczi_hook.cmake", "-Dzstd_DIR=/opt/vp/cmake/zstd",
    "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DLIBCZI_BUILD_UNITTESTS=OFF", "-DLIBCZI_BUILD_LIBCZIAPI=ON",
    "-DLIBCZI_BUILD_DYNLIB=OFF", "-DLIBCZI_BUILD_CZICMD=OFF", "-DLIBCZI_BUILD_AZURESDK_BASED_STREAM=OFF",
    "-DLIBCZI_BUILD_CURL_BASED_STREAM=ON", "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_LIBCURL=ON",
    "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_EIGEN3=ON", "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_ZSTD=ON",
    "-DLIBCZI_BUILD_PREFER_EXTERNALPACKAGE_RAPIDJSON=ON", "-DCMAKE_BUILD_TYPE=None"]

class BuildError(Exception):
    pass

def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)

def _wait(p, log, what):
    if p.wait() != 0:
        tail = open(log, "rb").read()[-4000:].decode("utf8", "replace")
        raise BuildError(what + " failed:\n" + tail)

def build(variant, harnesses, api=False):
    """Returns {harness: path of its executable}."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(BUILD, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, v, d, harnesses, api)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def _build(variant, v, d, harnesses, api):
    lib = os.path.join(d, "lib")
    os.makedirs(lib, exist_ok=True)
    log = os.path.join(d, "build.log")
    open(log, "w").close()
    hlog = os.path.join(d, "harness.log")
    open(hlog, "w").close()
    flags = v["flags"] + " " + GUARD
    # the C sources are the bundled jxrlib codec (shifts of negative values etc. all over): memory errors only
    cflags = flags.replace("-fsanitize=address,undefined", "-fsanitize=address")
    env = dict(os.environ, CC=v["cc"], CXX=v["cxx"])
    env.pop("CFLAGS", None); env.pop("CXXFLAGS", None)
    p = _run(["cmake", "-S", REPO, "-B", lib] + CMAKE_OPTS + ["-DCMAKE_C_FLAGS=" + cflags, "-DCMAKE_CXX_FLAGS=" + flags], log, env=env)
    _wait(p, log, "cmake configure")
    targets = ["libCZIStatic"] + (["libCZIAPIStatic"] if api else [])
    # harness build file
    hd = os.path.join(d, "h")
    os.makedirs(hd, exist_ok=True)
    inc = "-I%s/Src/libCZI -I%s/Src/libCZI -I%s/Src/libCZIAPI/inc -I%s/harness" % (REPO, lib, REPO, VERIF)
    liba = os.path.join(lib, "Src/libCZI/liblibCZIStatic.a")
    apia = os.path.join(lib, "Src/libCZIAPI/liblibCZIAPIStatic.a")
    n = ["rule cxx", "  command = %s %s -std=c++17 -D_LIBCZISTATICLIB -D_LIBCZIAPISTATICLIB %s -MMD -MF $out.d -c $in -o $out" % (v["cxx"], flags, inc),
         "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = %s %s $in -o $out -lzstd -lcurl -lpthread -ldl" % (v["cxx"], v["flags"]), ""]
    for h in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if not h.endswith(".cpp"): continue
        b = h[:-4]
        n.append("build %s.o: cxx %s/harness/%s" % (b, VERIF, h))
        uses_api = b.startswith("api_") or b in ("c21_capi",)
        n.append("build %s: link %s.o %s%s" % (b, b, (apia + " ") if uses_api else "", liba))
    text = "\n".join(n) + "\n"
    bn = os.path.join(hd, "build.ninja")
    if not os.path.exists(bn) or open(bn).read() != text:
        open(bn, "w").write(text)
    p1 = _run(["ninja", "-C", lib] + targets, log, env=env)
    p2 = _run(["ninja", "-C", hd] + [h + ".o" for h in harnesses], hlog, env=env)
    try:
        _wait(p1, log, "library build")
    finally:
        p2.wait()
    _wait(p2, hlog, "harness build")
    p3 = _run(["ninja", "-C", hd] + list(harnesses), hlog, env=env)
    _wait(p3, hlog, "harness link")
    return {h: os.path.join(hd, h) for h in harnesses}

if __name__ == "__main__":
    variant = sys.argv[1]
    t = time.time()
    try:
        print(build(variant, sys.argv[2:], api=any(h.startswith("c21") for h in sys.argv[2:])))
    except BuildError as e:
        print(e); sys.exit(2)
    print("%.1f s" % (time.time() - t))
