"""Runs the fact extractor over every translation unit of /repo and merges the result.

Nothing here executes code of /repo: the sources are parsed and type-checked by clang.
"""
import hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(BUILD, "hxfacts")
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisError(Exception):
    """The check could not decide (an error of the check, not a violation)."""


def build_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("cannot build the extractor:\n" + r.stderr[-3000:])


def gen_config(max_row=3):
    """Writes the configured headers (what CMake's configure_file would write) to a private folder."""
    d = os.path.join(BUILD, "gen%d" % max_row)
    os.makedirs(os.path.join(d), exist_ok=True)
    src = open(os.path.join(REPO, "hexed_config.hpp.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\([^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    sub = {"CMAKE_PROJECT_VERSION_MAJOR": m.group(1) if m else "0", "CMAKE_PROJECT_VERSION_MINOR": m.group(2) if m else "0",
           "CMAKE_PROJECT_VERSION_PATCH": m.group(3) if m else "0", "MAX_BASIS_ROW_SIZE": str(max_row), "threaded": "ON", "n_threads": "8",
           "use_xdmf": "ON", "use_tecplot": "OFF", "use_nlopt": "ON", "use_occt": "ON", "obsessive_timing": "OFF",
           "CMAKE_SOURCE_DIR": REPO, "CMAKE_BINARY_DIR": "/nonexistent/build"}
    out = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), "OFF" if not m.group(1).isupper() else "0"), src)
    def put(name, text):
        p = os.path.join(d, name)
        if not os.path.exists(p) or open(p).read() != text:
            t = p + ".%d" % os.getpid()
            open(t, "w").write(text); os.replace(t, p)
    put("hexed_config.hpp", out)
    link = os.path.join(d, "hexed")
    if not os.path.islink(link) or os.readlink(link) != os.path.join(REPO, "include"):
        t = link + ".%d" % os.getpid()
        os.symlink(os.path.join(REPO, "include"), t); os.replace(t, link)
    return d


def compile_args(gen):
    return ["-x", "c++", "-std=c++20", "-fopenmp", "-O0", "-DNDEBUG", "-w", "-Wno-error=non-pod-varargs", "-frelaxed-template-template-args", "-fms-extensions",
            "-resource-dir", RES, "-DHAVE_FREETYPE", "-DHAVE_RAPIDJSON", "-DOCC_CONVERT_SIGNALS", "-Dhexed_EXPORTS",
            "-I/usr/include/libxml2", "-I" + gen, "-I" + os.path.join(REPO, "include"),
            "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial", "-isystem", "/usr/include/opencascade",
            "-isystem", os.path.join(VERIF, "tool", "inc")]


def sources():
    s = os.path.join(REPO, "src")
    return sorted(os.path.join(s, f) for f in os.listdir(s) if f.endswith(".cpp"))


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]


_filehash = {}
def _fh(p):
    if p not in _filehash:
        try:
            _filehash[p] = _sha(open(p, "rb").read())
        except OSError:
            _filehash[p] = "missing"
    return _filehash[p]


def one(src, gen, toolhash):
    cdir = os.path.join(BUILD, "cache"); os.makedirs(cdir, exist_ok=True)
    args = compile_args(gen)
    key = _sha(src, toolhash, " ".join(args), _fh(os.path.join(gen, "hexed_config.hpp")))
    meta = os.path.join(cdir, key + ".meta")
    data = os.path.join(cdir, key + ".json")
    if os.path.exists(meta) and os.path.exists(data):
        try:
            m = json.load(open(meta))
            if all(_fh(f) == h for f, h in m.items()):
                return data
        except Exception:
            pass
    tmp = data + ".%d" % os.getpid()
    r = subprocess.run([TOOL, REPO + "/src:" + REPO + "/include", tmp, src, "--"] + args, capture_output=True, text=True, cwd=BUILD)
    if r.returncode:
        raise AnalysisError("clang could not parse %s:\n%s" % (src, r.stderr[-3000:]))
    deps = set(json.load(open(tmp))["deps"]) | {src}
    os.replace(tmp, data)
    json.dump({f: _fh(f) for f in deps}, open(meta, "w"))
    return data


def extract(max_row=3, only=None):
    """Returns the list of per-TU JSON paths."""
    build_tool()
    gen = gen_config(max_row)
    th = _fh(TOOL)
    srcs = [s for s in sources() if only is None or os.path.basename(s) in only]
    if not srcs:
        raise AnalysisError("no sources found under " + REPO)
    def size(s):
        return os.path.getsize(s)
    big = {"kernels_diffusive.cpp": 10**9, "Case.cpp": 10**8, "kernels_convective.cpp": 10**8, "Boundary_condition.cpp": 10**7}
    order = sorted(srcs, key=lambda s: -big.get(os.path.basename(s), size(s)))
    with ThreadPoolExecutor(int(os.environ.get("HX_JOBS", "8"))) as ex:
        return dict(zip(order, ex.map(lambda s: one(s, gen, th), order)))


if __name__ == "__main__":
    import time
    t = time.time()
    d = extract()
    print(len(d), "TUs", sum(os.path.getsize(p) for p in d.values()) / 1e6, "MB", time.time() - t)
    for s, p in sorted(d.items(), key=lambda x: -os.path.getsize(x[1]))[:12]:
        print(s, os.path.getsize(p) / 1e6)
