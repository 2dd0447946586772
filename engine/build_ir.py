"""Builds the whole-program LLVM IR of maike from /repo's working tree and loads it.

Nothing is executed: clang parses and type-checks every translation unit, llvm-link joins them,
opt runs SROA (so that scalars are SSA values), irdump writes the result as JSON lines.
"""
import concurrent.futures
import hashlib
import json
import shutil
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAIKE_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (vanished anchor, unparsable source...)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool(name):
    for cand in (name + "-18", name, "/usr/lib/llvm-18/bin/" + name):
        r = subprocess.run(["which", cand], stdout=subprocess.PIPE, text=True)
        if r.returncode == 0:
            return r.stdout.strip()
    raise AnalysisBroken("tool not found: " + name)


def irdump_path():
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    for base in (os.path.join(HERE, "..", ".build"), os.path.join(tempfile.gettempdir(), "maike-verif-build")):
        path = os.path.abspath(os.path.join(base, "irdump-" + h))
        if os.path.exists(path):
            return path
    base = os.path.abspath(os.path.join(HERE, "..", ".build"))
    os.makedirs(base, exist_ok=True)
    path = os.path.join(base, "irdump-" + h)
    tmp = path + ".%d" % os.getpid()
    r = sh(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
            "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode:
        raise AnalysisBroken("cannot build irdump: " + r.stderr[-2000:])
    os.rename(tmp, path)
    return path


def sources(repo=None):
    repo = repo or REPO
    r = sh(["git", "-c", "safe.directory=*", "ls-files", "-co", "--exclude-standard", "-z"], cwd=repo)
    if r.returncode:
        raise AnalysisBroken("git ls-files: " + r.stderr)
    files = sorted({f for f in r.stdout.split("\0") if f and os.path.lexists(os.path.join(repo, f)) and not f.startswith("__")})
    return files


_overlay = None


def overlay(workdir):
    """A copy of libstdc++'s <bits/stl_algobase.h> without the four times unrolled overload of
    __find_if: the plain loop of the general overload is used instead (same meaning)."""
    global _overlay
    if _overlay and os.path.isdir(_overlay):
        return _overlay
    r = sh([tool("clang++"), "-std=c++17", "-E", "-x", "c++", "-include", "bits/stl_algobase.h", "/dev/null"])
    m = re.search(r'"([^"]*/bits/stl_algobase.h)"', r.stdout)
    d = os.path.join(workdir, "overlay")
    os.makedirs(os.path.join(d, "bits"), exist_ok=True)
    if m:
        text = open(m.group(1)).read()
        new = re.sub(r"  /// This is an overload used by find algos for the RAI case\..*?(?=\n  template<typename _Iterator, typename _Predicate>)", "", text, flags=re.S)
        if "random_access_iterator_tag)\n    {\n      typename iterator_traits<_RandomAccessIterator>::difference_type\n\t__trip_count" not in new and new != text:
            with open(os.path.join(d, "bits", "stl_algobase.h"), "w") as f:
                f.write(new)
    _overlay = d
    return d


def program_units(repo=None):
    """Every translation unit of the maike2 program (tests are not part of it; about.cpp holds only
    generated text)."""
    return [f for f in sources(repo) if f.endswith(".cpp") and not f.endswith(".test.cpp")
            and (f.startswith("core/")) and f != "core/bin/about.cpp"]


def tags(path):
    lines = []
    for line in open(path, encoding="utf-8", errors="surrogateescape").read().split("\n"):
        if not line.startswith("//@"):
            break
        lines.append(line[3:])
    try:
        return json.loads("\n".join(lines)) if lines else {}
    except ValueError:
        return {}


CFLAGS = ["-std=c++17", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-U__OPTIMIZE__", "-w", "-Wno-invalid-constexpr",
          "-emit-llvm", "-c"]


def compile_unit(repo, f, out, extra=()):
    cache = os.environ.get("MAIKE_BC_CACHE")     # development only: the checks never set it
    if cache:
        r = sh([tool("clang++")] + CFLAGS[:-2] + ["-E", "-include", os.path.join(HERE, "clang_prelude.hpp"),
                "-isystem", _overlay, "-iquote" + (os.path.dirname(f) or "."), "-iquote.", f], cwd=repo)
        cf = os.path.join(cache, hashlib.sha256(r.stdout.encode("utf-8", "surrogateescape")).hexdigest() + ".bc")
        if not os.path.exists(cf):
            e = compile_unit_real(repo, f, out, extra)
            if e:
                return e
            shutil.copyfile(out, cf + ".%d" % os.getpid())
            os.rename(cf + ".%d" % os.getpid(), cf)
        else:
            shutil.copyfile(cf, out)
        return None
    return compile_unit_real(repo, f, out, extra)


def compile_unit_real(repo, f, out, extra=()):
    clang = tool("clang++")
    inc = ["-isystem", _overlay, "-include", os.path.join(HERE, "clang_prelude.hpp"), "-iquote" + (os.path.dirname(f) or "."), "-iquote."]
    src = f
    fixed = set()
    for _ in range(4):
        r = sh([clang] + CFLAGS + inc + list(extra) + [src, "-o", out], cwd=repo)
        if r.returncode == 0:
            return None
        # g++ (P2280) accepts a local constexpr variable initialised through a reference parameter,
        # clang 18 does not: such a variable is made plain const in a scratch copy.
        errs = re.findall(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", r.stderr, re.M)
        lines = {int(ln) for p, ln, msg in errs if p == f and re.match(r"constexpr variable '\w+' must be init", msg)}
        if not lines or len(lines) != len(errs) or lines <= fixed:
            return f + ": " + r.stderr[:3000]
        fixed |= lines
        text = open(os.path.join(repo, f), encoding="utf-8", errors="surrogateescape").read().split("\n")
        for ln in fixed:
            text[ln - 1] = text[ln - 1].replace("constexpr", "const", 1)
        src = out + ".cpp"
        with open(src, "w", encoding="utf-8", errors="surrogateescape") as fh:
            fh.write('#line 1 "%s"\n' % f + "\n".join(text))
    return f + ": " + r.stderr[:3000]


def build(workdir, repo=None, units=None, extra_units=()):
    repo = repo or REPO
    units = program_units(repo) if units is None else units
    if len(units) < 30:
        raise AnalysisBroken("only %d translation units found" % len(units))
    overlay(workdir)
    outs, jobs = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in list(units) + list(extra_units):
            o = os.path.join(workdir, f.replace("/", "_") + ".bc")
            outs.append(o)
            jobs.append(ex.submit(compile_unit, repo, f, o))
        dump = ex.submit(irdump_path)
        errs = [e for e in (j.result() for j in jobs) if e]
        dump = dump.result()
    if errs:
        raise AnalysisBroken("does not parse:\n" + "\n".join(errs))
    allbc = os.path.join(workdir, "all.bc")
    r = sh([tool("llvm-link")] + outs + ["-o", allbc])
    if r.returncode:
        raise AnalysisBroken("llvm-link: " + r.stderr[-2000:])
    sroa = os.path.join(workdir, "sroa.bc")
    r = sh([tool("opt"), "-passes=sroa", allbc, "-o", sroa])
    if r.returncode:
        raise AnalysisBroken("opt: " + r.stderr[-2000:])
    js = os.path.join(workdir, "all.json")
    with open(js, "w") as fh:
        r = subprocess.run([dump, sroa], stdout=fh, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisBroken("irdump: " + r.stderr[-2000:])
    return js, len(units)
