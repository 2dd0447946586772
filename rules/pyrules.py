"""The recipes that come with the program: Python scripts, analysed as they are."""
import itertools
import os
import subprocess

from engine.build_ir import AnalysisBroken
from engine.pyabs import World, Sym, Str, text, symbolic

D = lambda *k: Sym("data", *k)


def scripts(ctx):
    d = os.path.join(ctx.repo, "recipes")
    if not os.path.isdir(d):
        raise AnalysisBroken("no recipes")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".py")]


def dep(origin, ref, rel=None):
    d = {"ref": ref, "origin": origin}
    if rel:
        d["rel"] = rel
    return d


def data(targets=2, ext=".cpp", cfg=None, deps=None, **kw):
    c = {"backend": D("backend"), "cflags": [D("flag1"), D("flag2")], "iquote": [D("iquote")],
         "compilation_cmd": {"executable": D("executable"), "exec_origin": "system", "args": ["$source_file", "-o", "${target}", "-x=$target"]}}
    c.update(cfg or {})
    r = {"compiler_cfg": c, "source_file": text(D("source"), ext), "task_id": D("task"), "log_format": D("format"),
         "build_info": {"source_dir": D("srcdir"), "target_dir": D("dstdir"), "start_time": D("start"), "build_id": D("build")},
         "targets": [D("target", k) for k in range(targets)],
         "dependencies": deps if deps is not None else [dep("pkg-config", D("package")), dep("project", D("object"), "implementation")]}
    r.update(kw)
    return r


class Told(World):
    """tools end as the rule says, and print what it says"""
    told = None

    def outcome(self, argv):
        return self.told(argv)[0] if self.told else None

    def stdout(self, argv, code):
        return self.told(argv)[1] if self.told else None


def run(ctx, script, make, action="compile", told=None):
    """all paths of one script asked to do one thing"""
    args = ["".join([os.path.basename(script)]), action, D("request")]

    def decode(v):
        return make() if v == D("request") else Sym("json", repr(v))
    w = Told(script, args, decode, {("in", repr(v), "<environ>"): 0 for v in ("CXX", "AR")} if told else None)
    w.told = told
    for p in w.paths():
        ctx.states += 1
        ctx.steps += p.steps
        ctx.functions |= {"%s.%s" % f for f in p.functions}
        ctx.callsites |= {"%s:%d" % s for s in p.sites}
        yield p


def where(ctx, script, line):
    return "%s:%d" % (os.path.relpath(script, ctx.repo), line)


def uses(v, x):
    """whether value v is made from x"""
    return repr(x) in repr(v)


def variants(name):
    if name == "cxx_compiler":
        for acts in ([], ["link"], ["link", "run"], ["sanitize"], ["link", "run", "sanitize"]):
            for n in (1, 2):
                yield "actions %s, %d targets" % ("+".join(acts) or "none", n), \
                    lambda a=acts, n=n: data(n, cfg={"actions": list(a)}, deps=[dep("project", D("object"), "implementation")])
        yield "packages", lambda: data(1, cfg={"actions": ["link"]}, deps=[dep("pkg-config", D("package"))])
    else:
        for n in (1, 2):
            yield "%d targets" % n, lambda n=n: data(n, ext=".src")


def outcome(ctx):
    """a recipe that says a step is done has run all tools of that step to success, and written what it had to write"""
    n = 0
    for s in scripts(ctx):
        name = os.path.basename(s)[:-3]
        paths = done = 0
        bad, silent, missing = {}, {}, {}
        for label, make in variants(name):
            for p in run(ctx, s, make):
                paths += 1
                acted = any(e["kind"] in ("tool", "write", "mkdir") for e in p.events)
                if p.code is None or p.code != 0:
                    continue
                for e in p.events:
                    if e["kind"] == "tool" and e["code"]:
                        bad.setdefault((e["line"], "%s" % ("was killed by a signal" if e["code"] == -9 else "could not be started" if e["code"] == 127 else "failed")), (label, e))
                    if e["kind"] in ("write", "mkdir") and not e["ok"] and e["error"] != "FileExistsError":
                        silent.setdefault(e["line"], (label, e))
                if not acted:
                    continue
                done += 1
                made = [e["path"] for e in p.events if e["kind"] in ("write", "mkdir")]
                for e in p.events:
                    made += e["argv"] if e["kind"] == "tool" else e["args"] if e["kind"] == "call" else []
                if not any(uses(m, D("target", 0)) for m in made):
                    missing.setdefault(label, p.events[-1]["line"])
        if not paths or not done:
            continue            # does not take part in building: a library of the other recipes
        n += 1
        for (line, how), (label, e) in bad.items():
            ctx.oblige("%s/failure" % name, False, where(ctx, s, line),
                       "%s reports success although a tool it needs %s (%s)" % (os.path.basename(s), how, label), key="recipe/%s/failure" % name)
        ctx.oblige("%s/failure" % name, True)
        for line, (label, e) in silent.items():
            ctx.oblige("%s/unwritten" % name, False, where(ctx, s, line),
                       "%s reports success although a file could not be written (%s)" % (os.path.basename(s), e["error"]), key="recipe/%s/unwritten" % name)
        ctx.oblige("%s/unwritten" % name, True)
        for label, line in missing.items():
            ctx.oblige("%s/target" % name, False, where(ctx, s, line),
                       "%s reports success without having made the target (%s)" % (os.path.basename(s), label), key="recipe/%s/target" % name)
        ctx.oblige("%s/target" % name, True)
    ctx.need("recipes that build something", n, 6)


def script(ctx, name):
    p = os.path.join(ctx.repo, "recipes", name + ".py")
    if not os.path.exists(p):
        raise AnalysisBroken("no recipe " + name)
    return p


def fine(argv):
    return 0, None


def main_tool(p):
    """the tool that makes the target: the first that is told about it"""
    for e in p.events:
        if e["kind"] == "tool" and any(uses(a, D("target", 0)) for a in e["argv"]):
            return e
    return None


class Flow:
    """the obligations on one command line"""

    def __init__(self, ctx, name):
        self.ctx, self.name, self.n = ctx, name, 0
        self.path = script(ctx, name)
        self.seen = set()

    def need(self, what, ok, e, msg, label):
        self.n += 1
        if ok:
            self.ctx.obligations.append(("%s/%s" % (self.name, what), True))
        elif (what, msg) not in self.seen:
            self.seen.add((what, msg))
            self.ctx.oblige("%s/%s" % (self.name, what), False, where(self.ctx, self.path, e["line"] if e else 1),
                            "%s.py: %s (%s)" % (self.name, msg, label), key="recipe/%s/%s" % (self.name, what))

    def paths(self, make, label):
        """the successful paths, with the command that makes the target"""
        n = 0
        for p in run(self.ctx, self.path, make, told=fine):
            if any(e["kind"] in ("write", "mkdir") and not e["ok"] for e in p.events):
                continue
            n += 1
            if p.code is None or p.unknown:
                continue
            e = main_tool(p)
            self.need("runs", p.code == 0 and e is not None, e, "a step whose tools all succeed is not done", label)
            if p.code == 0 and e is not None:
                yield p, e
        if not n:
            raise AnalysisBroken("%s: no path" % self.name)


def after(argv, flag, x):
    return any(a == flag and b == x for a, b in zip(argv, argv[1:])) or any(a == text(flag, x) for a in argv)


def in_order(argv, xs):
    k = 0
    for a in argv:
        if k < len(xs) and a == xs[k]:
            k += 1
    return k == len(xs)


def dep_sets():
    A, B, L, X, Y, P = (dep("project", D("objA"), "implementation"), dep("generated", D("objB"), "implementation"), dep("system", D("libL"), "external"),
                        dep("project", D("plain")), dep("system", D("header")), dep("pkg-config", D("package")))
    R = dep("project", D("resource"), "resource")
    yield "no dependencies", []
    yield "objects and libraries", [L, A, X, B, Y, R]
    yield "libraries last", [A, B, L]
    yield "repeated", [A, L, B, A, L]
    yield "package", [X, P, A]


def link_order(f, argv, deps, e, label, libs=True):
    want = []
    for d in deps:
        if d["origin"] in ("generated", "project") and d.get("rel") == "implementation":
            x = d["ref"]
        elif libs and d["origin"] == "system" and d.get("rel") == "external":
            x = text("-l", d["ref"])
        else:
            f.need("not-linked", not any(uses(a, d["ref"]) for a in argv), e, "something that is not to be linked is", label)
            continue
        if x not in want:
            want.append(x)
    for x in want:
        f.need("linked", x in argv, e, "%s is not linked" % ("a library" if isinstance(x, Str) else "an object"), label)
    for a, b in zip(want, want[1:]):
        if a in argv and b in argv:
            # of each thing, the last place counts: what needs it comes before
            la = len(argv) - 1 - argv[::-1].index(a)
            f.need("link-order", la > argv.index(b), e, "what is needed comes before what needs it", label)


def from_package(p, argv, option):
    """whether what pkg-config printed for an option arrives; None if it printed nothing"""
    for e in p.events:
        if e["kind"] == "tool" and e["argv"] and repr(e["argv"][0]).strip("'").endswith("pkg-config") and option in e["argv"]:
            r = repr(e["stdout"])
            some = [k for k, v in p.memo.items() if isinstance(k, tuple) and k and k[0] == "len" and r in str(k[1]) and v == 1]
            if not some:
                return None
            return any(r in repr(a) for a in argv)
    return False


def compiler(ctx):
    f = Flow(ctx, "cxx_compiler")
    for na, acts in enumerate(([], ["link"], ["link", "run"], ["sanitize"])):
        for nd, (dl, deps) in enumerate(dep_sets()):
            for extra in ((na + nd) % 2,) if ctx.tier == "quick" else (0, 1):
                inc = [dep("project", D("forced"), "include")]
                label = "actions %s, %s" % ("+".join(acts) or "none", dl)
                cfg = {"actions": list(acts)} if acts else {}
                if extra:
                    cfg.update({"std_revision": {"min": "c++17", "selected": D("revision")}, "cflags": [D("flag1"), D("flag2"), D("flag1"), D("flag3")]})
                mk = lambda: data(1 + extra, cfg=cfg, deps=deps + (inc if extra else []))
                for p, e in f.paths(mk, label):
                    argv = e["argv"]
                    f.need("backend", argv[0] == D("backend"), e, "the compiler chosen is not the one started", label)
                    flags = [D("flag1"), D("flag2")] + ([D("flag1"), D("flag3")] if extra else [])
                    f.need("flags", in_order(argv, flags), e, "the flags configured do not all reach the compiler as they are", label)
                    top = any(k[0] == "eq" and v == 1 and "''" in k[1:] and "source" in repr(k) for k, v in p.memo.items() if isinstance(k, tuple))
                    for what in (D("iquote"),) + (() if top else (D("source"),)):
                        dirs = [a for a in argv if repr(a).startswith("-iquote") and uses(a, what)]
                        f.need("directories", any(uses(a, D("dstdir")) for a in dirs) and any(not uses(a, D("dstdir")) for a in dirs), e,
                               "a directory to search is not searched in both the source and the target tree", label)
                    src = text(D("source"), ".cpp")
                    f.need("source", argv.count(src) == 1, e, "the source file is not compiled once", label)
                    f.need("output", after(argv, "-o", D("target", 0)), e, "the output is not the target", label)
                    f.need("linking", ("-c" in argv) == ("link" not in acts), e, "it is linked if and only if that is not asked for", label)
                    if extra:
                        f.need("revision", text("-std=", D("revision")) in argv, e, "the standard revision selected is not used", label)
                        f.need("include", text("-include", D("forced")) in argv or after(argv, "-include", D("forced")), e, "a forced include is not", label)
                        copies = [c for c in p.events if c["kind"] == "write" and c["path"] == D("target", 1)]
                        f.need("copies", any(c.get("src") == D("target", 0) for c in copies), e, "a further target is not made", label)
                    for macro, v in (("TASKID", D("task")), ("BUILDINFO_BUILDID", D("build")), ("BUILDINFO_TARGETDIR", D("dstdir")),
                                     ("BUILDINFO_SOURCEDIR", D("srcdir")), ("BUILDINFO_STARTTIME", D("start")), ("BUILDINFO_STARTTIME_STR", D("start"))):
                        f.need("macros", any(repr(a).startswith("-DMAIKE_%s=" % macro) and uses(a, v) for a in argv), e, "MAIKE_%s is not defined as told" % macro, label)
                    if "link" in acts:
                        link_order(f, argv, [d for d in deps if d["origin"] != "pkg-config"], e, label)
                    else:
                        f.need("objects", not any(uses(a, D("objA")) or uses(a, D("libL")) for a in argv), e, "objects are given to the compiler when not linking", label)
                    if any(d["origin"] == "pkg-config" for d in deps):
                        opts = ["--cflags"] + (["--libs-only-l", "--libs-only-L"] if "link" in acts else [])
                        for o in opts:
                            f.need("package", from_package(p, argv, o) is not False, e, "what pkg-config %s says is not used" % o, label)
                    tests = [t for t in p.events if t["kind"] == "tool" and t is not e and t["argv"] and t["argv"][0] == D("target", 0)]
                    f.need("run", (len(tests) == 1) == ("run" in acts), e, "the program is run if and only if that is not asked for", label)
    ctx.need("obligations on the compiler", f.n, 100)


def linker(ctx):
    for name in ("cxx_linker", "make_lib"):
        f = Flow(ctx, name)
        for dl, deps in dep_sets():
            for p, e in f.paths(lambda: data(1, ext=".maikerule", deps=deps), dl):
                argv = e["argv"]
                if name == "cxx_linker":
                    f.need("output", after(argv, "-o", D("target", 0)), e, "the output is not the target", dl)
                    f.need("flags", in_order(argv, [D("flag1"), D("flag2")]), e, "the flags configured do not all reach the linker as they are", dl)
                    for o in ("--libs-only-l", "--libs-only-L") if any(d["origin"] == "pkg-config" for d in deps) else ():
                        f.need("package", from_package(p, argv, o) is not False, e, "what pkg-config %s says is not used" % o, dl)
                else:
                    objs = [k for k, a in enumerate(argv) if a in (D("objA"), D("objB"))]
                    f.need("output", D("target", 0) in argv and all(argv.index(D("target", 0)) < k for k in objs), e, "the archive is not the target", dl)
                link_order(f, argv, [d for d in deps if d["origin"] != "pkg-config"], e, dl, libs=name == "cxx_linker")
        ctx.need("obligations on " + name, f.n, 10)


def others(ctx):
    f = Flow(ctx, "generic")
    for p, e in f.paths(lambda: data(1, ext=".src"), "a command"):
        t, s = D("target", 0), text(D("source"), ".src")
        f.need("command", e["argv"] == [D("executable"), s, "-o", t, text("-x=", t)] or
               [repr(a) for a in e["argv"]] == [repr(x) for x in (D("executable"), s, "-o", t, text("-x=", t))], e, "the command run is not the one configured", "a command")
    for name in ("copy_file", "sass2css", "make_directory"):
        sc = script(ctx, name)
        for n in (1, 2, 3):
            for p in run(ctx, sc, lambda: data(n, ext=".src"), told=fine):
                if p.code != 0 or p.unknown:
                    continue
                for k in range(n):
                    mine = [e for e in p.events if e["kind"] in ("write", "mkdir") and uses(e["path"], D("target", k))]
                    ok = bool(mine) or any(e["kind"] == "call" and e["name"].startswith("os.path.") and any(uses(a, D("target", k)) for a in e["args"]) for e in p.events)
                    if name == "copy_file":
                        ok = any(e.get("src") == text(D("source"), ".src") for e in mine)
                    ctx.oblige("%s/every-target" % name, ok, where(ctx, sc, mine[0]["line"] if mine else 1), "%s.py: one of %d targets is not made" % (name, n),
                               key="recipe/%s/every-target" % name)


REVS = {"c++98": 199711, "c++11": 201103, "c++14": 201402, "c++17": 201703, "c++20": 202002, "c++23": 202302}


def standard(ctx):
    """the standard revision chosen is the one nearest to the compiler's own within the limits"""
    sc = script(ctx, "cxx_compiler")
    names = list(REVS)
    n = 0
    some = names if ctx.tier != "quick" else names[1:5]
    for default in some:
        for lo in [None] + some:
            for hi in [None] + some:
                for newest in (names[-1], "c++17"):
                    if REVS[default] > REVS[newest]:
                        continue

                    def told(argv):
                        std = [a[5:] for a in argv if isinstance(a, str) and a.startswith("-std=")]
                        if std and (std[0] not in REVS or REVS[std[0]] > REVS[newest]):
                            return 1, ""
                        v = REVS[std[0] if std else default]
                        return 0, "#define __STDC__ 1\n#define __cplusplus %dL\n#define __OPTIMIZE__ 1\n" % v
                    rev = {}
                    if lo:
                        rev["min"] = lo
                    if hi:
                        rev["max"] = hi
                    label = "the compiler's own is %s, limits %s..%s, newest %s" % (default, lo or "", hi or "", newest)
                    low, high = REVS[lo or names[0]], REVS[hi or names[-1]]
                    d = REVS[default]
                    want = d if low <= d <= high else low if d < low else high
                    for p in run(ctx, sc, lambda: {"cflags": [D("flag1")], "iquote": [], "always_use_default_compiler": 1, "std_revision": dict(rev)},
                                 action="configure", told=told):
                        if p.code is None or p.unknown:
                            continue
                        n += 1
                        ln = next((e["line"] for e in p.events if e["kind"] == "dumps"), 1)
                        if low > high or want > REVS[newest]:
                            ctx.oblige("standard/impossible", p.code != 0, where(ctx, sc, ln), "a standard that cannot be had is accepted (%s)" % label,
                                       key="recipe/cxx_compiler/impossible")
                            continue
                        out = [e["value"] for e in p.events if e["kind"] == "dumps"]
                        ok = p.code == 0 and len(out) == 1 and isinstance(out[0], dict)
                        sel = out[0].get("std_revision", {}).get("selected") if ok else None
                        got = d if sel in (None, "") else REVS.get(sel)
                        ctx.oblige("standard/choice", ok and got == want, where(ctx, sc, ln),
                                   "the standard chosen is %s (%s)" % (sel or "the compiler's own" if ok else "none", label), key="recipe/cxx_compiler/standard")
                        kept = ok and out[0].get("cflags") == [D("flag1")] and "backend" in out[0]
                        ctx.oblige("standard/kept", kept, where(ctx, sc, ln), "the rest of the configuration is lost", key="recipe/cxx_compiler/kept")
    ctx.need("choices of a standard", n, 50)
