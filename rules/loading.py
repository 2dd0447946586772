"""From one source file to its entry in the project."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .common import field, Cover, elem_of, split, find_term
from .sources import G, STRING, quiet

from .tasks import report, THIS
from .words import Words
from .scan import path_hooks, norm

NS = "Maike::SourceTreeLoader"
H = lambda r, h: (re.compile(r), h)


class Collect:
    """which vectors (by contents) and single values have been put into which vector: ghost component 'col',
    a tuple of (destination, coverage of sources, other values)"""

    def __init__(self, m, g, esize, pat, name="col", bad=None):
        self.m, self.g, self.cv, self.pat, self.name, self.bad = m, g, Cover(m, esize), pat, name, bad

    def get(self, st, dest):
        for d, c, o in self.g.get(st, self.name):
            if d == dest:
                return c, o
        return (), frozenset()

    def put(self, st, dest, c, o):
        r = [x for x in self.g.get(st, self.name) if x[0] != dest] + [(dest, c, o)]
        self.g.put(st, **{self.name: tuple(sorted(r, key=repr))})

    def add_elem(self, st, dest, q):
        c, o = self.get(st, dest)
        c2 = self.cv.visit(c, q)
        if c2 is None:
            return False
        self.put(st, dest, c2, o)
        return True

    def add_value(self, st, dest, v):
        c, o = self.get(st, dest)
        self.put(st, dest, c, o | {v})

    def add_range(self, st, dest, a, b):
        if not is_ptr(a) or not is_ptr(b) or not is_term(a[1][1] if a[1][0] == "sym" else None):
            return False
        t = a[1][1]
        if t[1] == "vdata" and a[2] == 0 and b == ("p", ("sym", ("t", "vend", t[2])), 0):
            c, o = self.get(st, dest)
            self.put(st, dest, c, o | {("all", t[2])})
            return True
        return False

    def settle(self, st):
        """forget how a vector was covered once it was covered completely"""
        for d, c, o in self.g.get(st, self.name):
            full = [e[0] for e in c if self.has(st, d, e[0])]
            if full:
                self.put(st, d, tuple(e for e in c if e[0] not in full), o | {("all", t) for t in full})

    def has(self, st, dest, tag):
        c, o = self.get(st, dest)
        if ("all", tag) in o:
            return True
        t, f, b = self.cv.get(c, tag)
        if f == "many" or b == "many" or f > 2 or b > 2:
            return True
        m = self.m
        for n, back in ((f, False), (b, True)):
            p = ("p", ("sym", ("t", "vdata", tag)), 0 if back else n * self.cv.es)
            q = ("p", ("sym", ("t", "vend", tag)), -n * self.cv.es if back else 0)
            if m.cmp(st, "eq", p, q, 64) == 1 or m.cmp(st, "ult", n, ("t", "vsize", tag), 64) == 0:
                return True
        return False

    def hooks(self):
        pat = self.pat

        def h_copy(m, st, i, fn, args):
            if len(args) == 3 and re.match(r"std::back_insert_iterator<std::vector<[^<]*(%s)\b" % pat, fn.dn) and self.add_range(st, args[2], args[0], args[1]):
                return [(st, args[2])]
            return None

        def h_push(m, st, i, fn, args):
            if not re.search(pat, fn.dn.split("::" + fn.sn.rsplit("::", 1)[1])[0]):
                return None
            if len(args) > 1 and is_ptr(args[1]):
                if not self.add_elem(st, args[0], args[1]):
                    self.add_value(st, args[0], m.tag(st, args[1]))
            else:
                self.add_value(st, args[0], TOP)
            return [(st, TOP)]

        def h_insert(m, st, i, fn, args):
            if not re.search(pat, fn.dn.split("::" + fn.sn.rsplit("::", 1)[1])[0]):
                return None
            if len(args) >= 4 and is_ptr(args[2]) and is_ptr(args[3]) and args[2][1][0] == "sym":
                a, b = args[2], args[3]
                if not self.add_range(st, args[0], a, b):
                    self.add_elem(st, args[0], a)
                return [(st, TOP)]
            if len(args) == 3 and is_ptr(args[2]) and not self.add_elem(st, args[0], args[2]):
                self.add_value(st, args[0], m.tag(st, args[2]))
            return [(st, TOP)]
        def h_shrink(m, st, i, fn, args):
            c, o = self.get(st, args[0])
            if self.bad is not None and (c or o):
                self.bad.append(("removed", i.loc, "something that was declared is removed again"))
            return None
        return [H(r"^std::vector::(push_back|emplace_back)$", h_push), H(r"^std::vector::insert$", h_insert), H(r"^std::(copy|move)$", h_copy), H(SHRINK, h_shrink)]


SHRINK = r"^std::vector::(erase|clear|pop_back|resize|assign)$"


def file(ctx):
    """loadSourceFile: everything the file and its recipe declare gets into its entry"""
    p = ctx.prog
    f = p.one(r"^%s::loadSourceFile$" % NS)
    dsize = p.types["Maike::Db::Dependency"]["size"]
    m = ctx.machine(max_states=60000)
    bad = []
    ev = set()
    CTXT, DEPS, LOADER, CMDS, OUT = (("p", (x,), 0) for x in ("Ctxt", "Deps", "Loader", "Cmds", "Out"))
    LC = ("p", ("LoaderCompiler",), 0)
    g = G(col=(), tcol=(), stopped=(), gettags=None, recipe=None, tagobj=None, own=None, info=None, use=0, ctu=0, filt=None, policy=None, used=())
    col = Collect(m, g, dsize, "Dependency", bad=bad)
    tcol = Collect(m, g, p.types["Maike::Db::TargetInfo"]["size"], "TargetInfo", "tcol", bad)
    DT = ("t", "builtindeps")

    def vec(kind):
        def h(m, st, i, fn, args):
            col.settle(st)
            tcol.settle(st)
            m.havoc_range(st, args[0], 24)
            if args[1] != CTXT:
                bad.append(("ctxt", i.loc, "a file is loaded with the context of another one"))
            src = m.tag(st, args[2])
            s2 = st.copy()
            m.settag(st, args[0], ("t", kind, src))
            return [(s2, Throw("_ZTISt13runtime_error")), (st, None)]
        return h

    def h_filter(m, st, i, fn, args):
        ev.add("filter")
        g.put(st, filt=1)
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

    def h_stop(m, st, i, fn, args):
        if not g.get(st, "filt"):
            bad.append(("stop-early", i.loc, "a stream is closed before the file was split into it"))
        g.put(st, stopped=tuple(sorted(set(g.get(st, "stopped") + (args[0],)), key=repr)))
        return [(st, None)]

    def reader_of(m, st, a):
        """the stream a reader handed over (by value or pointer) reads from"""
        if is_ptr(a):
            for off in (0, 8, 16):
                v = m.load(st, ("p", a[1], a[2] + off), 8, "p", peek=True) if isinstance(a[2], int) else TOP
                if is_ptr(v) and v[1][0] == "al":
                    return v
        return None

    def h_deps(m, st, i, fn, args):
        # sret, loader, reader
        ev.add("deps")
        s = reader_of(m, st, args[2]) if len(args) > 2 else None
        use_stream(st, i, s, "source")
        m.havoc_range(st, args[0], 24)
        m.settag(st, args[0], ("t", "scanned"))
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

    def use_stream(st, i, s, what):
        if s is None:
            return
        if s not in g.get(st, "stopped"):
            bad.append(("blocked", i.loc, "a stream that was not closed is read to its end, which never comes"))
        u = dict(g.get(st, "used"))
        if s in [v for k, v in u.items() if k != what]:
            bad.append(("mixed", i.loc, "the %s are read from the wrong stream" % ("dependencies" if what == "source" else "tags")))
        u[what] = s
        g.put(st, used=tuple(sorted(u.items())))

    def h_compound(m, st, i, fn, args):
        if len(args) < 3:
            return None
        ev.add("tags")
        s = reader_of(m, st, args[1])
        use_stream(st, i, s, "tags")
        m.settag(st, args[0], ("t", "tags"))
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

    def h_prep(m, st, i, fn, args):
        if len(fn.params) != 3 or "vector" not in fn.dn.split("(", 1)[1]:
            return None
        m.havoc_range(st, args[0], 24)
        if args[1] != CTXT:
            bad.append(("ctxt", i.loc, "a file is loaded with the context of another one"))
        m.settag(st, args[0], ("t", "prepended", m.tag(st, args[2])))
        return [(st, None)]

    def h_getif(m, st, i, fn, args):
        key = m.cstr(st, args[-1])
        t = m.tag(st, args[1])
        res = args[0]
        n = next((v for k, v in (("Compiler", "compiler"), ("RebuildPolicy", "policy")) if k in fn.dn.split("(")[0].split(">")[0] or k in fn.dn), None)
        if n is None or not is_ptr(res):
            return None
        if n == "compiler" and key not in (b"compiler", None) or n == "policy" and key not in (b"rebuild", None):
            bad.append(("key-" + n, i.loc, "the %s of a file is read under another key" % n))
        out = [(st.copy(), Throw("_ZTISt13runtime_error"))]
        size = int(fn.params[0][2:])
        for v in (0, 1):
            s2 = st.copy()
            g.put(s2, **({"own": v} if n == "compiler" else {"policy": v}))
            m.havoc_range(s2, res, size)
            off = size - (8 if size > 8 else 4 if size == 8 else 1)
            eng[n] = off
            m.store(s2, ("p", res[1], res[2] + off), 1, v)
            m.settag(s2, res, ("t", "own", n))
            out.append((s2, None))
        return out
    eng = {}

    def h_policy(m, st, i, fn, args):
        # optional<RebuildPolicy> is returned in a register
        key = m.cstr(st, args[-1])
        if key not in (b"rebuild", None):
            bad.append(("key-policy", i.loc, "the rebuild policy of a file is read under another key"))
        out = [(st.copy(), Throw("_ZTISt13runtime_error"))]
        for v in (0, 1):
            s2 = st.copy()
            g.put(s2, policy=v)
            out.append((s2, ("agg", (("t", "ownpolicy"), v)) if i.t == "s" else TOP))
        return out

    def compiler_of(m, st, a):
        if a == LC:
            return "loader"
        t = m.tag(st, a)
        if t == ("t", "own", "compiler"):
            return "own"
        if t == ("t", "copyof", "own"):
            return "own"
        if t == ("t", "copyof", "loader"):
            return "loader"
        return None

    def want(st):
        return "own" if g.get(st, "own") else "loader"

    def chk(st, i, a, what):
        c = compiler_of(m, st, a)
        if g.get(st, "own") is not None and c is not None and c != want(st):
            bad.append(("compiler-" + what, i.loc, "%s of another recipe than the one that will be run" % {
                "tags": "the declarations are those", "dep": "the file depends on the script", "ask": "it is the setting"}[what]))

    def h_lcomp(m, st, i, fn, args):
        return [(st, LC)]

    def h_usetags(m, st, i, fn, args):
        chk(st, i, args[0], "ask")
        s2 = st.copy()
        g.put(st, gettags=0)
        g.put(s2, gettags=1)
        return [(st, 0), (s2, 1)]

    def h_gettags(m, st, i, fn, args):
        chk(st, i, args[1], "tags")
        ev.add("gettags")
        m.settag(st, args[0], ("t", "scripttags"))
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

    def h_recipe(m, st, i, fn, args):
        if len(args) != 1:
            return None
        return [(st, ("p", ("sym", ("t", "recipe", want(st) if g.get(st, "own") is not None else "?")), 0))]

    def h_cmp(m, st, i, fn, args):
        if not any(find_term(m.tag(st, a), "recipe") for a in args if is_ptr(a)):
            return None
        ne = fn.sn.endswith("!=")
        s2 = st.copy()
        g.put(st, recipe="none")
        g.put(s2, recipe="some")
        return [(st, int(not ne)), (s2, int(ne))]

    def h_mkdep(m, st, i, fn, args):
        chk(st, i, args[1], "dep")
        m.havoc_range(st, args[0], dsize)
        m.settag(st, args[0], ("t", "recipedep"))
        return [(st, None)]

    def h_resolve(m, st, i, fn, args):
        if args[1] != CMDS:
            bad.append(("commands", i.loc, "a recipe is looked up among other commands than the given ones"))
        g.put(st, info=("resolved",) if g.get(st, "info") is None else g.get(st, "info"))
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, args[0] if i.t == "p" else None)]

    def h_ccopy(m, st, i, fn, args):
        if len(args) == 2 and is_ptr(args[1]) and re.search(r"Compiler( const)?&&?\)", fn.dn):
            c = compiler_of(m, st, args[1])
            m.settag(st, args[0], ("t", "copyof", c) if c else m.tag(st, args[1]))
            return [(st, None)]
        m.settag(st, args[0], ("t", "emptycompiler"))
        return [(st, None)]

    def need(st, i, dest, tags, what):
        col.settle(st)
        tcol.settle(st)
        for t in tags:
            if not (tcol if what == "target" else col).has(st, dest, t) and m.tag(st, dest) != t:
                bad.append(("lost-" + what.split()[0] + "-" + str(t[1])[:5], i.loc, "not every %s declared by %s gets into the entry of the file" % (
                    what, "the recipe" if "scripttags" in repr(t) else "the text of the file" if "scanned" in repr(t) else "its caller" if t == DT else "the tags of the file")))

    def h_info(m, st, i, fn, args):
        if len(args) < 6:
            return None
        ev.add("info")
        ex = [("t", "targets", ("t", "tags"))]
        if g.get(st, "gettags"):
            ex.append(("t", "targets", ("t", "scripttags")))
        if g.get(st, "gettags") is None:
            bad.append(("noask", i.loc, "it is not found out whether the recipe declares something"))
        need(st, i, args[1], ex, "target")
        if compiler_of(m, st, args[3]) == "loader" or g.get(st, "own") == 1 and compiler_of(m, st, args[3]) != "own":
            bad.append(("override", i.loc, "the recipe given by the file itself is not used"))
        elif g.get(st, "own") == 0 and compiler_of(m, st, args[3]) is not None:
            bad.append(("override", i.loc, "a recipe is used as the file's own which it did not give"))
        if g.get(st, "own") == 1 and g.get(st, "info") != ("resolved",):
            bad.append(("unresolved", i.loc, "the recipe given by the file itself is not looked up"))
        pol = [a for a in args[4:]]
        g.put(st, info=("made", args[0], args[5] if len(args) > 5 else None))
        return [(st, None)]

    def h_use(m, st, i, fn, args):
        if len(args) < 2:
            return None
        ex = [DT, ("t", "prepended", ("t", "scanned")), ("t", "usedeps", ("t", "tags"))]
        if g.get(st, "gettags"):
            ex.append(("t", "usedeps", ("t", "scripttags")))
        need(st, i, args[1], ex, "dependency")
        c, o = col.get(st, args[1])
        if ("t", "recipedep") not in o:
            if g.get(st, "recipe") != "none":
                bad.append(("recipedep", i.loc, "a file does not depend on its recipe"))
        g.put(st, use=1)
        return [(st, args[0])]

    def h_ctu(m, st, i, fn, args):
        if len(args) < 2:
            return None
        ex = [("t", "childdeps", ("t", "tags"))]
        if g.get(st, "gettags"):
            ex.append(("t", "childdeps", ("t", "scripttags")))
        need(st, i, args[1], ex, "extra dependency")
        g.put(st, ctu=1)
        return [(st, args[0])]
    NOPE = lambda m, st, i, fn, args: [(st, None)]
    m.hooks = [H(r"::Loader::filterInput$", h_filter), H(r"::Fifo::stop$", h_stop), H(r"::Loader::getDependencies$", h_deps), H(r"::Compound::Compound$", h_compound),
               H(r"::prependSearchPath$", h_prep), H(r"::getTargets$", vec("targets")), H(r"::getUseDeps$", vec("usedeps")), H(r"::getChildTargetUseDeps$", vec("childdeps")),
               H(r"::Compound::getIf$", lambda m, st, i, fn, args: h_getif(m, st, i, fn, args) if fn.params[0].startswith("pr") else h_policy(m, st, i, fn, args)),
               H(r"::Loader::compiler$", h_lcomp), H(r"::Compiler::useGetTags$", h_usetags), H(r"^Maike::Db::getTags$", h_gettags), H(r"::Compiler::recipe$", h_recipe), H(r"^std::filesystem::(__cxx11::)?(operator(==|!=)|path::empty)$", h_cmp),
               H(r"^Maike::Db::makeDependency$", h_mkdep), H(r"::Compiler::resolveRecipe$", h_resolve), H(r"::Compiler::(Compiler|operator=)$", h_ccopy),
               H(r"::SourceFileInfo::SourceFileInfo$", h_info), H(r"::SourceFileInfo::useDeps$", h_use), H(r"::SourceFileInfo::childTargetsUseDeps$", h_ctu),
               H(r"::(Fifo::~?Fifo|InputFile::~?InputFile|Compound::~Compound|Compiler::~Compiler|SourceFileInfo::~SourceFileInfo|Loader::useTargetDeps|SourceFileLoadContext::sourcePath)$", None or (
                   lambda m, st, i, fn, args: [(st, TOP if i.d >= 0 else None)])),
               H(r"^std::optional::~optional$|^std::_Optional_payload.*::~", NOPE)] + col.hooks() + tcol.hooks() + [(STRING, quiet)]
    st = m.start(f, [OUT, CTXT, DEPS, LOADER, CMDS], ghost=g.init, mem={("Deps",): {"hv": True}, ("Ctxt",): {"hv": True}, ("Out",): {"hv": True}, ("LoaderCompiler",): {"hv": True}}, roots=(LC, OUT))
    m.settag(st, DEPS, DT)
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        if not g.get(st, "use") or not g.get(st, "ctu"):
            bad.append(("nodeps", None, "the dependencies do not get into the entry of the file"))
        if g.get(st, "policy") is None:
            bad.append(("nopolicy", None, "the rebuild policy given by the file is not read"))
    if (not n or not {"filter", "deps", "tags", "gettags", "info"} <= ev) and not bad:
        raise AnalysisBroken("loading of a file could not be followed: %d %s" % (n, ev))
    for k in ("targets", "dependencies", "scanned dependencies", "extra dependencies", "own recipe", "declarations of the recipe", "streams closed before they are read"):
        ctx.oblige("file: " + k, True)
    report(ctx, "file", bad, floc(f))


# ---------------------------------------------------------------- JSON values
def jval(key):
    return ("p", ("sym", ("t", "jval", key)), 0)


def jkey(v):
    """the key a JSON value was found under, if it is the value itself"""
    if is_ptr(v) and v[1][0] == "sym" and is_term(v[1][1]) and v[1][1][1] == "jval":
        return v[1][1][2]
    return None


def json_hooks(m, g, bad):
    """objects and arrays: what is looked up is remembered in the ghost component 'keys'"""
    def h_get(m, st, i, fn, args):
        key = m.cstr(st, args[1])
        if key is None:
            return None
        known = dict(g.get(st, "keys"))
        if key in known:
            return [(st, jval(key) if known[key] else 0)]
        s2 = st.copy()
        g.put(st, keys=tuple(sorted(list(known.items()) + [(key, 0)])))
        g.put(s2, keys=tuple(sorted(list(known.items()) + [(key, 1)])))
        m.assume(s2, m.cmp(s2, "eq", jval(key), 0, 64), 0)
        return [(st, 0), (s2, jval(key))]

    def h_size(m, st, i, fn, args):
        k = jkey(args[0])
        return [(st, ("t", "vsize", ("t", "jarr", k)))] if k is not None else None

    def h_at(m, st, i, fn, args):
        k = jkey(args[0])
        if k is None:
            return None
        b = ("p", ("sym", ("t", "vdata", ("t", "jarr", k))), 0)
        return [(st, m.addoff(st, b, 0, [(args[1], 16)]))]

    def h_str(m, st, i, fn, args):
        return [(st, ("p", ("sym", ("t", "jstr", args[0])), 0))] if is_ptr(args[0]) else None
    return [H("^json_object_get$", h_get), H("^json_array_size$", h_size), H("^json_array_get$", h_at), H("^json_string_value$", h_str)]


def h_pathof(m, st, i, fn, args):
    """a path or string made of a C string that is not a constant"""
    if len(args) >= 2 and is_ptr(args[1]) and find_term(args[1], "jstr") is not None:
        t = ("t", "text", args[1])
    elif len(args) >= 2 and is_ptr(args[1]) and args[1][1][0] in ("al", "hp"):
        v = m.load(st, args[1], 8, "p", peek=True)
        c = m.cstr(st, v) if is_ptr(v) and "path<char const*" in fn.dn else None
        if c is not None:
            m.havoc_range(st, args[0], 32)
            m.settag(st, args[0], ("str", c))
            return [(st, None)]
        if find_term(v, "jstr") is None or re.search(r"(path|basic_string)[^(]*\((std::filesystem|std::__cxx11)", fn.dn):
            return None
        t = ("t", "text", v)
    else:
        return None
    m.havoc_range(st, args[0], 32)
    m.settag(st, args[0], t)
    return [(st, None)]


PATHCTOR = H(r"^std::(filesystem::__cxx11::path::path|__cxx11::basic_string::basic_string)$", h_pathof)


def declared(ctx):
    """getTargets, getTarget, getUseDeps, getChildTargetUseDeps: every element of the lists in the tags"""
    p = ctx.prog
    org = p.enum("Maike::Db::SourceFileOrigin")
    dsize, tsize = p.types["Maike::Db::Dependency"]["size"], p.types["Maike::Db::TargetInfo"]["size"]
    OUT, CTXT, TAGS = (("p", (x,), 0) for x in ("Out", "Ctxt", "Tags"))
    bad = []
    spec = [("getUseDeps", "dep", [(b"dependencies", "list", org["Generated"])]), ("getChildTargetUseDeps", "dep", [(b"dependencies_extra", "list", org["Generated"])]),
            ("getTargets", "target", [(b"target", "one", None), (b"targets", "list", None)]),
            ("getTarget", "dep", [(b"name", "name", None), (b"dependencies", "list", org["System"]), (b"pkgconfig_libs", "names", org["PkgConfig"])])]
    nm = {"getUseDeps": "use dependencies", "getChildTargetUseDeps": "extra dependencies", "getTargets": "targets", "getTarget": "a target"}
    for name, kind, keys in spec:
        f = p.one("^%s::%s$" % (NS, name))
        m = ctx.machine(max_states=30000)
        g = G(keys=(), cov=(), one=(), dest=None, name=None, info=0)
        cv = Cover(m, 16)
        want = {k: o for k, how, o in keys}
        sl = nm[name]

        def h_dep(m, st, i, fn, args):
            # sret, ctxt, handle, source, origin
            if args[1] != CTXT:
                bad.append(("ctxt", i.loc, "a dependency is resolved in the context of another file"))
            m.havoc_range(st, args[0], dsize)
            m.settag(st, args[0], ("t", "elem", args[2], m.res(st, args[4]) if is_term(args[4]) else args[4]))
            return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

        def h_target(m, st, i, fn, args):
            if name == "getTarget":
                return None
            if args[1] != CTXT:
                bad.append(("ctxt", i.loc, "a target is named in the context of another file"))
            m.havoc_range(st, args[0], tsize)
            m.settag(st, args[0], ("t", "elem", args[2], None))
            return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

        def h_depctor(m, st, i, fn, args):
            if len(args) == 2:
                m.settag(st, args[0], m.tag(st, args[1]))
                return [(st, None)]
            if len(args) < 4:
                return None
            t = m.tag(st, args[1])
            if is_term(t) and t[1] == "text":
                e = find_term(t, "jstr")[2]
                m.havoc_range(st, args[0], dsize)
                m.settag(st, args[0], ("t", "elem", e, args[2]))
                return [(st, None)]
            return None

        def add(st, i, dest, t):
            if not (is_term(t) and t[1] == "elem"):
                bad.append((name + "-invented", i.loc, "%s: something else than a declared element is added" % sl))
                return
            if g.get(st, "dest") not in (None, dest):
                raise AnalysisBroken("%s: two destinations" % name)
            k = jkey(t[2])
            el = elem_of(t[2])
            key = k if k is not None else el[0][2] if el else None
            if key not in want:
                bad.append((name + "-key", i.loc, "%s: taken from the unknown entry %r" % (sl, key)))
                return
            if want[key] is not None and t[3] != want[key]:
                bad.append((name + "-origin", i.loc, "%s: an element of %s gets another default origin" % (sl, key.decode())))
            if k is not None:
                if key in g.get(st, "one"):
                    bad.append((name + "-twice", i.loc, "%s: %s is added twice" % (sl, key.decode())))
                g.put(st, one=tuple(sorted(set(g.get(st, "one") + (key,)))), dest=dest)
            else:
                g.put(st, cov=cv.visit(g.get(st, "cov"), t[2]), dest=dest)

        def h_push(m, st, i, fn, args):
            if not re.search("Dependency" if kind == "dep" else "TargetInfo", fn.dn.split("::" + fn.sn.rsplit("::", 1)[1])[0]):
                return None
            add(st, i, args[0], m.tag(st, args[1]) if len(args) > 1 and is_ptr(args[1]) else TOP)
            return [(st, TOP)]

        def h_shrink(m, st, i, fn, args):
            if args[0] == g.get(st, "dest"):
                bad.append((name + "-removed", i.loc, "%s: something that was declared is removed again" % sl))
            return None

        def h_name(m, st, i, fn, args):
            t = m.tag(st, args[2])
            m.havoc_range(st, args[0], 40)
            if t != ("t", "text", ("p", ("sym", ("t", "jstr", jval(b"name"))), 0)):
                bad.append((name + "-name", i.loc, "a target gets another name than the declared one"))
            m.settag(st, args[0], ("t", "tname"))
            return [(st, None)]

        def h_tinfo(m, st, i, fn, args):
            if len(args) == 2:
                m.settag(st, args[0], m.tag(st, args[1]))
                return [(st, None)]
            if name != "getTarget" or len(args) != 3:
                return None
            if m.tag(st, args[1]) != ("t", "tname"):
                bad.append((name + "-name", i.loc, "a target gets another name than the declared one"))
            if g.get(st, "dest") not in (None, args[2]):
                bad.append((name + "-lost", i.loc, "the dependencies of a target are lost"))
            g.put(st, info=1)
            return [(st, None)]
        NOPE = lambda m, st, i, fn, args: [(st, None)]
        m.hooks = json_hooks(m, g, bad) + [H("::getDependency$", h_dep), H("::getTarget$", h_target), H("::makeTargetName$", h_name), H(r"Dependency::Dependency$", h_depctor),
                                           H(r"TargetInfo::TargetInfo$", h_tinfo), H(r"(Dependency::~Dependency|TargetInfo::~TargetInfo)$", NOPE),
                                           H(r"^std::vector::(push_back|emplace_back)$", h_push), H(SHRINK, h_shrink), PATHCTOR, H(r"TypeError::TypeError$|KeyLookupError::KeyLookupError$", NOPE)]
        args = [OUT, CTXT, TAGS] if name != "getTarget" else [OUT, CTXT, ("p", ("Json",), 0), ("p", ("Name",), 0)]
        st = m.start(f, args, ghost=g.init, mem={("Out",): {"hv": True}, ("Ctxt",): {"hv": True}, ("Tags",): {"hv": True}},
                     roots=[("t", "vsize", ("t", "jarr", k)) for k in want])
        m.run([st])
        ctx.absorb(m)
        n = 0
        for k2, v, st in m.outcomes:
            if k2 != "ret":
                continue
            n += 1
            known = dict(g.get(st, "keys"))
            if name == "getTarget" and not g.get(st, "info"):
                bad.append((name + "-none", None, "a declared target is not returned"))
            if name != "getTarget" and g.get(st, "dest") not in (None, OUT):
                bad.append((name + "-lost", None, "%s: what was collected is not returned" % sl))
            for key, how, o in keys:
                if key not in known:
                    bad.append((name + "-unread-" + key.decode(), None, "%s: the entry %s is not looked at" % (sl, key.decode())))
                elif known[key] and how in ("list", "names"):
                    tag = ("t", "jarr", key)
                    t, fr, b = cv.get(g.get(st, "cov"), tag)
                    if not (fr == "many" or b == "many" or fr > 2 or b > 2 or m.cmp(st, "ult", fr, ("t", "vsize", tag), 64) == 0 or m.cmp(st, "eq", fr, ("t", "vsize", tag), 64) == 1):
                        bad.append((name + "-some-" + key.decode(), None, "%s: not every element of %s is taken" % (sl, key.decode())))
                elif known[key] and how == "one" and key not in g.get(st, "one"):
                    bad.append((name + "-some-" + key.decode(), None, "%s: %s is ignored" % (sl, key.decode())))
        if not n and not bad:
            raise AnalysisBroken("%s could not be followed" % name)
        for key, how, o in keys:
            ctx.oblige("declared: %s: %s" % (name, key.decode()), True)
    report(ctx, "declared", bad, "core/source_tree_loader/source_file_load_ctxt.cpp")


def dependency(ctx):
    """getDependency: the declared reference, resolved with the declared or default origin, and all other entries as properties"""
    p = ctx.prog
    org = p.enum("Maike::Db::SourceFileOrigin")
    f = p.one("^%s::getDependency$" % NS)
    dsize = p.types["Maike::Db::Dependency"]["size"]
    OUT, CTXT = ("p", ("Out",), 0), ("p", ("Ctxt",), 0)
    m = ctx.machine(max_states=30000)
    bad = []
    REF = ("t", "text", ("p", ("sym", ("t", "jstr", jval(b"ref"))), 0))
    ORG = ("t", "declaredorigin")
    # ent: state of the entry the walk is at: None | 'open' | 'skip' | 'taken';  walked: the walk has come to its end
    g = G(keys=(), ent=None, walked=0, made=0, props=None, cur=None, strs=(), n=0)

    def origin(st):
        k = dict(g.get(st, "keys"))
        return {None: None, 0: ("t", "default"), 1: ORG}[k.get(b"origin")]

    def h_from(m, st, i, fn, args):
        if find_term(args[-1], "jstr") is None or jval(b"origin") != find_term(args[-1], "jstr")[2]:
            bad.append(("origin-text", i.loc, "the origin of a dependency is read from another entry"))
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, ORG)]

    def h_prep(m, st, i, fn, args):
        if len(args) != 4:
            return None
        if args[1] != CTXT:
            bad.append(("ctxt", i.loc, "a dependency is resolved in the context of another file"))
        if m.tag(st, args[2]) != REF:
            bad.append(("ref", i.loc, "another file than the declared one is depended on"))
        if origin(st) is None or args[3] != origin(st):
            bad.append(("resolve-origin", i.loc, "a dependency is resolved with another origin than its own"))
        m.havoc_range(st, args[0], 40)
        m.settag(st, args[0], ("t", "resolved"))
        return [(st, None)]

    def h_dep(m, st, i, fn, args):
        if len(args) < 4:
            return None
        if m.tag(st, args[1]) != ("t", "resolved"):
            bad.append(("name", i.loc, "a dependency gets another name than the resolved one"))
        if origin(st) is None or args[2] != origin(st):
            bad.append(("origin", i.loc, "a dependency gets another origin than %s" % ("the declared one" if origin(st) == ORG else "the default")))
        if g.get(st, "walked") != 1:
            bad.append(("unwalked", i.loc, "not every entry of a dependency is looked at"))
        if g.get(st, "props") not in (None, args[3]):
            bad.append(("props", i.loc, "the properties of a dependency are lost"))
        g.put(st, made=1 if args[0] == OUT else 0)
        return [(st, None)]
    ENT, NEXT = ("p", ("Entry",), 0), None
    VAL = ("p", ("sym", ("t", "entryval")), 0)

    NAMES = (b"ref", b"origin", b"rel", b"re", b"refx", b"ori", b"origins", b"Ref", b"o", b"")
    W = Words(g)

    def h_iter(m, st, i, fn, args):
        if g.get(st, "ent") == "open":
            bad.append(("dropped", i.loc, "an entry of a dependency is neither its reference nor its origin and does not become a property"))
        s2 = st.copy()
        g.put(s2, ent=None, cur=None, walked=1)
        out = [(s2, 0)]
        for k in NAMES:
            s = st.copy()
            g.put(s, ent="skip" if k in (b"ref", b"origin") else "open", cur=k)
            out.append((s, ENT))
        return out

    def h_key(m, st, i, fn, args):
        if g.get(st, "cur") is None:
            raise AnalysisBroken("the name of no entry is asked for")
        return [(st, W.data(m, st, g.get(st, "cur")))]

    def h_val(m, st, i, fn, args):
        return [(st, VAL)]

    def known(h):
        def k(m, st, i, fn, args):
            try:
                return h(m, st, i, fn, args)
            except AnalysisBroken:
                return None
        return k

    def h_prop(m, st, i, fn, args):
        t = [m.tag(st, a) if is_ptr(a) else a for a in args[1:3]]
        raw = list(args[1:3])
        if len(args) == 2:
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        if (W.get(st, raw[0]) if W.get(st, raw[0]) is not None else m.cstr(st, raw[0])) != g.get(st, "cur"):
            bad.append(("propkey", i.loc, "a property of a dependency gets another name than its entry"))
        if "entryval" not in repr(raw[1]) and "entryval" not in repr(t[1]):
            bad.append(("propval", i.loc, "a property of a dependency gets another value than its entry"))
        m.settag(st, args[0], ("t", "property"))
        return [(st, None)]

    def h_push(m, st, i, fn, args):
        if "Property" not in fn.dn.split("::" + fn.sn.rsplit("::", 1)[1])[0]:
            return None
        if g.get(st, "ent") == "skip":
            bad.append(("asprop", i.loc, "the reference or the origin of a dependency becomes a property"))
        elif g.get(st, "ent") == "taken":
            bad.append(("twice", i.loc, "an entry becomes a property twice"))
        g.put(st, ent="taken", props=args[0])
        return [(st, TOP)]

    def h_str(m, st, i, fn, args):
        if len(args) >= 2 and is_ptr(args[1]) and "entryval" in repr(args[1]) and "basic_string" in fn.sn:
            m.settag(st, args[0], ("t", "text", args[1]))
            return [(st, None)]
        return None
    NOPE = lambda m, st, i, fn, args: [(st, None)]
    m.hooks = [H(r"^Maike::Db::fromString$|^Maike::Db::fromJson$", h_from), H("::prependSearchPath$", h_prep), H("Dependency::Dependency$", h_dep), H("Property::Property$", h_prop),
               H("^json_object_iter(_next)?$", h_iter), H("^json_object_iter_key$", h_key), H("^json_object_iter_value$", h_val), 
               H(r"^std::vector::(push_back|emplace_back)$", h_push), H(r"basic_string::basic_string$", h_str), PATHCTOR, H("Property::~Property$", NOPE)] + \
        json_hooks(m, g, bad) + [H(r"TypeError::TypeError$|KeyLookupError::KeyLookupError$", NOPE)] + [(r, known(h)) for r, h in W.hooks() if "path" not in r.pattern]
    m.int_lim, m.count_lim, m.off_lim = 1 << 20, 10000, 10000
    st = m.start(f, [OUT, CTXT, ("p", ("Json",), 0), ("p", ("Name",), 0), ("t", "default")], ghost=g.init, mem={("Out",): {"hv": True}, ("Ctxt",): {"hv": True}})
    m.assume(st, m.cmp(st, "eq", ENT, 0, 64), 0)
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if not g.get(st, "made"):
                bad.append(("none", None, "a declared dependency is not returned"))
            k = dict(g.get(st, "keys"))
            if k.get(b"ref") != 1:
                bad.append(("noref", None, "a dependency without a reference is accepted"))
            if b"origin" not in k:
                bad.append(("noorigin", None, "the declared origin of a dependency is not looked at"))
    if not n and not bad:
        raise AnalysisBroken("getDependency could not be followed")
    for k in ("the declared reference", "the declared or default origin", "every other entry becomes a property"):
        ctx.oblige("dependency: " + k, True)
    report(ctx, "dependency", bad, floc(f))


def strip(t):
    """path expression without intermediate normalisations"""
    if type(t) is not tuple:
        return t
    if len(t) == 3 and t[0] == "t" and t[1] == "normal":
        return strip(t[2])
    return tuple(strip(x) for x in t)


def paths(ctx):
    """where targets and dependencies are looked for"""
    p = ctx.prog
    org = p.enum("Maike::Db::SourceFileOrigin")
    ty = "%s::SourceFileLoadContext" % NS
    OUT, CTXT, NAME = (("p", (x,), 0) for x in ("Out", "Ctxt", "Name"))
    FD, SD, TD, N, SP = (("t", x) for x in ("filedir", "srcdir", "tgtdir", "name", "srcpath"))
    bad = []
    tn = p.one("^%s::makeTargetName$" % NS)
    ps = p.one("^%s::prependSearchPath$" % NS, lambda f: len(f.params) == 4)
    results = {}

    def explore(f, args, text):
        m = ctx.machine(max_states=20000)
        m.int_lim, m.count_lim, m.off_lim = 1 << 20, 10000, 10000
        g = G(strs=())
        W = Words(g)

        def getter(t):
            return lambda m, st, i, fn, a: [(st, ("p", (t[1],), 0))] if not fn.params[0].startswith("pr") else None

        def h_string(m, st, i, fn, a):
            sret = fn.params[0].startswith("pr")
            q = a[1] if sret else a[0]
            if m.tag(st, q) != N:
                raise AnalysisBroken("the text of another path is looked at")
            if fn.sn.endswith("::c_str"):
                return [(st, W.data(m, st, text))]
            if fn.sn.endswith("::empty"):
                return [(st, int(not text))]
            W.put(st, a[0] if sret else q, text)
            return [(st, None if sret else q)]
        words = [h for h in W.hooks() if "path" not in h[0].pattern]
        m.hooks = [H("SourceFileLoadContext::sourceFileDir$", getter(FD)), H("SourceFileLoadContext::targetDir$", getter(TD)), H("SourceFileLoadContext::sourceDir$", getter(SD)),
                   H(r"path::(string|native|c_str|generic_string|u8string|empty)$", h_string)] + words + path_hooks()
        mem = {(t[1],): {"hv": True} for t in (FD, SD, TD)}
        mem[("Name",)] = {"hv": True}
        mem[("Out",)] = {"hv": True}
        st = m.start(f, args, ghost=g.init, mem=mem, roots=[("p", (t[1],), 0) for t in (FD, SD, TD)])
        for t in (FD, SD, TD):
            m.settag(st, ("p", (t[1],), 0), t)
        m.settag(st, NAME, N)
        m.run([st])
        ctx.absorb(m)
        return {m.tag(st, OUT) for kind, v, st in m.outcomes if kind == "ret"}
    J = lambda a, b: ("t", "join", a, b)
    R = lambda a, b: ("t", "relative", a, b)
    # targets
    r = explore(tn, [OUT, CTXT, NAME], b"x")
    if not r or any(t == TOP for t in r):
        raise AnalysisBroken("makeTargetName could not be followed")
    for t in r:
        if strip(t) != J(TD, R(J(FD, N), SD)):
            bad.append(("target", floc(tn), "a target is not placed below the target directory where its source file is below the source directory"))
        elif t[1] != "normal":
            bad.append(("target-normal", floc(tn), "the name of a target is not normalised"))
    # dependencies
    for o, v in sorted(org.items()):
        for text in (b"./x", b"./a/b", b"./.x", b".//x", b"./../x", b".x", b"..x", b"x", b"../x", b"../../x", b"a", b"ab", b"a/./x", b"x/./y", b"a./b", b"/x", b"-/x", b". /x", b"./x y", b"x/", b".a/b", b"/./x"):
            r = explore(ps, [OUT, CTXT, NAME, v], text)
            if not r or any(t == TOP for t in r):
                raise AnalysisBroken("prependSearchPath could not be followed")
            dot = text.startswith(b"./")
            e = J(FD if dot else SD, N)
            if o == "Generated":
                e = J(TD, R(e, SD))
            for t in r:
                if o not in ("Project", "Generated"):
                    if t != N:
                        bad.append(("external", floc(ps), "the name of a dependency of origin %s is changed" % o))
                elif strip(t) != e:
                    bad.append(("where-" + o, floc(ps), "a dependency of origin %s %s is looked for in the wrong place" % (o, "relative to the file" if dot else "relative to the project")))
                elif t[1] != "normal":
                    bad.append(("normal", floc(ps), "the name of a dependency is not normalised, so that it is not found"))
    for k in ("targets", "project files", "generated files", "external names unchanged"):
        ctx.oblige("paths: " + k, True)
    report(ctx, "paths", bad, floc(ps))




def elements(ctx):
    """the scanned dependencies are resolved one by one"""
    p = ctx.prog
    bad = []
    dsize = p.types["Maike::Db::Dependency"]["size"]
    OUT, CTXT, V = (("p", (x,), 0) for x in ("Out", "Ctxt", "Vec"))
    f = p.one("^%s::prependSearchPath$" % NS, lambda f: len(f.params) == 3 and "vector" in f.dn)
    m = ctx.machine(max_states=10000)
    cv = Cover(m, dsize)
    g = G(cov=())

    def h_one(m, st, i, fn, args):
        if len(args) != 3 or "vector" in fn.dn.split("(", 1)[1]:
            return None
        if args[1] != CTXT:
            bad.append(("ctxt", i.loc, "a dependency is resolved in the context of another file"))
        m.havoc_range(st, args[0], dsize)
        m.settag(st, args[0], ("t", "res", args[2]))
        return [(st, None)]

    def h_push(m, st, i, fn, args):
        t = m.tag(st, args[1])
        if is_term(t) and t[1] == "res" and elem_of(t[2]) is not None:
            g.put(st, cov=cv.visit(g.get(st, "cov"), t[2]))
        else:
            bad.append(("raw", i.loc, "a dependency found in a file is not resolved"))
        if args[0] != OUT:
            raise AnalysisBroken("prependSearchPath: collects elsewhere")
        return [(st, TOP)]
    NOPE = lambda m, st, i, fn, args: [(st, None)]
    m.hooks = [H("::prependSearchPath$", h_one), H(r"^std::vector::(push_back|emplace_back)$", h_push), H(r"^std::vector::reserve$", NOPE), H("Dependency::~Dependency$", NOPE)]
    m.run([m.start(f, [OUT, CTXT, V], ghost=g.init, mem={("Out",): {"hv": True}, ("Vec",): {"hv": True}})])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if not cv.complete(st, g.get(st, "cov"), V):
                bad.append(("some", None, "not every dependency found in a file is resolved"))
    if not n and not bad:
        raise AnalysisBroken("prependSearchPath(vector) could not be followed")
    # one of them: name, origin and properties are kept
    f1 = p.one("^%s::prependSearchPath$" % NS, lambda f: len(f.params) == 3 and "vector" not in f.dn)
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name of a dependency")
    ooff = field(p, "Maike::Db::Dependency", lambda n, t: t == "Maike::Db::SourceFileOrigin", "the origin of a dependency")
    poff = field(p, "Maike::Db::Dependency", lambda n, t: "vector" in t, "the properties of a dependency")
    DEP = ("p", ("Dep",), 0)
    ORG = ("t", "deporigin")
    m = ctx.machine(max_states=4000)
    g = G(made=0)

    def h_path(m, st, i, fn, args):
        if len(args) != 4:
            return None
        if m.tag(st, args[2]) != ("t", "depname") or args[3] != ORG or args[1] != CTXT:
            bad.append(("one-args", i.loc, "a dependency is resolved with another name or origin than its own"))
        m.settag(st, args[0], ("t", "resolved"))
        return [(st, None)]

    def h_dep(m, st, i, fn, args):
        if len(args) != 4:
            return None
        if m.tag(st, args[1]) != ("t", "resolved") or args[2] != ORG or m.tag(st, args[3]) != ("t", "depprops"):
            bad.append(("one", i.loc, "a resolved dependency loses its name, origin or properties"))
        g.put(st, made=1)
        return [(st, None)]

    def h_vcopy(m, st, i, fn, args):
        if len(args) == 2 and is_ptr(args[1]):
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        return None
    m.hooks = [H("::prependSearchPath$", h_path), H("Dependency::Dependency$", h_dep), H("^std::vector::vector$", h_vcopy), H("^std::vector::~vector$", NOPE)]
    st = m.start(f1, [OUT, CTXT, DEP], ghost=g.init, mem={("Out",): {"hv": True}, ("Dep",): {ooff: (4, ORG), "hv": True}})
    m.settag(st, ("p", ("Dep",), noff), ("t", "depname"))
    m.settag(st, ("p", ("Dep",), poff), ("t", "depprops"))
    m.run([st])
    ctx.absorb(m)
    if not any(k == "ret" and g.get(s, "made") for k, v, s in m.outcomes) and not bad:
        raise AnalysisBroken("prependSearchPath(dependency) could not be followed")
    ctx.oblige("scanned dependencies: each one resolved", True)
    ctx.oblige("scanned dependencies: origin and properties kept", True)
    report(ctx, "scanned", bad, floc(f))


def delegate(ctx):
    """SourceFileLoaderDelegator::load: directories, files with a loader and other files"""
    p = ctx.prog
    C = "%s::SourceFileLoaderDelegator" % NS
    f = p.one("^%s::load$" % C)
    OUT, PATH, SDIR, TD = (("p", (x,), 0) for x in ("Out", "Path", "Sdir", "Tdir"))
    S, R, T = ("t", "srcpath"), ("t", "rootdir"), ("t", "targetdir")
    REC = ("t", "dirrecipe")
    dsize = p.types["Maike::Db::Dependency"]["size"]
    moff = field(p, C, lambda n, t: "map<" in t, "the loaders")
    coff = field(p, C, lambda n, t: "Compiler" in t and "map<" not in t, "the recipe for directories")
    doff = field(p, C, lambda n, t: "CommandDictionary" in t, "the commands")
    DC, CMDS, LDR = ("p", ("DirCompiler",), 0), ("p", ("Cmds",), 0), ("p", ("TheLoader",), 0)
    LEND = ("p", ("LoadersEnd",), 0)
    HITN = ("p", ("LoaderHit",), 0)
    m = ctx.machine(max_states=30000)
    bad = []
    g = G(isdir=None, hit=None, deps=(), tgt=None, made=None, eqs=())

    def eq(st, a, b):
        d = dict(g.get(st, "eqs"))
        return d.get((a, b), d.get((b, a)))

    def h_eq(m, st, i, fn, args):
        if "path" not in fn.dn.split("(", 1)[1]:
            return None
        a, b = m.tag(st, args[0]), m.tag(st, args[1])
        ne = fn.sn.endswith("!=")
        if TOP in (a, b):
            return None
        v = eq(st, a, b)
        if v is not None:
            return [(st, v ^ ne)]
        out = []
        for v in (0, 1):
            s2 = st.copy()
            g.put(s2, eqs=tuple(sorted(g.get(st, "eqs") + (((a, b), v),), key=repr)))
            out.append((s2, v ^ ne))
        return out

    def h_isdir(m, st, i, fn, args):
        if m.tag(st, args[0]) not in (S, norm(S)):
            return None
        v = g.get(st, "isdir")
        if v is not None:
            return [(st, v)]
        out = [(st.copy(), Throw("_ZTISt13runtime_error"))]
        for v in (0, 1):
            s2 = st.copy()
            g.put(s2, isdir=v)
            out.append((s2, v))
        return out

    def h_ctxt(m, st, i, fn, args):
        if len(args) != 4:
            return None
        if [m.tag(st, a) for a in args[1:]] != [S, R, T]:
            bad.append(("ctxt", i.loc, "a file is loaded with another path, source directory or target directory"))
        m.settag(st, args[0], ("t", "ctxt"))
        return [(st, None)]

    def h_fdir(m, st, i, fn, args):
        return [(st, ("p", ("FileDir",), 0))]

    def h_dep(m, st, i, fn, args):
        if len(args) == 2:
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        if len(args) < 4:
            return None
        t = m.tag(st, args[1])
        m.settag(st, args[0], ("t", "dirdep") if t == ("t", "filedir") else ("t", "otherdep"))
        return [(st, None)]

    def h_mkdep(m, st, i, fn, args):
        m.havoc_range(st, args[0], dsize)
        m.settag(st, args[0], ("t", "recipedep") if args[1] == DC else ("t", "otherdep"))
        return [(st, None)]

    def h_push(m, st, i, fn, args):
        if "Dependency" not in fn.dn.split("::" + fn.sn.rsplit("::", 1)[1])[0]:
            return None
        t = m.tag(st, args[1]) if len(args) > 1 and is_ptr(args[1]) else TOP
        g.put(st, deps=g.get(st, "deps") + (t[1] if is_term(t) else "?",))
        return [(st, TOP)]

    def h_match(m, st, i, fn, args):
        if m.tag(st, args[0]) not in (S, norm(S)) or args[1] != ("p", ("This",), moff):
            bad.append(("match", i.loc, "the loader is chosen by another name or among other loaders"))
        s2 = st.copy()
        g.put(st, hit=0)
        g.put(s2, hit=1)
        return [(st, LEND), (s2, HITN)]

    def h_end(m, st, i, fn, args):
        return [(st, LEND)] if args[0] == ("p", ("This",), moff) else None

    def deps_ok(st, i, isdir):
        want = []
        top, rec = eq(st, S, R), eq(st, S, REC)
        d = g.get(st, "deps")
        if top == 0 and rec == 0:
            want.append("dirdep")
        elif top is None and rec is None:
            bad.append(("dirdep", i.loc, "whether a file depends on its directory does not depend on whether it is the root"))
            return
        if isdir:
            want.append("recipedep")
        if top == 1 and "dirdep" in d:
            bad.append(("rootdep", i.loc, "the root directory is made to depend on a directory outside of the project"))
        elif rec == 1 and "dirdep" in d:
            bad.append(("cycle", i.loc, "the script that makes directories is made to depend on a directory, which depends on it"))
        elif sorted(d) != sorted(want):
            bad.append(("deps", i.loc, "%s gets the wrong dependencies: %s instead of %s" % ("a directory" if isdir else "a file", ", ".join(d) or "none", ", ".join(want) or "none")))

    def h_file(m, st, i, fn, args):
        if m.tag(st, args[1]) != ("t", "ctxt"):
            bad.append(("ctxt2", i.loc, "a file is loaded in the context of another one"))
        if g.get(st, "isdir") == 1:
            bad.append(("dirfile", i.loc, "a directory is read like a file"))
        if g.get(st, "hit") != 1:
            bad.append(("noloader", i.loc, "a file is loaded without a loader for it"))
        if args[3] != LDR:
            bad.append(("loader", i.loc, "a file is loaded by another loader than the one found for it"))
        if args[4] != CMDS:
            bad.append(("cmds", i.loc, "a file is loaded with other commands"))
        deps_ok(st, i, False)
        g.put(st, made="file" if args[0] == OUT else None)
        return [(st.copy(), Throw("_ZTISt13runtime_error")), (st, None)]

    def h_info(m, st, i, fn, args):
        if len(args) == 2:
            return None
        if len(args) >= 5:
            if g.get(st, "isdir") != 1:
                bad.append(("filedir", i.loc, "a file is treated like a directory"))
            if g.get(st, "tgt") != 1:
                bad.append(("dirtarget", i.loc, "the target of a directory is not named like it"))
            deps_ok(st, i, True)
            g.put(st, made="dir")
        else:
            if g.get(st, "isdir") == 1:
                bad.append(("dirplain", i.loc, "a directory gets no target"))
            if g.get(st, "hit") == 1:
                bad.append(("unloaded", i.loc, "a file with a loader is not loaded"))
            if g.get(st, "hit") is None:
                bad.append(("nomatch", i.loc, "no loader is looked for"))
            g.put(st, made="plain")
        return [(st, None)]

    def h_tname(m, st, i, fn, args):
        if m.tag(st, args[1]) == ("t", "ctxt") and m.tag(st, args[2]) == ("t", "filename", S):
            g.put(st, tgt=1)
        return [(st, None)]

    def h_use(m, st, i, fn, args):
        return [(st, args[0])] if len(args) > 1 else None
    NOPE = lambda m, st, i, fn, args: [(st, TOP if i.d >= 0 else None)]

    def cmph(st, pred, a, b, w):
        for x, y in ((a, b), (b, a)):
            if pred == "eq" and x == LEND and y == HITN:
                return 0
        return None
    m.cmp_hook = cmph
    m.hooks = [H(r"^std::filesystem::(__cxx11::)?operator(==|!=)$", h_eq), H("^std::filesystem::is_directory$", h_isdir), H("SourceFileLoadContext::SourceFileLoadContext$", h_ctxt),
               H("SourceFileLoadContext::sourceFileDir$", h_fdir), H("Dependency::Dependency$", h_dep), H("^Maike::Db::makeDependency$", h_mkdep),
               H(r"^std::vector::(push_back|emplace_back)$", h_push), H("^Maike::matchLongestExtension$", h_match), H("^std::map::c?end$", h_end), H("::loadSourceFile$", h_file),
               H("SourceFileInfo::SourceFileInfo$", h_info), H("::makeTargetName$", h_tname), H("SourceFileInfo::useDeps$", h_use),
               H("Compiler::recipe$", lambda m, st, i, fn, args: [(st, ("p", ("Recipe",), 0))] if args[0] == DC else None),
               H("(TargetInfo::~?TargetInfo|Compiler::~?Compiler|SourceFileInfo::~SourceFileInfo|SourceFileLoadContext::~SourceFileLoadContext|Dependency::~Dependency)$", NOPE),
               H("^std::vector::(vector|~vector)$", NOPE)] + path_hooks()
    mem = {("This",): {coff: (8, DC), doff: (8, CMDS), "hv": True}, ("LoaderHit",): {64: (8, LDR), "hv": True}}
    for o, t in (("Path", S), ("Sdir", R), ("Tdir", T), ("Recipe", REC), ("FileDir", ("t", "filedir"))):
        mem[(o,)] = {"hv": True}
    mem[("Out",)] = {"hv": True}
    st = m.start(f, [OUT, THIS, PATH, SDIR, TD], ghost=g.init, mem=mem, roots=[("p", (o,), 0) for o in ("Recipe", "FileDir", "LoaderHit", "LoadersEnd")])
    for o, t in (("Path", S), ("Sdir", R), ("Tdir", T), ("Recipe", REC), ("FileDir", ("t", "filedir"))):
        m.settag(st, ("p", (o,), 0), t)
    m.run([st])
    ctx.absorb(m)
    seen = set()
    for kind, v, st in m.outcomes:
        if kind == "ret":
            seen.add(g.get(st, "made"))
    if None in seen:
        bad.append(("none", None, "a file gets no entry"))
    if not {"file", "dir", "plain"} <= seen and not bad:
        raise AnalysisBroken("the choice of a loader could not be followed: %s" % seen)
    for k in ("directories", "files with a loader", "other files", "dependency on the directory"):
        ctx.oblige("entry: " + k, True)
    report(ctx, "entry", bad, floc(f))
