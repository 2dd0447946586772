"""Recipes: how they are found, configured, asked and run."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .common import field, Cover, elem_of, find_term, MapWalk
from .sources import G, STRING, quiet, RTE
from .tasks import report, THIS
from .scan import path_hooks
from .sched import LOCKS

H = lambda r, h: (re.compile(r), h)
NOPE = lambda m, st, i, fn, args: [(st, TOP if i.d >= 0 else None)]
EMPTY = ("str", b"")
P = lambda n: ("p", (n,), 0)


def is_empty(m, st, t):
    """1, 0 or None: the text is empty"""
    if t == EMPTY:
        return 1
    if type(t) is tuple and t[0] == "str":
        return 0
    r = m.cmp(st, "eq", t, EMPTY, 64)
    return r if r in (0, 1) else None


def unnorm(t):
    while is_term(t) and t[1] == "normal":
        t = t[2]
    return t


# ---------------------------------------------------------------- finding a recipe
def lookup(ctx):
    """CommandDictionary::get: the project comes first, then the system; the same answer every time"""
    p = ctx.prog
    cls = "Maike::SourceTreeLoader::CommandDictionary"
    org = p.enum("Maike::Db::SourceFileOrigin")
    f = p.one("^%s::get$" % cls)
    moff = field(p, cls + "::Content", lambda n, t: "map<" in t, "the known commands")
    soff = field(p, cls + "::Content", lambda n, t: re.search(r"(array|path\s*\[)", t), "the search paths")
    poff = field(p, cls, lambda n, t: "Content" in t, "the contents")
    psz = p.types["std::filesystem::__cxx11::path"]["size"] if "std::filesystem::__cxx11::path" in p.types else 40
    OUT, CMD, CONT, CELL = P("Out"), P("Cmd"), P("Content"), P("Cell")
    MAP = ("p", ("Content",), moff)
    SEARCH = [("p", ("Content",), soff), ("p", ("Content",), soff + psz)]
    DIRS = [("t", "projectdir"), ("t", "systemdir")]
    CT = ("t", "command")
    bad = []
    ev = set()
    m = ctx.machine(max_states=20000)
    g = G(locks=(), hit=None, tried=(), cell=0)

    def h_lock(m, st, i, fn, args):
        op = fn.sn.split("_")[-1]
        l = dict(g.get(st, "locks"))
        if op == "unlock":
            l.pop(args[0], None)
        else:
            if args[0] in l:
                bad.append(("relock", i.loc, "a lock is taken twice by the same thread, which never returns"))
                return [(st, Stop("cut"))]
            l[args[0]] = "r" if op == "rdlock" else "w"
        g.put(st, locks=tuple(sorted(l.items(), key=repr)))
        return [(st, 0)]

    def locked(st, i, w):
        l = [v for k, v in g.get(st, "locks") if k[1] == ("Content",)]
        if not l or w and "w" not in l:
            bad.append(("unlocked", i.loc, "the known recipes are %s without a lock that excludes others" % ("changed" if w else "looked at")))

    def h_find(m, st, i, fn, args):
        if args[0] != MAP:
            return None
        locked(st, i, False)
        ev.add("find")
        if m.tag(st, args[1]) != CT:
            bad.append(("key", i.loc, "another recipe than the wanted one is looked for"))
        s2 = st.copy()
        g.put(st, hit=0)
        g.put(s2, hit=1)
        return [(st, P("MapEnd")), (s2, P("Hit"))]

    def h_end(m, st, i, fn, args):
        return [(st, P("MapEnd"))] if args[0] == MAP else None

    def h_count(m, st, i, fn, args):
        r = h_find(m, st, i, fn, args)
        return None if r is None else [(s, int(v == P("Hit"))) for s, v in r]

    def h_at(m, st, i, fn, args):
        r = h_find(m, st, i, fn, args) if g.get(st, "hit") is None else [(st, P("Hit") if g.get(st, "hit") else 0)]
        return None if r is None else [(s, ("p", ("Hit",), hoff)) if v == P("Hit") else (s, Throw("_ZTISt12out_of_range")) for s, v in r]

    def h_index(m, st, i, fn, args):
        if args[0] != MAP:
            return None
        locked(st, i, True)
        if m.tag(st, args[1]) != CT:
            bad.append(("storekey", i.loc, "a recipe is remembered under another name"))
        g.put(st, cell=1)
        return [(st, CELL)]

    def h_put(m, st, i, fn, args):
        if args[0] != MAP:
            return None
        locked(st, i, True)
        k, v = (args[-2], args[-1]) if len(args) >= 3 else (None, None)
        if k is not None and is_ptr(v):
            if m.tag(st, k) != CT:
                bad.append(("storekey", i.loc, "a recipe is remembered under another name"))
            m.settag(st, CELL, m.tag(st, v))
            m.store(st, ("p", ("Cell",), psz), 4, m.load(st, ("p", v[1], v[2] + psz), 4, "i32"))
            g.put(st, cell=1)
        return [(st, ("agg", (P("Hit"), TOP)) if i.t == "s" else TOP if i.d >= 0 else None)]

    def h_regular(m, st, i, fn, args):
        t = unnorm(m.tag(st, args[0]))
        if not (is_term(t) and t[1] == "join" and t[2] in DIRS and t[3] == CT):
            if t != TOP:
                bad.append(("where", i.loc, "a recipe is looked for somewhere else than in the project and the system directory"))
            return [(st, 0), (st.copy(), 1)] if t == TOP else [(st, Stop("cut"))]
        k = DIRS.index(t[2])
        known = dict(g.get(st, "tried"))
        if k in known:
            return [(st, known[k])]
        ev.add(("tried", k))
        out = []
        for v in (0, 1):
            s2 = st.copy()
            known[k] = v
            g.put(s2, tried=tuple(sorted(known.items())))
            out.append((s2, v))
        if len(args) < 2:
            out.append((st.copy(), Throw("_ZTINSt10filesystem7__cxx1116filesystem_errorE")))
        return out

    def h_weak(m, st, i, fn, args):
        return [(st.copy(), 0), (st, 1)]
    m.hooks = [H("^(%s)$" % LOCKS, h_lock), H(r"^std::(unordered_)?map::(find|lower_bound)$", h_find), H(r"^std::(unordered_)?map::c?end$", h_end), H(r"^std::(unordered_)?map::(operator\[\])$", h_index),
               H(r"^std::(unordered_)?map::(insert_or_assign|emplace|try_emplace)$", h_put), H(r"^std::(unordered_)?map::(count|contains)$", h_count), H(r"^std::(unordered_)?map::at$", h_at), H(r"^std::filesystem::is_regular_file$", h_regular),
               H(r"^std::filesystem::(exists|is_directory|is_other)$", h_weak)] + path_hooks()
    mem = {("This",): {poff: (8, CONT)}, ("Content",): {"hv": True}, ("Out",): {"hv": True}, ("Hit",): {"hv": True}, ("Cell",): {"hv": True}, ("Cmd",): {"hv": True}}
    st = m.start(f, [OUT, THIS, CMD], ghost=g.init, mem=mem, roots=[CONT, OUT, CELL, P("Hit"), CT, EMPTY, CMD, THIS])
    m.settag(st, CMD, CT)
    for a, t in zip(SEARCH, DIRS):
        m.settag(st, a, t)
    hoff = 32 + psz         # a node of the map: links, key, path, origin
    m.settag(st, ("p", ("Hit",), hoff), ("t", "cachedpath"))
    m.store(st, ("p", ("Hit",), hoff + psz), 4, ("t", "cachedorigin"))
    m.run([st])
    ctx.absorb(m)
    n = set()
    for kind, v, st in m.outcomes:
        t = m.tag(st, OUT)
        o = m.load(st, ("p", ("Out",), psz), 4, "i32", peek=True)
        e = is_empty(m, st, CT)
        tried = dict(g.get(st, "tried"))
        if kind in ("exc", "terminate"):
            if kind == "exc" and not (tried == {0: 0, 1: 0}) and v == RTE:
                bad.append(("fail", None, "a recipe that exists is reported as missing"))
            if g.get(st, "locks"):
                bad.append(("held", None, "a lock is left behind by a failing lookup"))
            if kind == "terminate":
                bad.append(("terminate", None, "a lookup ends the program"))
            n.add("exc")
            continue
        if kind != "ret":
            continue
        if g.get(st, "locks"):
            bad.append(("held", None, "a lookup returns with a lock held"))
        if g.get(st, "hit"):
            n.add("hit")
            if t != ("t", "cachedpath") or o != ("t", "cachedorigin"):
                bad.append(("cache", None, "the answer to a repeated lookup is not the one that was remembered"))
            continue
        if e == 1:
            n.add("empty")
            if is_empty(m, st, t) != 1 and t != CT:
                bad.append(("empty", None, "looking for no recipe finds one"))
            elif o != org["Project"]:
                bad.append(("empty-origin", None, "no recipe is taken for one from elsewhere"))
            continue
        hit = [k for k in (0, 1) if tried.get(k) == 1]
        u = unnorm(t)
        want = 0 if tried.get(0) == 1 else 1 if tried.get(0) == 0 and tried.get(1) == 1 else None
        if want is None:
            bad.append(("order" if hit else "missing", None, "a recipe of the system is used without looking for one in the project" if hit else "a recipe is found that does not exist"))
            continue
        n.add(("dir", want))
        if u != ("t", "join", DIRS[want], CT) or t == u:
            bad.append(("path", None, "a recipe in the %s directory is found under another path" % ("project", "system")[want]))
        if o != org[("Project", "System")[want]]:
            bad.append(("origin", None, "a recipe in the %s directory gets another origin" % ("project", "system")[want]))
        if g.get(st, "cell") and (m.tag(st, CELL) != t or m.load(st, ("p", ("Cell",), psz), 4, "i32", peek=True) != o):
            bad.append(("remember", None, "another answer is remembered than the one given"))
    if not bad and not {"exc", "empty", ("dir", 0), ("dir", 1)} <= n:
        raise AnalysisBroken("the lookup of recipes could not be followed: %s" % n)
    # the two directories
    for name, k in (("projectDir", 0), ("systemDir", 1)):
        for f2 in p.find("^%s::%s$" % (cls, name)):
            if f2.decl or len(f2.params) != 2:
                continue
            m2 = ctx.machine(max_states=1000)
            m2.hooks = []
            st = m2.start(f2, [THIS, P("Dir")], mem={("This",): {poff: (8, CONT)}, ("Content",): {"hv": True}}, roots=[CONT])
            m2.settag(st, P("Dir"), ("t", "newdir"))
            for a, t in zip(SEARCH, DIRS):
                m2.settag(st, a, t)
            m2.run([st])
            ctx.absorb(m2)
            for kind, v, st in m2.outcomes:
                if kind == "ret" and [m2.tag(st, a) for a in SEARCH] != [("t", "newdir") if j == k else DIRS[j] for j in (0, 1)]:
                    bad.append(("set-" + name, floc(f2), "setting the %s directory for recipes does not have that effect" % ("project", "system")[k]))
    for k in ("no recipe", "project first", "system second", "missing", "remembered answer", "under the lock", "the directories"):
        ctx.oblige("lookup: " + k, True)
    report(ctx, "lookup", bad, floc(f))


# ---------------------------------------------------------------- talking to a recipe
class Built:
    """JSON objects and lists that are being made, and texts and argument lists made of them.

    ghost component 'js': tuple of (address, kind, entries); an object's entries are (key, value) pairs, a list's
    the coverage of the vectors whose elements were added and other values"""

    def __init__(self, m, g, bad):
        self.m, self.g, self.bad = m, g, bad

    def get(self, st, a):
        for x in self.g.get(st, "js"):
            if x[0] == a:
                return x
        return None

    def put(self, st, a, kind, e):
        self.g.put(st, js=tuple(sorted([x for x in self.g.get(st, "js") if x[0] != a] + [(a, kind, e)], key=repr)))

    def value(self, st, a):
        """what is at the address: a made object, a text or a number"""
        m = self.m
        if not is_ptr(a):
            return a
        x = self.get(st, a)
        if x is not None:
            return ("t",) + x[1:]
        t = m.tag(st, a)
        if t not in (TOP, None) and not (is_term(t) and t[1] == "tag0"):
            return t
        v = m.load(st, a, 8, "p", peek=True) if isinstance(a[2], int) else TOP
        if is_ptr(v):
            c = find_term(v, "cstr")
            if c is not None and v[1] == ("sym", c):
                return c[2]
            s = m.cstr(st, v)
            if s is not None:
                return ("str", s)
            return v
        if v not in (TOP, None):
            return v
        v = m.load(st, a, 4, "i32", peek=True)
        return a if v in (TOP, None) else v

    def hooks(self, cov=None):
        m = self.m

        def h_new(m, st, i, fn, args):
            kind = "obj" if "::Compound" in fn.sn else "list"
            if len(args) == 1:
                self.put(st, args[0], kind, ())
                return [(st, None)]
            x = self.get(st, args[1]) if is_ptr(args[1]) else None
            if len(args) == 2 and x is not None:
                self.put(st, args[0], x[1], x[2])
                return [(st, None)]
            if len(args) == 2 and re.search(r"(Compound|Array)( const)?&&?\)$", fn.dn):
                m.settag(st, args[0], m.tag(st, args[1]))
                return [(st, None)]
            return None

        def h_set(m, st, i, fn, args):
            x = self.get(st, args[0])
            k = m.cstr(st, args[1])
            if x is None or x[1] != "obj":
                return None
            if k is None:
                # a key that is not a constant
                k = find_term(args[1], "cstr") if is_ptr(args[1]) else None
                if k is None or args[1][1] != ("sym", k):
                    return None
                self.keyed(st, x, k[2], self.value(st, args[2]))
                return [(st.copy(), Throw(RTE)), (st, args[0])]
            self.put(st, args[0], "obj", tuple(sorted([e for e in x[2] if e[0] != k] + [(k, self.value(st, args[2]))], key=repr)))
            return [(st.copy(), Throw(RTE)), (st, args[0])]

        def h_append(m, st, i, fn, args):
            x = self.get(st, args[0])
            if x is None or x[1] != "list":
                return None
            v = self.value(st, args[1])
            self.put(st, args[0], "list", self.added(x[2], v, args[1]))
            return [(st.copy(), Throw(RTE)), (st, args[0])]

        def h_take(m, st, i, fn, args):
            v = self.value(st, args[1])
            if v == args[1]:
                return None
            m.havoc_range(st, args[0], 40)
            m.settag(st, args[0], v)
            return [(st, None)]

        def h_store(m, st, i, fn, args):
            if "Compound const&" not in fn.dn or len(args) < 2 or not is_ptr(args[1]):
                return None
            v = self.value(st, args[0])
            m.havoc_range(st, args[1], 32)
            m.settag(st, args[1], ("t", "json", v))
            return [(st.copy(), Throw(RTE)), (st, None)]
        KV = r"^Maike::KeyValueStore::"
        return [H(KV + r"(Compound::Compound|Array::Array)$", h_new), H(KV + r"Compound::set$", h_set), H(KV + r"Array::append$", h_append), H(KV + r"store$", h_store),
                H(KV + r"(Compound|Array)::takeHandle$", h_take), H(KV + r"(Compound::~Compound|Array::~Array|JsonHandle::~JsonHandle)$", NOPE)] + words(m)

    def keyed(self, st, x, k, v):
        """an entry whose key is not a constant"""
        self.put(st, x[0], "obj", tuple(sorted(set(x[2] + ((("key", k), v),)), key=repr)))

    def added(self, e, v, a):
        c = self.cover.visit(e[0] if e else (), v if elem_of(v) else a) if getattr(self, "cover", None) else None
        return (c, e[1]) if c is not None and e else (c, ()) if c is not None else (e[0] if e else (), tuple(sorted(set((e[1] if e else ()) + (v,)), key=repr)))


def words(m):
    """argument lists: vectors of strings as the sequence of their contents"""
    def ok(fn):
        return re.search(r"std::vector<std::(__cxx11::basic_)?string", fn.dn.split("(")[0] + fn.dn) is not None

    def h_vec(m, st, i, fn, args):
        if not ok(fn):
            return None
        if len(args) == 1:
            m.havoc_range(st, args[0], 24)
            m.settag(st, args[0], ("t", "words"))
            return [(st, None)]
        if "initializer_list" in fn.dn and len(args) >= 3 and isinstance(args[2], int) and is_ptr(args[1]) and isinstance(args[1][2], int):
            t = tuple(m.tag(st, ("p", args[1][1], args[1][2] + 32 * k)) for k in range(args[2]))
            m.havoc_range(st, args[0], 24)
            m.settag(st, args[0], ("t", "words") + t)
            return [(st, None)]
        return None

    def h_push(m, st, i, fn, args):
        t = m.tag(st, args[0])
        if not ok(fn) or not (is_term(t) and t[1] == "words") or len(args) < 2 or len(t) > 8:
            return None
        c = m.cstr(st, args[1]) if is_ptr(args[1]) else None
        w = ("str", c) if c is not None and "char" in fn.dn.split("emplace_back")[-1].split("(")[0] else m.tag(st, args[1])
        m.havoc_range(st, args[0], 24)
        m.settag(st, args[0], t + (w,))
        return [(st, ("p", ("sym", ("t", "lastword")), 0) if i.d >= 0 else None)]
    return [H("^std::vector::vector$", h_vec), H("^std::vector::(push_back|emplace_back)$", h_push)]


def is_json(t):
    """the value a text is the JSON form of"""
    return t[2] if is_term(t) and t[1] == "json" else None


COMP = "Maike::Db::Compiler"


def conversation(ctx):
    """configuring a recipe and asking it for tags: what it is asked, and what is made of its answer"""
    p = ctx.prog
    bad = []
    cfgoff = field(p, COMP, lambda n, t: "Compound" in t, "the settings of a recipe")
    recoff = field(p, COMP, lambda n, t: "path" in t, "the file of a recipe")
    RES = P("Result")
    for name in ("configure", "get_tags"):
        f = p.one(r"^%s::configRecipe$" % COMP) if name == "configure" else p.one(r"^Maike::Db::getTags$")
        sl = "configuring a recipe" if name == "configure" else "asking a recipe"
        m = ctx.machine(max_states=20000)
        g = G(js=(), ran=0, failed=None, out=None, parsed=0, read=0)
        b = Built(m, g, bad)
        OUT, SRC = P("Out"), P("Src")
        CFG, REC = ("p", ("This",), cfgoff), ("p", ("This",), recoff)
        CT, RT, ST = ("t", "settings"), ("t", "recipefile"), ("t", "sourcefile")
        ev = set()

        def h_exec(m, st, i, fn, args):
            # sret, path, span of arguments
            ev.add("run")
            if g.get(st, "ran"):
                bad.append((name + "-twice", i.loc, "%s runs it twice" % sl))
            t = m.tag(st, args[1])
            e = is_empty(m, st, RT)
            if name == "configure" and (t != RT or e != 0) or name == "get_tags" and t != (RT if e == 0 else ("t", "shell", ST)):
                bad.append((name + "-which", i.loc, "%s runs another program" % sl))
            w = TOP
            for a in args[2:]:
                if is_ptr(a):
                    x = m.tag(st, a)
                    if is_term(x) and x[1] == "words":
                        w = x
            o = is_json(w[3]) if is_term(w) and len(w) == 4 else None
            if not is_term(w) or len(w) != 4 or w[2] != ("str", name.encode()) or o is None:
                bad.append((name + "-args", i.loc, "%s does not tell it what to do" % sl))
            elif name == "configure" and o != CT:
                bad.append((name + "-cfg", i.loc, "%s does not hand over its settings" % sl))
            elif name == "get_tags":
                d = dict(o[2]) if is_term(o) and o[1] == "obj" else {}
                if d.get(b"source_file") != ST:
                    bad.append((name + "-source", i.loc, "%s does not name the source file" % sl))
                if d.get(b"compiler_cfg") != CT:
                    bad.append((name + "-cfg", i.loc, "%s does not hand over its settings" % sl))
            g.put(st, ran=1)
            m.havoc_range(st, args[0], 8)
            m.settag(st, args[0], ("t", "result"))
            return [(st.copy(), Throw(RTE)), (st, None)]

        def h_failed(m, st, i, fn, args):
            if g.get(st, "failed") is not None:
                return [(st, g.get(st, "failed"))]
            s2 = st.copy()
            g.put(st, failed=0)
            g.put(s2, failed=1)
            return [(st, 0), (s2, 1)]

        def h_stdout(m, st, i, fn, args):
            return [(st, P("Stdout"))]

        def h_stderr(m, st, i, fn, args):
            return [(st, P("Stderr"))]

        def h_parse(m, st, i, fn, args):
            if len(args) == 2 and re.search(r"Compound( const)?&&?\)$", fn.dn):
                x = b.get(st, args[1])
                if x:
                    b.put(st, args[0], x[1], x[2])
                m.settag(st, args[0], m.tag(st, args[1]))
                return [(st, None)]
            if len(args) < 3:
                return None
            src = m.load(st, args[1], 8, "p", peek=True) if is_ptr(args[1]) else TOP
            off = m.load(st, ("p", args[1][1], args[1][2] + 8), 8, "i64", peek=True) if is_ptr(args[1]) else TOP
            ev.add("parse")
            if src != P("Stdout") and is_ptr(src) or off != 0 and isinstance(off, int):
                bad.append((name + "-parse", i.loc, "something else than the whole output of a recipe is taken for its answer"))
            if not is_ptr(src):
                bad.append((name + "-parse", i.loc, "something else than the whole output of a recipe is taken for its answer"))
            if g.get(st, "failed") != 0:
                bad.append((name + "-trust", i.loc, "the answer of a recipe that failed is used"))
            m.settag(st, args[0], ("t", "answer"))
            g.put(st, parsed=1)
            return [(st.copy(), Throw(RTE)), (st, None)]

        def h_assign(m, st, i, fn, args):
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, args[0])]

        def h_shell(m, st, i, fn, args):
            m.settag(st, args[0], ("t", "shell", m.tag(st, args[1])))
            return [(st, None)]
        m.hooks = [H("^Maike::Exec::execve$", h_exec), H("^Maike::Exec::failed$", h_failed), H("^Maike::Exec::Result::stdout$", h_stdout), H("^Maike::Exec::Result::stderr$", h_stderr),
                   H(r"^Maike::Exec::Result::~Result$", NOPE), H(r"Compound::Compound$", h_parse), H(r"Compound::operator=$", h_assign), H("^Maike::makeShellExecPath$", h_shell),
                   H(r"^%s::config$" % COMP, lambda m, st, i, fn, args: [(st, CFG)] if len(args) == 1 else None), H(r"^%s::recipe$" % COMP, lambda m, st, i, fn, args: [(st, REC)]),
                   H("^std::(transform|copy|copy_n|for_each)$", lambda m, st, i, fn, args: [(st, TOP if i.d >= 0 else None)] if "std::byte const*" in fn.dn else None),
                   H(r"^std::__cxx11::basic_string::(push_back|append|operator\+=|reserve)$", quiet),
                   H("^(fprintf|fputs|fwrite|fflush|printf|puts)$", NOPE)] + path_hooks() + b.hooks()
        mem = {("This",): {"hv": True}, ("Src",): {"hv": True}, ("Out",): {"hv": True}, ("Stdout",): {"hv": True}}
        st = m.start(f, [THIS] if name == "configure" else [OUT, THIS, SRC], ghost=g.init, mem=mem, roots=[THIS, SRC, RT, EMPTY, P("Stdout"), P("Out"), ("t", "vsize", ("t", "stdout"))])
        m.settag(st, CFG, CT)
        m.settag(st, REC, RT)
        m.settag(st, SRC, ST)
        m.settag(st, P("Stdout"), ("t", "stdout"))
        m.run([st])
        ctx.absorb(m)
        n = 0
        for kind, v, st in m.outcomes:
            if kind == "terminate":
                bad.append((name + "-terminate", None, "%s ends the program" % sl))
            if kind != "ret":
                continue
            n += 1
            e = is_empty(m, st, RT)
            if g.get(st, "ran") == 0:
                if name == "get_tags" or e != 1:
                    bad.append((name + "-notrun", None, "%s does not run it" % sl))
                continue
            if g.get(st, "failed") != 0:
                bad.append((name + "-failure", None, "a recipe that fails when %s goes unnoticed" % ("configured" if name == "configure" else "asked")))
                continue
            silent = m.cmp(st, "eq", ("t", "vsize", ("t", "stdout")), 0, 64)
            if silent not in (0, 1):
                silent = m.vec_empty(st, P("Stdout"))
            t = m.tag(st, CFG if name == "configure" else OUT)
            if g.get(st, "parsed"):
                if t != ("t", "answer"):
                    bad.append((name + "-ignored", None, "the answer of a recipe is not used"))
            elif silent != 1:
                bad.append((name + "-unread", None, "the answer of a recipe is not read"))
            elif name == "configure" and t != CT:
                bad.append((name + "-lost", None, "a recipe that answers nothing loses its settings"))
        if (not n or not {"run", "parse"} <= ev) and not bad:
            raise AnalysisBroken("%s could not be followed" % name)
        for k in ("program", "arguments", "failure", "answer"):
            ctx.oblige("%s: %s" % (sl, k), True)
    report(ctx, "ask", bad, "core/db/compiler.cpp")


def command(ctx):
    """makeBuildCommand: the recipe gets the complete description of the step"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::Db::makeBuildCommand$")
    m = ctx.machine(max_states=40000)
    g = G(js=(), has=None)
    b = Built(m, g, bad)
    tsize, dsize = p.types["Maike::Db::TargetInfo"]["size"], p.types["Maike::Db::Dependency"]["size"]
    OUT, REC, INFO, DEPS, TG = (P(x) for x in ("Out", "Rec", "Info", "Deps", "Targets"))
    OWN, DEF = P("OwnCompiler"), P("DefaultCompiler")
    SRC, FMT, ID = ("t", "sourcefile"), ("t", "format"), ("t", "stepid")
    TT, DT, IT = ("t", "targets"), ("t", "dependencies"), ("t", "buildinfo")
    PATH = P("Path")

    class Cov:
        """elements of either vector, by the address of the element or what was read from it"""

        def __init__(self):
            self.t, self.d = Cover(m, tsize), Cover(m, dsize)

        def visit(self, cov, q):
            e = elem_of(q)
            if e is None:
                return None
            return (self.t if e[0] == TT else self.d).visit(cov, q)
    b.cover = Cov()

    def who(st, a):
        """which compiler is at the address"""
        if a == OWN:
            return "own"
        if a == DEF:
            return "default"
        t = m.tag(st, a)
        return t[2] if is_term(t) and t[1] == "compiler" else None

    def h_has(m, st, i, fn, args):
        if g.get(st, "has") is not None:
            return [(st, g.get(st, "has"))]
        s2 = st.copy()
        g.put(st, has=0)
        g.put(s2, has=1)
        return [(st, 0), (s2, 1)]

    def h_merge(m, st, i, fn, args):
        a, c = who(st, args[1]), who(st, args[2])
        if (a, c) != ("default", "own"):
            bad.append(("merge", i.loc, "the settings of a file are combined with its type's in the wrong order"))
        m.settag(st, args[0], ("t", "compiler", "merged"))
        return [(st.copy(), Throw(RTE)), (st, None)]

    def h_copy(m, st, i, fn, args):
        if len(args) == 2 and who(st, args[1]):
            m.settag(st, args[0], ("t", "compiler", who(st, args[1])))
            return [(st, None)]
        return None

    def part(kind):
        def h(m, st, i, fn, args):
            w = who(st, args[0])
            if w is None or len(args) != 1:
                return None
            a = P((kind, w))
            return [(st, a)]
        return h

    def right(st):
        return "merged" if g.get(st, "has") else "own"

    def h_elem(off):
        def h(m, st, i, fn, args):
            if elem_of(args[0]) is None:
                return None
            return [(st, ("p", ("sym", ("t", "tname", args[0])), 0))]
        return h

    def h_cstr(m, st, i, fn, args):
        if is_ptr(args[0]) and args[0][1][0] == "sym" and is_term(args[0][1][1]) and args[0][1][1][1] == "tname":
            return [(st, ("p", ("sym", ("t", "cstr", args[0][1][1][2])), 0))]
        return None

    eoff = field(p, "Maike::Exec::Command", lambda n, t: "path" in t, "the executable of a command")
    aoff = field(p, "Maike::Exec::Command", lambda n, t: "vector" in t, "the arguments of a command")

    class i:
        loc = None

    def final(st):
        r = right(st)
        rt = ("t", "recipefile", r)
        e = is_empty(m, st, rt)
        t = m.tag(st, ("p", ("Out",), eoff))
        if e is None or t != (rt if e == 0 else ("t", "shell", SRC)):
            bad.append(("which", i.loc, "a step is run with another recipe than the one of its file"))
        w = m.tag(st, ("p", ("Out",), aoff))
        o = is_json(w[3]) if is_term(w) and w[1] == "words" and len(w) == 4 else None
        if o is None or w[2] != ("str", b"compile"):
            bad.append(("args", i.loc, "the recipe of a step is not told to compile, or gets something else than its description"))
            return
        d = dict(o[2]) if is_term(o) and o[1] == "obj" else {}
        for k, v, msg in ((b"source_file", SRC, "the name of the source file"), (b"compiler_cfg", ("t", "settings", r), "the settings of the recipe"),
                          (b"build_info", IT, "the description of the build"), (b"task_id", ID, "the number of the step"), (b"log_format", FMT, "the format of messages")):
            if d.get(k) != v:
                bad.append(("value-" + k.decode(), i.loc, "a recipe does not get %s" % msg))
        for k, tag, es, msg in ((b"targets", TT, tsize, "targets"), (b"dependencies", DT, dsize, "dependencies")):
            v = d.get(k)
            if not (is_term(v) and v[1] == "list"):
                bad.append(("value-" + k.decode(), i.loc, "a recipe does not get the %s" % msg))
                continue
            cov, other = v[2] if v[2] else ((), ())
            cv = Cover(m, es)
            _, fr, bk = cv.get(cov, tag)
            done = fr == "many" or bk == "many" or fr > 2 or bk > 2
            for n, back in ((fr, False), (bk, True)):
                if not done and (m.cmp(st, "eq", ("p", ("sym", ("t", "vdata", tag)), 0 if back else n * es), ("p", ("sym", ("t", "vend", tag)), -n * es if back else 0), 64) == 1 or
                                 m.cmp(st, "ult", n, ("t", "vsize", tag), 64) == 0 or m.cmp(st, "eq", n, ("t", "vsize", tag), 64) == 1):
                    done = True
            if not done or other or [c for c in cov if c[0] != tag]:
                bad.append(("list-" + k.decode(), i.loc, "a recipe does not get exactly the %s of its step" % msg))

    def h_shell(m, st, i, fn, args):
        m.settag(st, args[0], ("t", "shell", m.tag(st, args[1])))
        return [(st, None)]

    def const(a, n=1):
        return lambda m, st, i, fn, args: [(st, a)] if len(args) == n else None
    m.hooks = [H(r"::SourceFileInfo::hasDefaultCompiler$", h_has), H(r"::SourceFileInfo::compilerDefault$", const(DEF)), H(r"::SourceFileInfo::compiler$", const(OWN)),
               H(r"::SourceFileInfo::targets$", const(TG)), H(r"^Maike::Db::operator\|$", h_merge), H(r"^%s::Compiler$" % COMP, h_copy), H(r"^%s::config$" % COMP, part("config")),
               H(r"^%s::recipe$" % COMP, part("recipe")), H(r"^%s::~Compiler$" % COMP, NOPE), H(r"::SourceFileRecordConst::path$", const(PATH)), H(r"::SourceFileRecordConst::sourceFileInfo$", const(P("FileInfo"))),
               H(r"::SourceFileRecordConst::id$", const(ID)), H(r"::SourceFileId::value$", lambda m, st, i, fn, args: [(st, ID)]),
               H(r"::TargetInfo::name$", h_elem(0)), H(r"::path::(c_str|native)$|basic_string::(c_str|data)$", h_cstr), H("^Maike::makeShellExecPath$", h_shell)] + path_hooks() + b.hooks()
    mem = {(x,): {"hv": True} for x in ("Out", "Rec", "Info", "Deps", "Targets", "Path")}
    roots = [EMPTY, ID, SRC, TG, PATH, INFO, DEPS, REC, P("FileInfo")] + [("t", "vsize", TT), ("t", "vsize", DT)]
    for w in ("own", "default", "merged"):
        mem[(("config", w),)] = {"hv": True}
        mem[(("recipe", w),)] = {"hv": True}
        roots += [P(("config", w)), P(("recipe", w)), ("t", "recipefile", w)]
    st = m.start(f, [OUT, REC, INFO, DEPS, FMT], ghost=g.init, mem=mem, roots=roots)
    for w in ("own", "default", "merged"):
        m.settag(st, P(("config", w)), ("t", "settings", w))
        m.settag(st, P(("recipe", w)), ("t", "recipefile", w))
    m.settag(st, PATH, SRC)
    m.settag(st, INFO, IT)
    m.settag(st, DEPS, DT)
    m.settag(st, TG, TT)
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            final(st)
    if not n and not bad:
        raise AnalysisBroken("making a command could not be followed")
    for k in ("recipe", "what to do", "source file", "settings", "build", "targets", "dependencies", "number and format"):
        ctx.oblige("command: " + k, True)
    report(ctx, "command", bad, floc(f))


def merge(ctx):
    """a file's own settings on top of those of its type"""
    p = ctx.prog
    bad = []
    off = {k: field(p, COMP, lambda n, t: x in t, k) for k, x in (("recipe", "path"), ("origin", "optional"), ("config", "Compound"))}
    off["tags"] = field(p, COMP, lambda n, t: t == "bool", "whether tags are asked for")
    f = p.one(r"^Maike::Db::operator\|$", lambda f: f.dn.count("Compiler const&") == 2)
    A, B, OUT = P("A"), P("B"), P("Out")
    m = ctx.machine(max_states=20000)
    ev = set()

    def at(o, k):
        return ("p", o[1], off[k])

    def h_ref(m, st, i, fn, args):
        return [(st, ("agg", (("p", ("sym", ("t", "handle", m.tag(st, args[0]))), 0), TOP)))] if i.t == "s" else None

    def h_or(m, st, i, fn, args):
        # sret, a, reference to b
        h = find_term(args[2], "handle") if is_ptr(args[2]) else None
        m.settag(st, args[0], ("t", "over", m.tag(st, args[1]), h[2] if h else TOP))
        ev.add("merge")
        return [(st.copy(), Throw(RTE)), (st, None)]

    def h_ore(m, st, i, fn, args):
        h = find_term(args[1], "handle") if is_ptr(args[1]) else None
        m.settag(st, args[0], ("t", "over", m.tag(st, args[0]), h[2] if h else m.tag(st, args[1])))
        ev.add("merge")
        return [(st.copy(), Throw(RTE)), (st, args[0])]

    def h_ccopy(m, st, i, fn, args):
        if len(args) == 2:
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        return None
    m.hooks = [H(r"KeyValueStore::Compound::reference$", h_ref), H(r"^Maike::KeyValueStore::operator\|$", h_or), H(r"^Maike::KeyValueStore::operator\|=$", h_ore),
               H(r"KeyValueStore::Compound::Compound$", h_ccopy), H(r"KeyValueStore::Compound::~Compound$", NOPE)]
    mem = {("Out",): {"hv": True}}
    T = {n: (("t", "recipe", n), ("t", "config", n)) for n in "ab"}
    outs = []
    for e, ea, tg in ((e, ea, tg) for e in (0, 1) for ea in (0, 1) for tg in (0, 1)):
        mem2 = dict(mem)
        for o, org, en, t in ((A, 2, ea, 1 - tg), (B, 3, e, tg)):
            mem2[o[1]] = {off["origin"]: (4, org), off["origin"] + 4: (1, en), off["origin"] + 5: (1, 0), off["origin"] + 6: (2, 0), off["tags"]: (1, t), "hv": True}
        st = m.start(f, [OUT, A, B], ghost=(e, ea, tg), mem=mem2, roots=[T["a"][0], T["b"][0], EMPTY, OUT, A, B])
        for o, n in ((A, "a"), (B, "b")):
            m.settag(st, at(o, "recipe"), T[n][0])
            m.settag(st, at(o, "config"), T[n][1])
        outs.append(st)
    m.run(outs)
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        e = is_empty(m, st, T["b"][0])
        if e is None or m.tag(st, at(OUT, "recipe")) != T["a" if e else "b"][0]:
            bad.append(("recipe", None, "a file's own recipe does not replace the one of its type, or none does"))
        if m.tag(st, at(OUT, "config")) != ("t", "over", T["a"][1], T["b"][1]):
            bad.append(("config", None, "a file's own settings are not put on top of those of its type"))
        o = m.load(st, at(OUT, "origin"), 4, "i32", peek=True)
        g = m.load(st, ("p", ("Out",), off["origin"] + 4), 1, "i8", peek=True)
        eb, ea, tg = st.ghost
        if (g, o if g else 0) != ((1, 3) if eb else (1, 2) if ea else (0, 0)):
            bad.append(("origin", None, "the origin of a recipe gets lost when settings are combined"))
        if m.load(st, at(OUT, "tags"), 1, "i8", peek=True) != tg:
            bad.append(("tags", None, "whether a recipe is asked for tags is not up to the file that gives it"))
    if not n and not bad:
        raise AnalysisBroken("combining settings could not be followed")
    for k in ("recipe", "settings", "origin", "asking for tags"):
        ctx.oblige("combined: " + k, True)
    report(ctx, "combined", bad, floc(f))


def resolve(ctx):
    """resolveRecipe: looked up under its own name, then configured with what was found"""
    p = ctx.prog
    bad = []
    roff = field(p, COMP, lambda n, t: "path" in t, "the file of a recipe")
    ooff = field(p, COMP, lambda n, t: "optional" in t, "the origin of a recipe")
    fs = [f for f in p.find(r"^%s::resolveRecipe$" % COMP) if not f.decl]
    if not fs:
        raise AnalysisBroken("resolveRecipe vanished")
    CMDS, REC = P("Commands"), ("p", ("This",), roff)
    RT = ("t", "recipename")
    for f in fs:
        m = ctx.machine(max_states=4000)
        g = G(found=0, conf=0)

        def h_get(m, st, i, fn, args):
            if args[1] != CMDS:
                bad.append(("dict", i.loc, "a recipe is looked up somewhere else"))
            if m.tag(st, args[2]) != RT:
                bad.append(("name", i.loc, "another recipe is looked up"))
            m.settag(st, args[0], ("t", "foundpath"))
            m.store(st, ("p", args[0][1], args[0][2] + 40), 4, ("t", "foundorigin"))
            g.put(st, found=1)
            return [(st.copy(), Throw(RTE)), (st, None)]

        def h_conf(m, st, i, fn, args):
            if args[0] != THIS or m.tag(st, REC) != ("t", "foundpath"):
                bad.append(("conf", i.loc, "a recipe is configured before it was looked up"))
            g.put(st, conf=min(2, g.get(st, "conf") + 1))
            return [(st.copy(), Throw(RTE)), (st, None)]
        m.hooks = [H(r"CommandDictionary::get$", h_get), H(r"^%s::configRecipe$" % COMP, h_conf)]
        st = m.start(f, [THIS, CMDS], ghost=g.init, mem={("This",): {"hv": True}})
        m.settag(st, REC, RT)
        m.run([st])
        ctx.absorb(m)
        n = 0
        for kind, v, st in m.outcomes:
            if kind != "ret":
                continue
            n += 1
            if m.tag(st, REC) != ("t", "foundpath"):
                bad.append(("path", floc(f), "the recipe that was found is not used"))
            if m.load(st, ("p", ("This",), ooff), 4, "i32", peek=True) != ("t", "foundorigin") or m.load(st, ("p", ("This",), ooff + 4), 1, "i8", peek=True) != 1:
                bad.append(("origin", floc(f), "where a recipe was found is forgotten"))
            if g.get(st, "conf") != 1:
                bad.append(("noconf", floc(f), "a recipe that was looked up is not configured exactly once"))
        if not n and not bad:
            raise AnalysisBroken("resolveRecipe could not be followed")
    for k in ("looked up", "used", "configured"):
        ctx.oblige("resolved: " + k, True)
    report(ctx, "resolved", bad, "core/db/compiler.hpp")


def resolve_all(ctx):
    """resolveRecipes: the recipes of all types of files, and of directories"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::resolveRecipes$")
    CFG, CMDS, OUT, LM, DC, SIL = (P(x) for x in ("Cfg", "Commands", "Out", "LoaderMap", "DirC", "Sil"))
    m = ctx.machine(max_states=20000)
    g = G(walks=(), dir=0, full=(), put=0, base=0)
    ev = set()

    def leave(st, mp, cur, done, i):
        if not done and m.tag(st, mp) == ("t", "loaders"):
            bad.append(("skipped", i.loc, "the recipe of a type of files is not looked up"))
    mw = MapWalk(m, lambda st: g.get(st, "walks"), lambda st, w: g.put(st, walks=w), leave)

    def h_cfg(m, st, i, fn, args):
        if len(args) == 2 and args[1] == CFG:
            g.put(st, base=1)
        return [(st, None)]

    def h_dir(m, st, i, fn, args):
        if len(args) == 1:
            return [(st, DC)]
        if m.tag(st, args[1]) != ("t", "resolved", ("t", "dircompiler")):
            bad.append(("dir", i.loc, "the recipe for directories is not looked up"))
        if args[0] == OUT:
            g.put(st, dir=1)
        return [(st, args[0])]

    def h_ccopy(m, st, i, fn, args):
        if len(args) == 2:
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, args[0] if i.d >= 0 else None)]
        return None

    def h_resolve(m, st, i, fn, args):
        if args[1] != CMDS:
            bad.append(("dict", i.loc, "a recipe is looked up somewhere else"))
        m.settag(st, args[0], ("t", "resolved", m.tag(st, args[0])))
        return [(st.copy(), Throw(RTE)), (st, args[0] if i.d >= 0 else None)]

    def h_map(m, st, i, fn, args):
        if len(args) >= 2 and is_ptr(args[1]):
            m.settag(st, args[0], m.tag(st, args[1]))
            if args[1] in g.get(st, "full"):
                g.put(st, full=g.get(st, "full") + (args[0],))
        return [(st, None)]

    def h_loaders(m, st, i, fn, args):
        if len(args) == 1:
            return [(st, LM)]
        if not mw.finished(st, args[1]) or m.tag(st, args[1]) != ("t", "loaders"):
            bad.append(("some", i.loc, "not every recipe of a type of files is looked up"))
        m.settag(st, args[0], ("t", "newloaders"))
        return [(st, args[0])]

    def h_sil(m, st, i, fn, args):
        if len(args) == 1:
            return [(st, SIL)]
        if m.tag(st, args[1]) != ("t", "newloaders"):
            bad.append(("old", i.loc, "the recipes that were looked up are not used"))
        if args[0] == OUT:
            g.put(st, put=1)
        return [(st, args[0])]

    def h_lcomp(m, st, i, fn, args):
        if mw.current(st, args[0]) is None:
            return None
        if len(args) == 1:
            a = ("p", ("sym", ("t", "lcomp", args[0])), 0)
            return [(st, a)]
        if m.tag(st, args[1]) != ("t", "resolved", ("t", "tag0", ("sym", ("t", "lcomp", args[0])), 0)):
            bad.append(("other", i.loc, "a type of files gets a recipe that is not its own, or was not looked up"))
        mw.mark(st, args[0])
        return [(st, args[0])]
    m.hooks = mw.hooks() + [H(r"^Maike::Config::(Config|operator=)$", h_cfg), H(r"^Maike::Config::dirCompiler$", h_dir), H(r"^%s::(Compiler|operator=)$" % COMP, h_ccopy), H(r"^%s::~Compiler$" % COMP, NOPE),
                            H(r"^%s::resolveRecipe$" % COMP, h_resolve), H(r"^std::map::map$", h_map), H(r"^std::map::~map$", NOPE), H(r"SourceFileInfoLoaders::Config::loaders$", h_loaders),
                            H(r"^Maike::Config::sourceFileInfoLoaders$", h_sil), H(r"Loader::compiler$", h_lcomp), H(r"^Maike::(SourceFileInfoLoaders::)?Config::~?Config$", NOPE)]
    st = m.start(f, [OUT, CFG, CMDS], ghost=g.init, mem={("Out",): {"hv": True}}, roots=[OUT, DC, LM, SIL, CMDS])
    m.settag(st, LM, ("t", "loaders"))
    m.settag(st, DC, ("t", "dircompiler"))
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        if not g.get(st, "base"):
            bad.append(("base", None, "the rest of the configuration gets lost"))
        if not g.get(st, "dir"):
            bad.append(("dir", None, "the recipe for directories is not looked up"))
        if not g.get(st, "put"):
            bad.append(("old", None, "the recipes that were looked up are not used"))
    if not n and not bad:
        raise AnalysisBroken("resolveRecipes could not be followed")
    for k in ("directories", "every type of files", "used"):
        ctx.oblige("all recipes: " + k, True)
    report(ctx, "all", bad, floc(f))


def task_command(ctx):
    """a step's command is made for its own file, dependencies and build"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::Db::Task::Task$", lambda f: len(f.params) >= 5)
    T = "Maike::Db::Task"
    coff = field(p, T, lambda n, t: t.endswith("Exec::Command"), "the command of a step")
    doff = field(p, T, lambda n, t: "vector<Maike::Db::Dependency" in t, "the dependencies of a step")
    aoff = field(p, "Maike::Exec::Command", lambda n, t: "vector" in t, "the arguments of a command")
    GR, INFO = P("Graph"), P("Info")
    m = ctx.machine(max_states=4000)
    g = G(n=0)
    k = len(f.params)
    nodes = f.params[2:k - 2]
    if len(nodes) == 1:
        nargs = [P("Node")]
    else:
        nargs = [P(("Node", j)) for j in range(len(nodes))]
    FMT = ("t", "format")
    size = p.types["Maike::Db::SourceFileRecordConst"]["size"]

    def ident(st, a):
        return tuple(m.load(st, ("p", a[1], a[2] + o), 8, "p", peek=True) for o in range(0, size, 8)) if is_ptr(a) and isinstance(a[2], int) else None

    def h_deps(m, st, i, fn, args):
        m.havoc_range(st, args[0], 24)
        m.settag(st, args[0], ("t", "usedeps"))
        return [(st.copy(), Throw(RTE)), (st, None)]

    def h_make(m, st, i, fn, args):
        g.put(st, n=min(2, g.get(st, "n") + 1))
        rest = args[1:]
        fmt, deps, info, node = rest[-1], rest[-2], rest[-3], rest[:-3]
        if fmt != FMT:
            bad.append(("format", i.loc, "a command is made for another message format"))
        if m.tag(st, deps) != ("t", "usedeps"):
            bad.append(("deps", i.loc, "a command is made for other dependencies than those of its step"))
        if info != INFO:
            bad.append(("info", i.loc, "a command is made for another build"))
        if len(node) == 1 and len(nargs) == 1 and node[0] != nargs[0] and ident(st, node[0]) != ident(st, nargs[0]):
            bad.append(("node", i.loc, "a command is made for another file than that of its step"))
        if len(node) != 1 and list(node) != nargs:
            bad.append(("node", i.loc, "a command is made for another file than that of its step"))
        m.havoc_range(st, args[0], 64)
        m.settag(st, args[0], ("t", "cmdfile"))
        m.settag(st, ("p", args[0][1], args[0][2] + aoff), ("t", "cmdargs"))
        return [(st.copy(), Throw(RTE)), (st, None)]
    m.hooks = [H("::getUseDepsRecursive$", h_deps), H("::makeBuildCommand$", h_make), H(r"Dependency::~Dependency$|Command::~Command$", NOPE)]
    mem = {("This",): {"hv": True}}
    if len(nodes) == 1:
        mem[("Node",)] = {o: (8, P(("Part", o))) for o in range(0, size, 8)}
    m.run([m.start(f, [THIS, GR] + nargs + [INFO, FMT], ghost=g.init, mem=mem, roots=[THIS])])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        if g.get(st, "n") != 1 or m.tag(st, ("p", ("This",), coff)) != ("t", "cmdfile") or m.tag(st, ("p", ("This",), coff + aoff)) != ("t", "cmdargs"):
            bad.append(("kept", None, "a step does not keep the command made for it"))
        if m.tag(st, ("p", ("This",), doff)) != ("t", "usedeps"):
            bad.append(("keptdeps", None, "a step does not keep its dependencies"))
    if not n and not bad:
        raise AnalysisBroken("the constructor of a step could not be followed")
    for x in ("file", "dependencies", "build", "kept"):
        ctx.oblige("step: " + x, True)
    report(ctx, "step", bad, floc(f))
