"""Collecting the files of a project."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .common import field, MapWalk, task_closure, Cover, elem_of, split
from .sources import G
from .tasks import report, THIS
from .sched import LOCKS

CLS = "Maike::SourceTreeLoader::DirectoryScanner"
EXC = "_ZTISt13runtime_error"
WORKERS, FILTER, DIRF, LOADERS = (("p", (x,), 0) for x in ("Workers", "Filter", "DirFilter", "Loaders"))
SRC, TDIR, ROOT, ENTRY = (("t", x) for x in ("srcpath", "targetdir", "rootdir", "entrypath"))
NODE = ("p", ("Node",), 0)


def norm(t):
    return t if t == TOP else ("t", "normal", t)


def path_hooks():
    """path functions as functions of the contents of the path"""
    def fn1(kind):
        def h(m, st, i, fn, args):
            m.havoc_range(st, args[0], 40)
            t = [m.tag(st, a) for a in args[1:]]
            m.settag(st, args[0], TOP if TOP in t else ("t", kind) + tuple(t))
            return [(st, None)]
        return h

    def h_cstr(m, st, i, fn, args):
        t = m.tag(st, args[0])
        return [(st, TOP if t == TOP else ("p", ("sym", ("t", "cstr", t)), 0))]
    P = r"^std::filesystem::__cxx11::path::"
    return [(re.compile(P + "filename$"), fn1("filename")), (re.compile(P + "lexically_relative$"), fn1("relative")),
            (re.compile(P + "lexically_normal$"), fn1("normal")), (re.compile(P + "(parent_path)$"), fn1("parent")),
            (re.compile(P + "(stem)$"), fn1("stem")), (re.compile(P + "extension$"), fn1("extension")),
            (re.compile(r"^std::filesystem::__cxx11::operator/$"), fn1("join")),
            (re.compile(r"^std::(filesystem::__cxx11::path|__cxx11::basic_string)::(c_str|data|native)$"), h_cstr)]


class Scanner:
    """layout of the scanner, worked out from what its constructor stores where"""

    def __init__(self, ctx, rec=1):
        p = ctx.prog
        self.f = f = p.one("^%s::DirectoryScanner$" % CLS, lambda f: len(f.params) == 6)
        self.map = ("p", ("This",), field(p, CLS, lambda n, t: re.match(r"std::map<std::filesystem", t), "the files found"))
        self.counter = ("p", ("This",), field(p, CLS, lambda n, t: "SignalingCounter" in t, "the number of outstanding tasks"))
        self.errlog = ("p", ("This",), field(p, CLS, lambda n, t: re.match(r"std::(__cxx11::)?(forward_list|list|vector|deque)<", t), "the errors"))
        self.root = ("p", ("This",), field(p, CLS, lambda n, t: t == "std::filesystem::__cxx11::path", "the root of the scan"))
        m = ctx.machine(max_states=2000)
        m.hooks = [(re.compile(r"^Maike::Sched::SignalingCounter::SignalingCounter$"), lambda m, st, i, fn, args: [(st, None)])]
        m.run([m.start(f, [THIS, WORKERS, FILTER, DIRF, LOADERS, rec], mem={("This",): {}})])
        ends = [st for k, v, st in m.outcomes if k == "ret"]
        if not ends:
            raise AnalysisBroken("the constructor of the scanner does not end")
        self.mem = dict(ends[0].mem[("This",)])
        self.mem["hv"] = True
        ctx.absorb(m)


def worker_fn(ctx):
    """the function that handles one path: what the closure of the first task calls"""
    p = ctx.prog
    pub = p.one("^%s::processPath$" % CLS, lambda f: len(f.params) == 3)
    for b in pub.blocks:
        for i in b:
            g = p.callee(i)
            if g is not None and g.sn == "Maike::Sched::ThreadPool::addTask":
                op = task_closure(p, g)
                if op is None:
                    raise AnalysisBroken("what a scanning task does was not found")
                c = [h for b2 in op.blocks for j in b2 for h in [p.callee(j)] if h is not None and not h.decl and h.sn.startswith(CLS)]
                if len(c) != 1:
                    raise AnalysisBroken("what a scanning task does was not found")
                return pub, op, c[0]
    return pub, None, None


class Base:
    def __init__(self, ctx, S, lim=60000):
        self.ctx, self.S = ctx, S
        self.m = m = ctx.machine(max_states=lim)
        self.bad = []
        self.ev = set()
        self.g = G(locks=frozenset(), cnt=0, own=1, sub=None, intask=0, nsub=0, **self.ghost())
        H = lambda r, h: (re.compile(r), h)
        m.hooks = self.own_hooks() + path_hooks() + [
            H("^(%s)$" % LOCKS, self.h_lock),
            H(r"^Maike::Sched::SignalingCounter::(lock|operator\+\+)$", self.h_inc),
            H(r"^Maike::Sched::SignalingCounter::(unlock|operator--)$", self.h_dec),
            H(r"^Maike::Sched::ThreadPool::addTask$", self.h_add)]

    def flag(self, k, i, t):
        self.bad.append((k, i if isinstance(i, str) or i is None else i.loc, t))

    def h_lock(self, m, st, i, fn, args):
        op = fn.sn.split("_")[-1]
        L = self.g.get(st, "locks")
        if op == "unlock":
            L = frozenset(x for x in L if x[0] != args[0])
        else:
            L = L | {(args[0], "r" if op == "rdlock" else "w")}
        self.g.put(st, locks=L)
        return [(st, 0)]

    def h_inc(self, m, st, i, fn, args):
        if args[0] != self.S.counter:
            return None
        if not self.g.get(st, "own"):
            self.flag("count-late", i, "a task is counted as outstanding when the count may already have reached zero")
        self.g.put(st, cnt=min(3, self.g.get(st, "cnt") + 1))
        return [(st, args[0] if i.t == "p" else None)]

    def h_dec(self, m, st, i, fn, args):
        if args[0] != self.S.counter:
            return None
        c = self.g.get(st, "cnt")
        if self.g.get(st, "intask"):
            return [(st, args[0] if i.t == "p" else None)]
        if c > 0:
            self.g.put(st, cnt=c - 1)
        else:
            self.g.put(st, own=0)
        return [(st, args[0] if i.t == "p" else None)]

    def h_add(self, m, st, i, fn, args):
        if self.g.get(st, "intask"):
            return None
        op = task_closure(self.ctx.prog, fn)
        if op is None:
            raise AnalysisBroken("what a submitted task does was not found")
        self.pre_add(st, i)
        if args[0] != WORKERS:
            self.flag("pool", i, "a task is given to another pool")
        self.g.put(st, intask=1)
        m.enter(st, st.frames[-1], i, op, [args[1]])
        return True

    def pre_add(self, st, i):
        pass

    def submitted(self, m, st, i, args):
        """the task handler is called by the closure of a task"""
        g = self.g
        o = m.load(st, args[3], 8, "p")
        own = m.load(st, ("p", args[3][1], args[3][2] + 8), 1, "i8")
        if o != self.S.counter or own not in (1, True):
            self.flag("uncounted", i, "a task does not hold a count of the outstanding tasks until it has ended")
        elif g.get(st, "cnt") < 1:
            self.flag("uncounted", i, "a task is submitted without having been counted as outstanding before")
        g.put(st, cnt=max(0, g.get(st, "cnt") - 1), intask=0, nsub=min(2, g.get(st, "nsub") + 1))
        # the closure has handed its count over to the task
        m.store(st, ("p", args[3][1], args[3][2] + 8), 1, 0)
        if args[0] != THIS:
            self.flag("other", i, "a task works for another scan")
        if m.tag(st, args[2]) != TDIR:
            self.flag("target-dir", i, "the target directory is not passed on to a task")
        return m.tag(st, args[1])

    def ghost(self):
        return {}


def first(ctx):
    """processPath(path, target): one task for the root"""
    S = Scanner(ctx)
    pub, op, wk = worker_fn(ctx)

    class A(Base):
        def ghost(self):
            return {"root": 0}

        def own_hooks(self):
            return [(re.compile("^%s::processPath$" % CLS), self.h_work), (re.compile("^%s$" % re.escape(wk.sn)), self.h_work)]

        def h_work(self, m, st, i, fn, args):
            if fn is not wk or not self.g.get(st, "intask"):
                return None
            t = self.submitted(m, st, i, args)
            if t != SRC:
                self.flag("first-path", i, "the scan starts at another place than the given one")
            if m.tag(st, self.S.root) != SRC:
                self.flag("first-root", i, "the root of the scan is not known when the first task is submitted")
            return [(st, None)]
    a = A(ctx, S)
    m = a.m
    st = m.start(pub, [THIS, ("p", ("Path",), 0), ("p", ("Tdir",), 0)], ghost=a.g.init, mem={("This",): S.mem, ("Path",): {"hv": True}, ("Tdir",): {"hv": True}})
    m.settag(st, ("p", ("Path",), 0), SRC)
    m.settag(st, ("p", ("Tdir",), 0), TDIR)
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        if a.g.get(st, "nsub") != 1:
            a.flag("first-once", None, "the scan of a project is started %s" % ("twice" if a.g.get(st, "nsub") else "never"))
        if v != THIS:
            a.flag("first-self", None, "starting a scan returns another scan")
    if not n and not a.bad:
        raise AnalysisBroken("the start of a scan could not be followed")
    ctx.oblige("scan: the root is submitted once, counted, with its target directory", True)
    report(ctx, "scan", a.bad, floc(pub))


def worker(ctx):
    """one path: skipped only if excluded or known, otherwise loaded, recorded and, if it is a directory, all its entries submitted"""
    pub, op, wk = worker_fn(ctx)
    bad = []
    n = [0, 0, 0]
    for rec in (0, 1):
        S = Scanner(ctx, rec)
        a = Worker(ctx, S, wk)
        a.rec = rec
        m = a.m
        mem = {("This",): S.mem, ("Path",): {"hv": True}, ("Tdir",): {"hv": True}, ("Lock",): {0: (8, S.counter), 8: (1, 1)}, ("Node",): {"hv": True}}
        st = m.start(wk, [THIS, ("p", ("Path",), 0), ("p", ("Tdir",), 0), ("p", ("Lock",), 0)], ghost=a.g.init, mem=mem, roots=(NODE,))
        m.settag(st, ("p", ("Path",), 0), SRC)
        m.settag(st, ("p", ("Tdir",), 0), TDIR)
        m.settag(st, S.root, ROOT)
        m.settag(st, ("p", ("Node",), 32), norm(SRC))
        m.run([st])
        ctx.absorb(m)
        for kind, v, st in m.outcomes:
            g = lambda k: a.g.get(st, k)
            if kind in ("exc", "terminate"):
                a.flag("escape", None, "an error of a scanning task is not recorded, so that the scan seems to be complete")
                continue
            if kind != "ret":
                continue
            if g("locks"):
                a.flag("held", None, "a task ends with a lock held")
            if g("threw"):
                n[0] += 1
                if not g("logged"):
                    a.flag("swallow", None, "an error of a scanning task is not recorded, so that the scan seems to be complete")
                continue
            if g("logged"):
                a.flag("spurious", None, "an error is recorded although nothing failed")
            if not g("loaded"):
                n[1] += 1
                if not a.excluded(st) and g("found") != 1:
                    a.flag("skipped", None, "a file that is neither excluded nor known already is left out")
                continue
            n[2] += 1
            if g("ins") is None:
                a.flag("unrecorded", None, "a file that was loaded is not recorded")
            elif g("ins") == 1:
                d = g("isdir")
                if d == 1 and g("walk") != "end":
                    a.flag("entries", None, "not every entry of a directory is submitted")
                elif d is None and g("walk") is None:
                    a.flag("entries", None, "the entries of a directory are not looked at")
        bad += a.bad
        if not {"load", "insert", "match", "submit"} <= a.ev and not a.bad:
            raise AnalysisBroken("the handling of a path could not be followed: %s" % a.ev)
    if not all(n) and not bad:
        raise AnalysisBroken("the handling of a path could not be followed: %s" % n)
    for k in ("skipped only if excluded or known", "loaded and recorded under its normal name", "all entries of a directory submitted, each counted before",
              "errors recorded under a lock", "the files found accessed under a lock"):
        ctx.oblige("scan: a path is " + k if k[0] in "sl" else "scan: " + k, True)
    report(ctx, "scan", bad, floc(wk))


class Worker(Base):
    def __init__(self, ctx, S, wk):
        self.wk = wk
        super().__init__(ctx, S)

    def ghost(self):
        # filt, dirf: outcome of the exclusion tests; found: the path is known already; walk: None|'more'|'sub'|'end'
        return dict(filt=None, dirf=None, isdir=None, found=None, loaded=0, ins=None, walk=None, threw=0, logged=0, top=None)

    def own_hooks(self):
        H = lambda r, h: (re.compile(r), h)
        D = r"^std::filesystem::__cxx11::directory_iterator::"
        return [H("^%s$" % re.escape(self.wk.sn), self.h_work), H(r"::InputFilter::match$", self.h_match), H(r"^std::filesystem::is_directory$", self.h_isdir),
                H(r"^std::map::(find|count|contains)$", self.h_find), H(r"^std::map::c?end$", self.h_mend), H(r"::SourceFileLoaderDelegator::load$", self.h_load),
                H(r"^std::map::(insert|emplace|try_emplace|insert_or_assign|operator\[\]|erase|clear)$", self.h_insert), H(D + "directory_iterator$", self.h_ditor),
                H(r"^std::filesystem::__cxx11::(begin|end)$", self.h_dbegin), H(D + r"operator\+\+$", self.h_dinc), H(D + r"operator(\*|->)$", self.h_dref),
                H(r"^std::filesystem::__cxx11::operator(==|!=)$", self.h_dcmp), H(D + "(operator=|~directory_iterator)$", lambda m, st, i, fn, args: [(st, args[0] if i.t == "p" else None)]),
                H(r"^std::filesystem::__cxx11::directory_entry::(path|operator.*path.*)$", self.h_epath),
                H(r"^std::filesystem::__cxx11::directory_entry::is_directory$", None or self.h_ent),
                H(r"^std::(__cxx11::)?(forward_list|list|vector|deque)::(push|emplace)_(front|back)$", self.h_log),
                H(r"SourceFileInfo::SourceFileInfo$", self.h_info)]

    def excluded(self, st):
        top = self.m.cmp(st, "eq", SRC, ROOT, 64)
        if top != 0:
            return False
        g = self.g
        return g.get(st, "filt") == 1 or g.get(st, "dirf") == 1 or self.rec == 0 and g.get(st, "isdir") == 1

    def throws(self, st, n=1):
        out = []
        for ti in (EXC, "_ZTISt9exception")[:n]:
            s2 = st.copy()
            self.g.put(s2, threw=1)
            out.append((s2, Throw(ti)))
        return out

    def h_match(self, m, st, i, fn, args):
        self.ev.add("match")
        which = {FILTER: "filt", DIRF: "dirf"}.get(args[0])
        want = {"filt": ("t", "filename", SRC), "dirf": ("t", "relative", SRC, ROOT)}.get(which)
        if which is None:
            self.flag("filter", i, "a path is compared with an unknown filter")
            return [(st, TOP)]
        if args[1] != ("p", ("sym", ("t", "cstr", want)), 0):
            self.flag("filter-" + which, i, "the %s filter is applied to something else than the %s of the path" %
                      (("name", "file name") if which == "filt" else ("directory", "part below the root")))
        return self.throws(st) + self.fork(st, which)

    def fork(self, st, name):
        v = self.g.get(st, name)
        if v is not None:
            return [(st, v)]
        s2 = st.copy()
        self.g.put(st, **{name: 0})
        self.g.put(s2, **{name: 1})
        return [(st, 0), (s2, 1)]

    def h_isdir(self, m, st, i, fn, args):
        if fn.sn.endswith("directory_entry::is_directory") or m.tag(st, args[0]) not in (SRC, norm(SRC)):
            return None
        return (self.throws(st) if len(args) == 1 else []) + self.fork(st, "isdir")

    def h_ent(self, m, st, i, fn, args):
        return [(st.copy(), 0), (st, 1)]

    def held(self, mode, what):
        pass

    def mtx(self, st):
        return self.g.get(st, "locks")

    def h_find(self, m, st, i, fn, args):
        if args[0] != self.S.map:
            return None
        if not self.mtx(st):
            self.flag("find-race", i, "the files found are searched without a lock, while another task may add one")
        if m.tag(st, args[1]) != norm(SRC):
            self.flag("find-key", i, "another path than the normalised one is searched among the files found")
        s2 = st.copy()
        self.g.put(st, found=0)
        self.g.put(s2, found=1)
        if fn.sn.endswith("find"):
            return [(st, MapWalk.end(args[0])), (s2, NODE)]
        return [(st, 0), (s2, 1)]

    def h_mend(self, m, st, i, fn, args):
        return [(st, MapWalk.end(args[0]))] if args[0] == self.S.map else None

    def h_load(self, m, st, i, fn, args):
        g = self.g
        self.ev.add("load")
        if g.get(st, "loaded"):
            self.flag("load-twice", i, "a file is loaded twice")
        if self.excluded(st):
            self.flag("excluded", i, "an excluded file is loaded")
        elif m.cmp(st, "eq", SRC, ROOT, 64) != 1:
            if g.get(st, "filt") is None or g.get(st, "dirf") is None or self.rec == 0 and g.get(st, "isdir") is None:
                self.flag("untested", i, "a file is loaded without finding out whether it is excluded")
        if args[1] != LOADERS:
            self.flag("load-loaders", i, "a file is loaded by something else than the given loaders")
        if m.tag(st, args[2]) not in (SRC, norm(SRC)):
            self.flag("load-path", i, "another path than the one of the task is loaded")
        if m.tag(st, args[3]) != ROOT:
            self.flag("load-root", i, "a file is loaded with another project directory than the root of the scan")
        if m.tag(st, args[4]) != TDIR:
            self.flag("load-target", i, "a file is loaded with another target directory than the given one")
        if g.get(st, "locks"):
            self.flag("load-locked", i, "a file is loaded with a lock held")
        out = self.throws(st, 2)
        g.put(st, loaded=1)
        m.havoc_range(st, args[0], 216)
        m.settag(st, args[0], ("t", "info"))
        return out + [(st, None)]

    def h_info(self, m, st, i, fn, args):
        if len(args) != 2 or not is_ptr(args[1]) or not re.search(r"SourceFileInfo( const)?&&?\)", fn.dn):
            return None
        m.havoc_range(st, args[0], 216)
        m.settag(st, args[0], m.tag(st, args[1]))
        return [(st, None)]

    def h_insert(self, m, st, i, fn, args):
        if args[0] != self.S.map:
            return None
        g = self.g
        self.ev.add("insert")
        if not any(x[1] == "w" for x in g.get(st, "locks")):
            self.flag("insert-race", i, "a file is added to the files found without an exclusive lock")
        op = fn.sn.rsplit("::", 1)[1]
        if op in ("operator[]", "erase", "clear", "insert_or_assign"):
            self.flag("insert-overwrite", i, "a file that is already among the files found is replaced or removed")
            return None
        pair = len(args) == 2
        key = args[1]
        val = ("p", args[1][1], args[1][2] + 40) if pair else args[2]
        if m.tag(st, key) != norm(SRC):
            self.flag("insert-key", i, "a file is recorded under another name than its normalised path")
        if m.tag(st, val) != ("t", "info"):
            self.flag("insert-info", i, "something else than what was loaded is recorded for a file")
        s2 = st.copy()
        g.put(st, ins=0)
        g.put(s2, ins=1)
        return [(st, ("agg", (NODE, 0))), (s2, ("agg", (NODE, 1)))]

    # ---- walk over a directory
    def h_ditor(self, m, st, i, fn, args):
        if len(args) == 1:
            m.store(st, args[0], 8, ("p", ("DirEnd",), 0))
            return [(st, None)]
        if re.search(r"directory_iterator( const)?&&?\)", fn.dn):
            m.store(st, args[0], 8, m.load(st, args[1], 8, "p"))
            return [(st, None)]
        if m.tag(st, args[1]) not in (SRC, norm(SRC)):
            self.flag("walk-path", i, "the entries of another directory are submitted")
        m.store(st, args[0], 8, ("p", ("Dir",), 0))
        out = self.throws(st)
        self.g.put(st, walk="start")
        return out + [(st, None)]

    def h_dbegin(self, m, st, i, fn, args):
        if "directory_iterator" not in fn.dn:
            return None
        v = m.load(st, args[1], 8, "p") if fn.sn.endswith("begin") else ("p", ("DirEnd",), 0)
        m.store(st, args[0], 8, v)
        return [(st, None)]

    def h_dcmp(self, m, st, i, fn, args):
        if "directory_iterator" not in fn.dn:
            return None
        ne = fn.sn.endswith("!=")
        w = self.g.get(st, "walk")
        if w in ("more", "sub"):
            return [(st, int(ne))]
        if w == "end":
            return [(st, int(not ne))]
        s2 = st.copy()
        self.g.put(st, walk="end")
        self.g.put(s2, walk="more")
        return [(st, int(not ne)), (s2, int(ne))]

    def h_dinc(self, m, st, i, fn, args):
        if self.g.get(st, "walk") == "more":
            self.flag("entry", i, "an entry of a directory is not submitted")
        out = self.throws(st)
        self.g.put(st, walk="start")
        return out + [(st, args[0])]

    def h_dref(self, m, st, i, fn, args):
        return [(st, ("p", ("Entry",), 0))]

    def h_epath(self, m, st, i, fn, args):
        m.settag(st, ("p", ("Entry",), 0), ENTRY)
        return [(st, ("p", ("Entry",), 0))]

    def pre_add(self, st, i):
        if self.g.get(st, "ins") != 1:
            self.flag("again", i, "the entries of a directory are submitted although another task has recorded it already")

    def h_work(self, m, st, i, fn, args):
        if fn is not self.wk or not self.g.get(st, "intask"):
            return None
        self.ev.add("submit")
        t = self.submitted(m, st, i, args)
        if t != ENTRY:
            self.flag("entry-path", i, "a task is submitted for something else than the entry looked at")
        elif self.g.get(st, "walk") == "sub":
            self.flag("entry-twice", i, "an entry of a directory is submitted twice")
        self.g.put(st, walk="sub")
        return [(st, None)]

    def h_log(self, m, st, i, fn, args):
        if args[0] != self.S.errlog:
            return None
        if not self.g.get(st, "locks"):
            self.flag("log-race", i, "an error is recorded without a lock")
        if not self.g.get(st, "own"):
            self.flag("log-late", i, "an error is recorded when the scan may already count as finished")
        self.g.put(st, logged=1)
        return [(st, TOP)]


def result(ctx):
    """takeResult: waits for all tasks, fails if one of them has failed"""
    p = ctx.prog
    S = Scanner(ctx)
    f = p.one("^%s::takeResult$" % CLS)
    m = ctx.machine(max_states=8000)
    bad = []
    g = G(waited=0, empty=None, out=0)

    def h_wait(m, st, i, fn, args):
        if args[0] != S.counter:
            return None
        if m.res(st, args[1]) == 0:
            g.put(st, waited=1)
        return [(st, None)]

    def early(st, i, what):
        if not g.get(st, "waited"):
            bad.append(("early", i.loc, "%s before all tasks have ended" % what))

    def h_empty(m, st, i, fn, args):
        if args[0] != S.errlog:
            return None
        early(st, i, "the errors of the scan are looked at")
        s2 = st.copy()
        g.put(st, empty=0)
        g.put(s2, empty=1)
        return [(st, 0), (s2, 1)]

    def h_move(m, st, i, fn, args):
        if len(args) < 2 or args[1] != S.map:
            return None
        early(st, i, "the files found are handed out")
        if args[0] == ("p", ("Out",), 0):
            g.put(st, out=1)
        return [(st, None)]

    def h_exc(m, st, i, fn, args):
        if len(args) == 2 and args[1] != S.errlog:
            return None
        return [(st, None)]
    m.hooks = [(re.compile(r"^Maike::Sched::SignalingCounter::wait$"), h_wait), (re.compile(r"^std::(__cxx11::)?(forward_list|list|vector|deque)::empty$"), h_empty),
               (re.compile(r"^std::map::map$"), h_move), (re.compile(r"ScanException::ScanException$"), h_exc)]
    m.run([m.start(f, [("p", ("Out",), 0), THIS], ghost=g.init, mem={("This",): S.mem, ("Out",): {"hv": True}})])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        e = g.get(st, "empty")
        if kind == "ret":
            n += 1
            if e != 1:
                bad.append(("result-errors", None, "the scan counts as successful although %s" % ("a task has failed" if e == 0 else "nobody looked whether a task has failed")))
            if not g.get(st, "out"):
                bad.append(("result-none", None, "the files found are not handed out"))
            if not g.get(st, "waited"):
                bad.append(("early", None, "the files found are handed out before all tasks have ended"))
        elif kind == "exc":
            n += 1
            if e != 0:
                bad.append(("result-fail", None, "the scan fails although no task has failed"))
    if not n and not bad:
        raise AnalysisBroken("the end of a scan could not be followed")
    ctx.oblige("scan: the result is taken after all tasks have ended", True)
    ctx.oblige("scan: the scan fails if and only if an error was recorded", True)
    report(ctx, "scan", bad, floc(f))


def collect(ctx):
    """collectSourceFiles: one scan, made with what it is given"""
    p = ctx.prog
    f = p.one(r"^Maike::SourceTreeLoader::collectSourceFiles$")
    m = ctx.machine(max_states=4000)
    bad = []
    PATH, TD, OUT = (("p", (x,), 0) for x in ("Path", "Tdir", "Out"))
    g = G(made=None, started=0, taken=0)

    def h_ctor(m, st, i, fn, args):
        if len(args) != 6:
            return None
        for k, (w, n) in enumerate(((WORKERS, "workers"), (FILTER, "name filter"), (DIRF, "directory filter"), (LOADERS, "loaders"), (("t", "rec"), "recursion flag"))):
            v = args[k + 1]
            if v != w and not (k == 4 and is_term(v) and "rec" in repr(v)):
                bad.append(("given-" + n.split()[0], i.loc, "the scan is made with another %s than the given one" % n))
        g.put(st, made=args[0])
        return [(st, None)]

    def h_path(m, st, i, fn, args):
        if len(args) != 3:
            return None
        if args[0] != g.get(st, "made"):
            bad.append(("unmade", i.loc, "a scan is started that was not made"))
        if m.tag(st, args[1]) != SRC or m.tag(st, args[2]) != TDIR:
            bad.append(("start", i.loc, "the scan is started with another source or target directory than the given one"))
        g.put(st, started=min(2, g.get(st, "started") + 1))
        return [(st, args[0])]

    def h_take(m, st, i, fn, args):
        if args[1] != g.get(st, "made") or g.get(st, "started") != 1:
            bad.append(("take", i.loc, "the result of a scan is taken that was not started once"))
        g.put(st, taken=1 if args[0] == OUT else 0)
        return [(st, None)]
    m.hooks = [(re.compile("^%s::DirectoryScanner$" % CLS), h_ctor), (re.compile("^%s::processPath$" % CLS), h_path), (re.compile("^%s::takeResult$" % CLS), h_take),
               (re.compile("^%s::~DirectoryScanner$" % CLS), lambda m, st, i, fn, args: [(st, None)])]
    st = m.start(f, [OUT, WORKERS, PATH, FILTER, DIRF, LOADERS, ("t", "rec"), TD], ghost=g.init, mem={("Path",): {"hv": True}, ("Tdir",): {"hv": True}, ("Out",): {"hv": True}})
    m.settag(st, PATH, SRC)
    m.settag(st, TD, TDIR)
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if not g.get(st, "taken"):
                bad.append(("nothing", None, "the files found by the scan are not handed out"))
    if not n and not bad:
        raise AnalysisBroken("collectSourceFiles does not return")
    ctx.oblige("scan: made with the given filters, loaders and directories, started once", True)
    report(ctx, "collect", bad, floc(f))


FCLS = "Maike::SourceTreeLoader::InputFilter"


def filters(ctx):
    """InputFilter: matches iff one of its expressions does; one expression per string"""
    p = ctx.prog
    roff = field(p, FCLS, lambda n, t: "basic_regex" in t, "the expressions")
    soff = field(p, FCLS, lambda n, t: "basic_string" in t and "basic_regex" not in t, "the strings")
    RV = ("p", ("This",), roff)
    f = p.one("^%s::match$" % FCLS)
    rt = re.search(r"std::(__cxx11::)?basic_regex<.*?> *>", [m for m in p.types[FCLS]["m"] if m[1] == roff][0][2])
    size = next((t["size"] for n, t in p.types.items() if n.startswith("std::__cxx11::basic_regex<char")), 32)
    STR = ("p", ("Str",), 0)
    bad = []
    m = ctx.machine(max_states=8000)
    cv = Cover(m, size)
    g = G(cov=(), hit=0)

    def h_search(m, st, i, fn, args):
        ptrs = [a for a in args if is_ptr(a) and elem_of(a) is not None]
        if len(ptrs) != 1 or STR not in args and not any(m.tag(st, a) == ("t", "thestring") for a in args if is_ptr(a)):
            raise AnalysisBroken("what is compared with an expression is unknown")
        s2 = st.copy()
        c = cv.visit(g.get(st, "cov"), ptrs[0])
        g.put(st, cov=c)
        g.put(s2, hit=1)
        return [(st, 0), (s2, 1)]

    def h_other(m, st, i, fn, args):
        bad.append(("whole", i.loc, "a path is excluded only if an expression matches all of it"))
        return [(st.copy(), 0), (st, 1)]

    def h_str(m, st, i, fn, args):
        if len(args) >= 2 and args[1] == STR:
            m.settag(st, args[0], ("t", "thestring"))
            return [(st, None)]
        return None
    m.hooks = [(re.compile(r"^std::(__cxx11::)?regex_search$"), h_search), (re.compile(r"^std::(__cxx11::)?regex_match$"), h_other), (re.compile(r"basic_string::basic_string$"), h_str)]
    m.run([m.start(f, [THIS, STR], ghost=g.init, mem={("This",): {"hv": True}})])
    ctx.absorb(m)
    n = 0
    for kind, v, st in split(m, m.outcomes):
        if kind != "ret":
            continue
        n += 1
        if v == 1 and not g.get(st, "hit"):
            bad.append(("spurious", None, "a path is excluded although no expression matches it"))
        elif v == 0 and g.get(st, "hit"):
            bad.append(("missed", None, "a path is not excluded although an expression matches it"))
        elif v == 0 and not cv.complete(st, g.get(st, "cov"), RV):
            bad.append(("some", None, "a path is not excluded although not every expression was tried"))
        elif v not in (0, 1):
            raise AnalysisBroken("filter: unknown result")
    ctx.need("paths of the filter", n, 2)
    ctx.oblige("filter: matches iff one of its expressions matches a part", True)
    # --- the expressions are made from the strings
    f2 = p.one("^%s::source$" % FCLS, lambda f: len(f.params) == 2)
    SV = ("p", ("Val",), 0)
    m = ctx.machine(max_states=20000)
    cs = Cover(m, 32)
    g = G(cov=(), made=0, n=None)

    def h_regex(m, st, i, fn, args):
        if len(args) < 2 or not is_ptr(args[1]):
            return None
        if "basic_regex" in fn.dn.split("(", 1)[1].split(",")[0]:
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        el = elem_of(args[1])
        if el is None:
            return None
        out = [(st.copy(), Throw("_ZTISt11regex_error"))]
        m.settag(st, args[0], ("t", "expr", args[1]))
        return out + [(st, None)]

    def h_push(m, st, i, fn, args):
        if "basic_regex" not in fn.dn.split("::push_back")[0].split("::emplace_back")[0]:
            return None
        t = m.tag(st, args[1]) if len(args) > 1 else TOP
        if is_term(t) and t[1] == "expr":
            g.put(st, cov=cs.visit(g.get(st, "cov"), t[2]), made=args[0])
            return [(st, None)]
        if len(args) > 1 and elem_of(args[1]) is not None:
            g.put(st, cov=cs.visit(g.get(st, "cov"), args[1]), made=args[0])
            return [(st, None)]
        bad.append(("expr", i.loc, "an expression is made from something else than the strings"))
        return [(st, None)]

    def h_assign(m, st, i, fn, args):
        if args[0] == RV and is_ptr(args[1]):
            t0 = ("t", "tag0", ("Val",), 0)
            if args[1] != g.get(st, "made") and g.get(st, "made"):
                bad.append(("other", i.loc, "the expressions are taken from elsewhere"))
            v = ("p", ("sym", ("t", "vdata", t0)), 0)
            if not complete_tag(m, cs, st, g.get(st, "cov"), t0):
                bad.append(("missing", i.loc, "not every string is made an expression"))
            g.put(st, n=1)
            return [(st, args[0])]
        return None
    m.hooks = [(re.compile(r"^std::(__cxx11::)?basic_regex::basic_regex$"), h_regex), (re.compile(r"^std::vector::(push_back|emplace_back)$"), h_push),
               (re.compile(r"^std::vector::(operator=|swap)$"), h_assign), (re.compile(r"^std::vector::reserve$"), lambda m, st, i, fn, args: [(st, None)])]
    m.run([m.start(f2, [THIS, SV], ghost=g.init, mem={("This",): {"hv": True}, ("Val",): {"hv": True}})])
    ctx.absorb(m)
    k = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            k += 1
            if not g.get(st, "n"):
                bad.append(("unset", None, "the expressions of a filter are not replaced"))
    if not k and not bad:
        raise AnalysisBroken("filter: strings could not be followed")
    ctx.oblige("filter: one expression per string", True)
    report(ctx, "filter", bad, floc(f))


def complete_tag(m, cv, st, cov, tag):
    t, f, b = cv.get(cov, tag)
    if f == "many" or b == "many" or f > 2 or b > 2:
        return True
    p, q = ("p", ("sym", ("t", "vdata", tag)), f * cv.es), ("p", ("sym", ("t", "vend", tag)), -b * cv.es)
    return m.cmp(st, "eq", p, q, 64) == 1 or m.cmp(st, "ult", f, ("t", "vsize", tag), 64) == 0 or m.cmp(st, "eq", f, ("t", "vsize", tag), 64) == 1
