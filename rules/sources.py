"""From the list of source files to the dependency graph."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .common import Cover, MapWalk, field, elem_of, find_term
from .tasks import report, THIS

RTE = "_ZTISt13runtime_error"


HIT = ("p", ("Hit",), 0)
mask32 = 0xffffffff


def shift(q, d):
    """pointer moved by a constant"""
    o = q[2]
    if isinstance(o, int):
        return ("p", q[1], o + d)
    if type(o) is tuple and o[0] == "*" and isinstance(o[2], int):
        return ("p", q[1], ("*", o[1], o[2] + d, o[3]))
    return q


STRING = re.compile(r"^std::(__cxx11::basic_string::|operator\+$|filesystem::__cxx11::path::(string|c_str|native))")


def quiet(m, st, i, fn, args):
    """string operations: no effect that matters, never throw"""
    return [x for x in m.opaque(st, st.frames[-1], i, fn, args) if not isinstance(x[1], Throw)]


class G:
    """named ghost components"""

    def __init__(self, **init):
        self.names = sorted(init)
        self.init = tuple(init[n] for n in self.names)

    def get(self, st, n):
        return st.ghost[self.names.index(n)]

    def put(self, st, **kw):
        g = list(st.ghost)
        for n, v in kw.items():
            g[self.names.index(n)] = v
        st.ghost = tuple(g)


def graph_ctor(ctx):
    """DependencyGraph's constructor: one node per file, every dependency refers to the node of its file or the construction fails"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::DependencyGraph::DependencyGraph$", lambda f: "IgnoreResolveErrors" in f.dn)
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name of a dependency")
    dsize = p.types["Maike::Db::Dependency"]["size"]
    voff = field(p, "Maike::Db::DependencyGraph", lambda n, t: "vector" in t and "SourceFileRecordConst" in t, "the nodes")
    moff = field(p, "Maike::Db::DependencyGraph", lambda n, t: "map" in t, "the files")
    NODES = ("p", ("This",), voff)
    MAP = ("p", ("This",), moff)
    bad = []
    for ignore in (0, 1):
        m = ctx.machine(max_states=60000)
        cv = Cover(m, dsize)
        # look: dependency looked up, node found, whether it is known to be the right one
        g = G(walks=(), cov=(), look=None, item=(0, 0, 0), all=(1, 1, 1), done=(0, 0, 0), rec=None, count=0)

        def leave(st, mp, cur, done, i):
            if mp != MAP:
                return
            a, it = g.get(st, "all"), g.get(st, "item")
            g.put(st, all=tuple(x & y for x, y in zip(a, it)), item=(0, 0, 0), rec=None, cov=(), look=None)
        mw = MapWalk(m, lambda st: g.get(st, "walks"), lambda st, w: g.put(st, walks=w), leave)

        def settle(st):
            if mw.finished(st, MAP):
                g.put(st, done=tuple(x | y for x, y in zip(g.get(st, "done"), g.get(st, "all"))))
            g.put(st, all=(1, 1, 1), item=(0, 0, 0))

        def h_begin(m, st, i, fn, args):
            if args[0] == MAP:
                settle(st)
            return None

        def getter(kind):
            def h(m, st, i, fn, args):
                if len(fn.params) == 1:
                    return [(st, ("p", ("sym", ("t", kind, args[0])), 0))]
                k = 1 if kind == "usedeps" else 2
                own = ("p", ("sym", ("t", kind, args[0])), 0)
                if mw.current(st, args[0]) is None:
                    return None
                if m.tag(st, args[1]) != m.tag(st, own):
                    bad.append(("otherdeps", i.loc, "the %s dependencies of a file are replaced by something else" % ("use" if k == 1 else "build")))
                elif not cv.complete(st, g.get(st, "cov"), args[1]):
                    bad.append(("unresolved", i.loc, "not every %s dependency of a file is resolved%s" %
                                ("use" if k == 1 else "build", "" if not ignore else ", although unresolved ones are tolerated")))
                it = list(g.get(st, "item"))
                it[k] = 1
                tag = m.tag(st, args[1])
                g.put(st, item=tuple(it), cov=tuple(x for x in g.get(st, "cov") if x[0] != tag))
                return [(st, args[0])]
            return h

        def dep_of(q):
            if elem_of(q) is None:
                return None
            return shift(q, -noff)

        def missing(st):
            dep = g.get(st, "look")[0]
            if ignore:
                c = cv.visit(g.get(st, "cov"), dep)
                if c is not None:
                    g.put(st, cov=c)

        def h_bound(m, st, i, fn, args):
            if len(args) < 3 or not is_ptr(args[0]):
                return None
            dep = dep_of(args[2])
            if dep is None:
                return None
            data, end = m.vec_range(st, NODES)
            if args[0] != data or args[1] != end:
                bad.append(("range", i.loc, "a dependency is looked up in a part of the files only"))
            s2 = st.copy()
            g.put(s2, look=(dep, None, 0))
            missing(s2)
            g.put(s2, look=None)
            g.put(st, look=(dep, HIT, None))
            return [(s2, args[1]), (st, HIT)]

        def h_cmphook(st, pred, a, b, w):
            if pred == "eq" and (a == HIT or b == HIT) and a != b:
                return 0
            return None

        def h_rpath(m, st, i, fn, args):
            return [(st, ("p", ("sym", ("t", "pathof", args[0])), 0))] if len(fn.params) == 1 else None

        def h_id(m, st, i, fn, args):
            return [(st, ("t", "idof", args[0]))] if len(fn.params) == 1 else None

        def h_cmp(m, st, i, fn, args):
            lk = g.get(st, "look")
            if lk is None or len(args) < 2 or lk[1] is None:
                return None
            po = ("p", ("sym", ("t", "pathof", lk[1])), 0)
            a, b = args[-2:]
            if not (dep_of(a) == lk[0] and b == po or dep_of(b) == lk[0] and a == po):
                return None
            op = fn.sn.split("operator")[-1]
            if "compare" in fn.sn:
                s2 = st.copy()
                g.put(st, look=(lk[0], lk[1], 1))
                g.put(s2, look=(lk[0], lk[1], 0))
                missing(s2)
                return [(st, 0), (s2, mask32 if dep_of(a) == lk[0] else 1)]
            less = dep_of(a) == lk[0]      # dependency < found file
            vals = {"<": (0, 1) if less else (0, 0), ">": (0, 0) if less else (0, 1), "==": (1, 0), "!=": (0, 1),
                    "<=": (1, 1) if less else (1, 0), ">=": (1, 0) if less else (1, 1)}.get(op)
            if vals is None:
                return None
            out = []
            for eq in (0, 1):
                if lk[2] is not None and lk[2] != eq:
                    continue
                s2 = st.copy()
                if lk[2] is None and vals[0] != vals[1]:
                    g.put(s2, look=(lk[0], lk[1], eq))
                    if not eq:
                        missing(s2)
                        g.put(s2, look=None)
                out.append((s2, vals[0] if eq else vals[1]))
            return out

        def h_ref(m, st, i, fn, args):
            if len(fn.params) != 2:
                return None
            lk = g.get(st, "look")
            if lk is None or args[0] != lk[0]:
                if elem_of(args[0]) is not None:
                    bad.append(("wrongdep", i.loc, "another dependency than the one that was looked up is resolved"))
                return None
            if lk[2] != 1:
                bad.append(("wrongnode", i.loc, "a dependency is resolved to a file with another name"))
            elif args[1] != ("t", "idof", lk[1]):
                bad.append(("wrongid", i.loc, "a dependency is resolved to something else than the file that was found"))
            c = cv.visit(g.get(st, "cov"), args[0])
            g.put(st, cov=c if c is not None else g.get(st, "cov"), look=None)
            return [(st, args[0])]

        def h_rec(m, st, i, fn, args):
            if len(args) < 4:
                return None
            n = g.get(st, "count")
            cur = mw.current(st, args[2])
            if cur is None or not is_ptr(args[3]) or args[3][1] != args[2][1]:
                if mw.get(st):
                    bad.append(("mixed", i.loc, "a node is made of the name and contents of different files"))
            elif isinstance(args[1], int) and n < 2 and args[1] != n:
                bad.append(("ids", i.loc, "the id of a node is not its position"))
            else:
                g.put(st, rec=args[0], count=min(n + 1, 2))
            return [(st, None)]

        def h_push(m, st, i, fn, args):
            if args[0] == NODES and g.get(st, "rec") is not None:
                it = g.get(st, "item")
                g.put(st, item=(1,) + it[1:], rec=None)
            return None
        m.cmp_hook = h_cmphook
        m.hooks = [(re.compile(r"^std::map::c?begin$"), h_begin), (re.compile(r"^std::map::map$"), lambda m, st, i, fn, args: [(st, None)])] + mw.hooks() + [
            (re.compile(r"^Maike::Db::SourceFileInfo::useDeps$"), getter("usedeps")), (re.compile(r"^Maike::Db::SourceFileInfo::buildDeps$"), getter("builddeps")),
            (re.compile(r"^std::lower_bound$"), h_bound), (re.compile(r"^Maike::Db::SourceFileRecordConst::path$"), h_rpath),
            (re.compile(r"^Maike::Db::Dependency::expectedOrigin$"), lambda m, st, i, fn, args: [(st, TOP)]),
            (re.compile(r"^Maike::Db::SourceFileRecordConst::id$"), h_id), (re.compile(r"^std::filesystem::(__cxx11::)?(path::compare|operator(<|>|==|!=|<=|>=))$"), h_cmp),
            (re.compile(r"^Maike::Db::Dependency::reference$"), h_ref), (re.compile(r"^Maike::Db::SourceFileRecordConst::SourceFileRecordConst$"), h_rec),
            (re.compile(r"^std::vector::(push_back|emplace_back)$"), h_push), (STRING, quiet)]
        st = m.start(f, [THIS, ("p", ("Src",), 0), ignore], ghost=g.init, roots=[NODES])
        m.run([st])
        ctx.absorb(m)
        nret = 0
        for kind, v, st in m.outcomes:
            if kind != "ret":
                continue
            nret += 1
            settle(st)
            d = g.get(st, "done")
            if not d[0]:
                bad.append(("nodes", None, "not every file gets a node"))
            if not d[1]:
                bad.append(("use", None, "the use dependencies of some files are not resolved"))
            if not d[2]:
                bad.append(("build", None, "the build dependencies of some files are not resolved"))
        ctx.need("paths of the graph's constructor", nret, 1)
    for n in ("every file gets one node", "ids are positions", "every use dependency refers to the node with its name, or construction fails",
              "every build dependency refers to the node with its name, or construction fails"):
        ctx.oblige("graph: " + n, True)
    report(ctx, "graph", bad, floc(f))


PATH = r"std::filesystem::(__cxx11::)?"


def hitcmp(st, pred, a, b, w):
    if pred == "eq" and a != b:
        for x in (a, b):
            if is_ptr(x) and x[1][0] == "Hit":
                return 0
    return None


def insert_unique(ctx):
    """insertUnique: a name that is already there is an error, any other is inserted"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::insertUnique$")
    bad = []
    m = ctx.machine(max_states=20000)
    # key: tag of the name looked up; found: 1/0; ins: number of insertions that took place
    g = G(key=None, found=None, ins=0)
    LIST = ("p", ("List",), 0)
    noff = field(p, "Maike::Db::TargetInfo", lambda n, t: "path" in t and "name" in n, "the name of a target")
    TNAME = ("p", ("Tgt",), noff)

    def iskey(st, tag):
        own = m.tag(st, TNAME)
        return tag == own or tag == ("t", "norm", own)

    def h_norm(m, st, i, fn, args):
        m.havoc_range(st, args[0], 40)
        m.settag(st, args[0], ("t", "norm", m.tag(st, args[1])))
        return [(st, None)]

    def h_find(m, st, i, fn, args):
        if args[0] != LIST:
            return None
        tag = m.tag(st, args[1])
        if not iskey(st, tag):
            bad.append(("key", i.loc, "another name than that of the target is looked up"))
        if fn.sn.endswith("find"):
            vals = (MapWalk.end(LIST), ("p", ("Hit",), 0))
        elif fn.sn.endswith(("count", "contains")):
            vals = (0, 1)
        else:
            return None
        out = []
        for k in (0, 1):
            if g.get(st, "key") == tag and g.get(st, "found") is not None and g.get(st, "found") != k:
                continue
            s2 = st.copy()
            g.put(s2, key=tag, found=k)
            out.append((s2, vals[k]))
        return out

    def h_insert(m, st, i, fn, args):
        if args[0] != LIST or fn.sn.endswith("hint"):
            return None
        if fn.sn.endswith(("insert_or_assign", "operator[]", "at")):
            bad.append(("overwrite", i.loc, "a target with the same name is overwritten"))
        tag = m.tag(st, args[1])
        if tag != TOP and not iskey(st, tag):
            bad.append(("key", i.loc, "a target is registered by another name than its own"))
        out = []
        for k in (0, 1):
            if g.get(st, "found") is not None and g.get(st, "found") != k:
                continue
            s2 = st.copy()
            g.put(s2, found=k, ins=g.get(s2, "ins") + (1 - k))
            out.append((s2, ("agg", (("p", ("Hit",), 0), 1 - k))))
        return out
    m.cmp_hook = hitcmp
    m.hooks = [(re.compile(r"^std::map::c?end$"), lambda m, st, i, fn, args: [(st, MapWalk.end(args[0]))]),
               (re.compile(r"^std::map::(find|count|contains)$"), h_find),
               (re.compile(r"^std::map::(insert|emplace|try_emplace|insert_or_assign|operator\[\])$"), h_insert),
               (re.compile(r"path::lexically_normal$"), h_norm), (STRING, quiet)]
    m.run([m.start(f, [("p", ("Tgt",), 0), ("p", ("Entry",), 0), LIST], ghost=g.init, roots=[LIST])])
    ctx.absorb(m)
    got = set()
    for kind, v, st in m.outcomes:
        fnd, ins = g.get(st, "found"), g.get(st, "ins")
        got.add((kind, fnd))
        if kind == "ret" and fnd != 0:
            bad.append(("duplicate", None, "a target that is already defined is accepted" if fnd else "a target is accepted without looking for its name"))
        if kind == "ret" and fnd == 0 and ins != 1:
            bad.append(("insert", None, "a new target is not registered"))
        if kind == "exc" and fnd == 0:
            bad.append(("reject", None, "a new target is rejected"))
    ctx.need("paths of insertUnique", len(got), 2)
    for n in ("a name that is already taken is an error", "a new name is registered"):
        ctx.oblige("unique targets: " + n, True)
    report(ctx, "unique targets", bad, floc(f))


def collect(ctx):
    """collectTargets: every target of every file is registered"""
    p = ctx.prog
    fns = p.find(r"^Maike::Db::collectTargets$")
    one = [f for f in fns if len(f.params) == 2 and not f.params[0].startswith("pr")]
    all_ = [f for f in fns if f not in one]
    if len(one) != 1 or len(all_) != 1:
        raise AnalysisBroken("collectTargets: %d functions" % len(fns))
    bad = []
    # --- one file
    f = one[0]
    m = ctx.machine(max_states=20000)
    cv = Cover(m, p.types["Maike::Db::TargetInfo"]["size"])
    noff = field(p, "Maike::Db::TargetInfo", lambda n, t: "path" in t and "name" in n, "the name of a target")
    TV = ("p", ("sym", ("t", "targetvec")), 0)
    ENTRY, LIST = ("p", ("Entry",), 0), ("p", ("List",), 0)
    g = G(cov=(), eq=None)

    def visit(st, q):
        c = cv.visit(g.get(st, "cov"), q)
        if c is not None:
            g.put(st, cov=c)
        return c is not None

    def h_cmp(m, st, i, fn, args):
        a, b = args[-2:]
        if b == ENTRY:
            a, b = b, a
        if a != ENTRY or elem_of(b) is None:
            return None
        el = shift(b, -noff)
        op = fn.sn.split("operator")[-1]
        if "compare" in fn.sn:
            vals = (1, 0)
        elif op in ("==", "!="):
            vals = (0, 1) if op == "==" else (1, 0)
        else:
            return None
        s2 = st.copy()
        visit(s2, el)
        return [(st, vals[0]), (s2, vals[1])]

    def h_ins(m, st, i, fn, args):
        if args[2] != LIST:
            bad.append(("otherlist", i.loc, "a target is registered in another list"))
        if args[1] != ENTRY:
            bad.append(("otherfile", i.loc, "a target is registered for another file than its own"))
        s2 = st.copy()
        visit(st, args[0])
        return [(st, None), (s2, Throw(RTE, "duplicate"))]
    m.hooks = [(re.compile(r"^Maike::Db::SourceFileInfo::targets$"), lambda m, st, i, fn, args: [(st, TV)] if len(fn.params) == 1 else None),
               (re.compile(r"^" + PATH + r"(path::compare|operator(==|!=))$"), h_cmp), (re.compile(r"^Maike::Db::insertUnique$"), h_ins), (STRING, quiet)]
    m.run([m.start(f, [ENTRY, LIST], ghost=g.init, roots=[TV])])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if not cv.complete(st, g.get(st, "cov"), TV):
                bad.append(("some", None, "not every target of a file is registered"))
    ctx.need("paths of collectTargets", n, 1)
    # --- all files
    f2 = all_[0]
    m = ctx.machine(max_states=20000)
    MAP = ("p", ("Files",), 0)
    g2 = G(walks=(), ok=1)

    def leave(st, mp, cur, done, i):
        if mp == MAP and not done:
            g2.put(st, ok=0)
    mw = MapWalk(m, lambda st: g2.get(st, "walks"), lambda st, w: g2.put(st, walks=w), leave)

    def h_coll(m, st, i, fn, args):
        if len(args) != 2 or fn.params[0].startswith("pr"):
            return None
        s2 = st.copy()
        mw.mark(st, args[0])
        return [(st, None), (s2, Throw(RTE, "duplicate"))]
    nop = lambda m, st, i, fn, args: [(st, None)]
    m.hooks = mw.hooks() + [(re.compile(r"^Maike::Db::collectTargets$"), h_coll), (re.compile(r"^std::map::~?map$"), nop)]
    args = []
    for k, t in enumerate(f2.params):
        args.append(("p", ("Ret",), 0) if k == 0 else MAP)
    m.run([m.start(f2, args, ghost=g2.init, roots=[MapWalk.end(MAP)])])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if not g2.get(st, "ok") or not mw.finished(st, MAP):
                bad.append(("files", None, "the targets of some files are not registered"))
    ctx.need("paths of collectTargets(all)", n, 1)
    for n in ("every target of a file", "every file", "a duplicate is an error"):
        ctx.oblige("targets: " + n, True)
    report(ctx, "targets", bad, floc(f))


def walk_rule(ctx, f, args, MAP, hooks, g, on_leave, max_states=30000, cmp_hook=None, roots=()):
    """explores f, which walks over the map MAP; returns (machine, walk, states at return)"""
    m = ctx.machine(max_states=max_states)
    mw = MapWalk(m, lambda st: g.get(st, "walks"), lambda st, w: g.put(st, walks=w), lambda st, mp, cur, done, i: on_leave(m, st, cur, done, i) if mp == MAP else None)
    m.cmp_hook = cmp_hook
    m.hooks = mw.hooks() + hooks(m, mw) + [(re.compile(r"^std::map::~?map$"), lambda m, st, i, fn, a: [(st, None)]), (STRING, quiet)]
    m.run([m.start(f, args, ghost=g.init, roots=[MapWalk.end(MAP)] + list(roots))])
    ctx.absorb(m)
    rets = [st for kind, v, st in m.outcomes if kind == "ret"]
    ctx.need("paths of " + f.sn, len(rets), 1)
    return m, mw, rets


def placeholders(ctx):
    """createPlaceholdersForExternalEntries: every external use dependency of every file and target"""
    p = ctx.prog
    bad = []
    dsize = p.types["Maike::Db::Dependency"]["size"]
    tsize = p.types["Maike::Db::TargetInfo"]["size"]
    uoff = field(p, "Maike::Db::TargetInfo", lambda n, t: "vector" in t, "the dependencies of a target")
    TV, UV = ("p", ("sym", ("t", "targetvec")), 0), ("p", ("sym", ("t", "usevec")), 0)
    LIST, ITEM = ("p", ("List",), 0), ("p", ("Entry",), 0)
    # --- one dependency
    f = p.one(r"^Maike::Db::insertPlaceholderIfExternal$")
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name of a dependency")
    m = ctx.machine(max_states=5000)
    DEP = ("p", ("Dep",), 0)

    def h_ext(m, st, i, fn, args):
        s2 = st.copy()
        st.ghost, s2.ghost = (0, st.ghost[1]), (1, st.ghost[1])
        return [(st, 0), (s2, 1)]

    def h_ins(m, st, i, fn, args):
        if args[0] != LIST:
            return None
        t = m.tag(st, args[1])
        if t != TOP and t != m.tag(st, ("p", ("Dep",), noff)):
            bad.append(("name", i.loc, "the placeholder of an external file gets another name"))
        st.ghost = (st.ghost[0], st.ghost[1] + 1)
        return [(st, ("agg", (("p", ("Hit",), 0), m.fresh(st, "new", "i8"))))]
    nop = lambda m, st, i, fn, args: [(st, None)]
    m.hooks = [(re.compile(r"^Maike::Db::isExternal$"), h_ext), (re.compile(r"^std::map::(insert|emplace|try_emplace|insert_or_assign)$"), h_ins),
               (re.compile(r"^Maike::Db::(SourceFileInfo::~?SourceFileInfo|Compiler::~?Compiler)$"), nop), (STRING, quiet)]
    m.run([m.start(f, [DEP, LIST], ghost=(None, 0))])
    ctx.absorb(m)
    for kind, v, st in m.outcomes:
        if kind == "ret" and st.ghost[0] == 1 and st.ghost[1] != 1:
            bad.append(("missing", None, "an external file gets no placeholder"))
        if kind == "ret" and st.ghost[0] == 0 and st.ghost[1]:
            bad.append(("local", None, "a file that should be part of the project gets a placeholder, so that it is not missed"))
        if kind == "ret" and st.ghost[0] is None:
            raise AnalysisBroken("placeholder: origin not looked at")
    # --- one file
    f1 = [h for h in p.find(r"^Maike::Db::insertPlaceholdersForExternalEntries$") if "pair<" in h.dn.split("(")[1].split("map<")[0]]
    if len(f1) != 1:
        raise AnalysisBroken("insertPlaceholdersForExternalEntries: %d functions" % len(f1))
    m = ctx.machine(max_states=30000)
    cd, ct = Cover(m, dsize), Cover(m, tsize)
    g = G(cov=(), tcov=(), pend=None)

    def settle(st):
        """the target whose dependencies were being looked at is done if all of them were"""
        if g.get(st, "pend") is None:
            return
        q, vec = g.get(st, "pend")
        if cd.complete(st, g.get(st, "cov"), vec):
            c = ct.visit(g.get(st, "tcov"), q)
            if c is not None:
                g.put(st, tcov=c)
        tag = m.tag(st, vec)
        g.put(st, pend=None, cov=tuple(x for x in g.get(st, "cov") if x[0] != tag))

    def h_one(m, st, i, fn, args):
        c = cd.visit(g.get(st, "cov"), args[0])
        if c is None:
            return None
        g.put(st, cov=c)
        return [(st, None)]

    def h_tuse(m, st, i, fn, args):
        if elem_of(args[0]) is None:
            return None
        vec = ("p", ("sym", ("t", "tuse", args[0])), 0)
        if g.get(st, "pend") != (args[0], vec):
            settle(st)
            g.put(st, pend=(args[0], vec))
        return [(st, vec)]
    m.hooks = [(re.compile(r"^Maike::Db::SourceFileInfo::targets$"), lambda m, st, i, fn, a: [(st, TV)] if len(fn.params) == 1 else None),
               (re.compile(r"^Maike::Db::SourceFileInfo::useDeps$"), lambda m, st, i, fn, a: [(st, UV)] if len(fn.params) == 1 else None),
               (re.compile(r"^Maike::Db::TargetInfo::useDeps$"), h_tuse),
               (re.compile(r"^Maike::Db::insertPlaceholderIfExternal$"), h_one), (STRING, quiet)]
    m.run([m.start(f1[0], [ITEM, LIST], ghost=g.init, roots=[TV, UV])])
    ctx.absorb(m)
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        settle(st)
        if not cd.complete(st, g.get(st, "cov"), UV):
            bad.append(("use", None, "not every use dependency of a file is considered for a placeholder"))
        if not ct.complete(st, g.get(st, "tcov"), TV):
            bad.append(("targets", None, "not every target of a file is considered for placeholders"))
    # --- all files
    f2 = p.one(r"^Maike::Db::createPlaceholdersForExternalEntries$")
    MAP = ("p", ("Files",), 0)
    g2 = G(walks=(), ok=1)

    def leave(m, st, cur, done, i):
        if not done:
            g2.put(st, ok=0)

    def hooks(m, mw):
        def h(m, st, i, fn, args):
            if mw.mark(st, args[0]):
                return [(st, None)]
            return None
        return [(re.compile(r"^Maike::Db::insertPlaceholdersForExternalEntries$"), h)]
    m, mw, rets = walk_rule(ctx, f2, [("p", ("Ret",), 0), MAP], MAP, hooks, g2, leave)
    for st in rets:
        if not g2.get(st, "ok") or not mw.finished(st, MAP):
            bad.append(("files", None, "the external dependencies of some files get no placeholder"))
    for n in ("external dependencies get one", "others get none", "every use dependency", "every target", "every file"):
        ctx.oblige("placeholders: " + n, True)
    report(ctx, "placeholders", bad, floc(f2))


NOP = lambda m, st, i, fn, args: [(st, None)]


def target_node(ctx):
    """makeSourceFileInfo: the node of a target depends on its source file, on its own use dependencies and on what the files it includes bring along"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::makeSourceFileInfo$")
    m = ctx.machine(max_states=30000)
    bad = []
    cv = Cover(m, p.types["Maike::Db::Dependency"]["size"])
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name of a dependency")
    ITEM, GRAPH, RET = ("p", ("Item",), 0), ("p", ("Graph",), 0), ("p", ("Ret",), 0)
    TUSE = ("p", ("sym", ("t", "tuse")), 0)
    SRC = ("p", ("SrcName",), 0)
    CHILD = ("p", ("sym", ("t", "childdeps")), 0)
    # holder: the vector that started as a copy of the target's dependencies; node: what was looked up; walked: the traversal took place
    g = G(holder=None, node=None, walked=0, cov=(), use=0, dep=0, build=0, asked=0)

    def h_tuse(m, st, i, fn, args):
        g.put(st, asked=1)
        return [(st, TUSE)]

    def h_copy(m, st, i, fn, args):
        if len(args) >= 2 and m.tag(st, args[1]) == m.tag(st, TUSE) and fn.sn.endswith("vector"):
            g.put(st, holder=args[0])
        return None

    def h_node(m, st, i, fn, args):
        if args[1] != GRAPH:
            return None
        if args[2] != SRC:
            bad.append(("node", i.loc, "the dependencies of a target are taken from another file than its source file"))
        m.havoc_range(st, args[0], 24)
        g.put(st, node=args[0])
        return [(st, None)]

    def h_walk(m, st, i, fn, args):
        if args[1] != GRAPH or args[2] != g.get(st, "node"):
            bad.append(("from", i.loc, "the files included by a target are not looked up from its source file"))
        mm = re.search(r"processGraphNodeRecursive<(.*?)\$_\d+", fn.dn)
        c = [h for h in p.funcs.values() if not h.decl and h.in_repo and re.search(r"makeSourceFileInfo::+operator\(\)$", h.sn) and len(h.params) == 3]
        if len(c) != 1:
            raise AnalysisBroken("makeSourceFileInfo: callback not found")
        g.put(st, walked=1)
        return m.enter(st, st.frames[-1], i, c[0], [args[0], ("p", ("Node",), 0), ("p", ("Edge",), 0)])

    def h_push(m, st, i, fn, args):
        if args[0] != g.get(st, "holder"):
            return None
        c = cv.visit(g.get(st, "cov"), args[1])
        if c is not None:
            g.put(st, cov=c)
        return [(st, None if i.d < 0 else args[1])]

    def h_cmp(m, st, i, fn, args):
        a, b = args[-2:]
        if b == ITEM:
            pass
        elif a == ITEM:
            a, b = b, a
        else:
            return None
        if elem_of(a) is None:
            return None
        op = fn.sn.split("operator")[-1]
        vals = (1, 0) if "compare" in fn.sn or op == "!=" else (0, 1) if op == "==" else None
        if vals is None:
            return None
        s2 = st.copy()
        c = cv.visit(g.get(s2, "cov"), shift(a, -noff))
        if c is not None:
            g.put(s2, cov=c)
        return [(st, vals[0]), (s2, vals[1])]

    def h_dep(m, st, i, fn, args):
        if len(args) != 4:
            return None
        if args[1] == SRC:
            g.put(st, dep=1)
        return [(st, None)]

    def h_use(m, st, i, fn, args):
        if len(args) != 2:
            return None
        if not g.get(st, "asked"):
            bad.append(("use", i.loc, "a target loses its use dependencies"))
        elif args[1] != g.get(st, "holder"):
            raise AnalysisBroken("makeSourceFileInfo: dependencies of the target lost track of")
        g.put(st, use=2 if g.get(st, "walked") else 1)
        return [(st, args[0])]

    def h_build(m, st, i, fn, args):
        if len(args) != 2:
            return None
        g.put(st, build=1)
        return [(st, args[0])]
    m.hooks = [(re.compile(r"^Maike::Db::Target::useDeps$"), h_tuse), (re.compile(r"^Maike::Db::Target::sourceFilename$"), lambda m, st, i, fn, a: [(st, SRC)]),
               (re.compile(r"^std::vector::vector$"), h_copy), (re.compile(r"^Maike::Db::getNode$"), h_node), (re.compile(r"^Maike::processGraphNodeRecursive$"), h_walk),
               (re.compile(r"^Maike::Db::SourceFileInfo::childTargetsUseDeps$"), lambda m, st, i, fn, a: [(st, CHILD)] if len(a) == 1 else None),
               (re.compile(r"^std::vector::(push_back|emplace_back)$"), h_push), (re.compile(r"^" + PATH + r"(path::compare|operator(==|!=))$"), h_cmp),
               (re.compile(r"^Maike::Db::Dependency::Dependency$"), h_dep), (re.compile(r"^Maike::Db::SourceFileInfo::useDeps$"), h_use),
               (re.compile(r"^Maike::Db::SourceFileInfo::buildDeps$"), h_build), (re.compile(r"^Maike::Db::(SourceFileInfo::~?SourceFileInfo|Compiler::~?Compiler|Dependency::~Dependency)$"), NOP),
               (re.compile(r"^Maike::Db::SourceFileRecordConst::"), None) if False else (STRING, quiet)]
    m.run([m.start(f, [RET, ITEM, GRAPH], ghost=g.init, roots=[CHILD, TUSE])])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        if g.get(st, "use") == 0:
            bad.append(("use", None, "a target loses its use dependencies"))
        elif g.get(st, "use") == 1 or not cv.complete(st, g.get(st, "cov"), CHILD):
            bad.append(("child", None, "a target does not get all dependencies that the files it includes bring along"))
        if not g.get(st, "build") or not g.get(st, "dep"):
            bad.append(("build", None, "a target does not depend on its source file"))
    ctx.need("paths of makeSourceFileInfo", n, 1)
    # --- all targets
    f2 = p.one(r"^Maike::Db::makeSourceFileInfos$")
    MAP, LIST = ("p", ("Targets",), 0), ("p", ("Files",), 0)
    g2 = G(walks=(), ok=1, made=0)

    def leave(m, st, cur, done, i):
        if not done:
            g2.put(st, ok=0)
        g2.put(st, made=0)

    def hooks(m, mw):
        def h_make(m, st, i, fn, args):
            cur = mw.current(st, args[1])
            g2.put(st, made=1 if cur else 0)
            return [(st, None)]

        def h_ins(m, st, i, fn, args):
            if args[0] != LIST:
                return None
            for mp, cur, done in g2.get(st, "walks"):
                t = m.tag(st, args[1])
                own = m.tag(st, shift(cur, 32)) if is_ptr(cur) else None
                if mp == MAP and g2.get(st, "made") and (t == TOP or t == own):
                    mw.mark(st, cur)
                elif mp == MAP and t != TOP and t != own:
                    bad.append(("name", i.loc, "the node of a target gets another name"))
            return [(st, ("agg", (("p", ("Hit",), 0), m.fresh(st, "new", "i8"))))]
        return [(re.compile(r"^Maike::Db::makeSourceFileInfo$"), h_make), (re.compile(r"^std::map::(insert|emplace|try_emplace|insert_or_assign)$"), h_ins),
                (re.compile(r"^Maike::Db::DependencyGraph::~?DependencyGraph$"), NOP), (re.compile(r"^Maike::Db::SourceFileInfo::~?SourceFileInfo$"), NOP)]
    m, mw, rets = walk_rule(ctx, f2, [MAP, LIST], MAP, hooks, g2, leave)
    for st in rets:
        if not g2.get(st, "ok") or not mw.finished(st, MAP):
            bad.append(("all", None, "some targets get no node"))
    for n in ("depends on its source file", "keeps its use dependencies", "gets the dependencies of included files", "every target gets a node"):
        ctx.oblige("target nodes: " + n, True)
    report(ctx, "target nodes", bad, floc(f))


def target_deps(ctx):
    """addTargetDepsToSourceFiles: a file that says so gets the use dependencies of all of its targets"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::addTargetDepsToSourceFiles$")
    bad = []
    dsize, tsize = p.types["Maike::Db::Dependency"]["size"], p.types["Maike::Db::TargetInfo"]["size"]
    noff = field(p, "Maike::Db::TargetInfo", lambda n, t: "path" in t and "name" in n, "the name of a target")
    MAP = ("p", ("Files",), 0)
    # asked: useTargetDeps of the current file; holder: copy of its dependencies; pend: (target, its node's dependencies) being copied
    g = G(walks=(), ok=1, asked=None, holder=None, pend=None, cov=(), tcov=(), set=0)
    box = {}

    def settle(st):
        m = box["m"]
        if g.get(st, "pend") is None:
            return
        q, vec = g.get(st, "pend")
        if box["cd"].complete(st, g.get(st, "cov"), vec):
            c = box["ct"].visit(g.get(st, "tcov"), q)
            if c is not None:
                g.put(st, tcov=c)
        tag = m.tag(st, vec)
        g.put(st, pend=None, cov=tuple(x for x in g.get(st, "cov") if x[0] != tag))

    def leave(m, st, cur, done, i):
        if g.get(st, "asked") is None or g.get(st, "asked") == 1 and not g.get(st, "set"):
            g.put(st, ok=0)
        g.put(st, asked=None, holder=None, pend=None, cov=(), tcov=(), set=0)

    def hooks(m, mw):
        cd, ct = Cover(m, dsize), Cover(m, tsize)
        box.update(m=m, cd=cd, ct=ct)

        def vec(kind, q):
            return ("p", ("sym", ("t", kind, q)), 0)

        def h_ask(m, st, i, fn, args):
            if mw.current(st, args[0]) is None:
                return None
            s2 = st.copy()
            g.put(st, asked=0)
            g.put(s2, asked=1)
            return [(st, 0), (s2, 1)]

        def h_use(m, st, i, fn, args):
            if len(args) == 1:
                if is_ptr(args[0]) and args[0][1][0] == "Hit":
                    v = vec("hituse", g.get(st, "pend")[0] if g.get(st, "pend") else args[0])
                    if g.get(st, "pend"):
                        g.put(st, pend=(g.get(st, "pend")[0], v))
                    return [(st, v)]
                return [(st, vec("use", args[0]))]
            if mw.current(st, args[0]) is None:
                return None
            settle(st)
            if args[1] != g.get(st, "holder"):
                raise AnalysisBroken("addTargetDeps: dependencies lost track of")
            if not ct.complete(st, g.get(st, "tcov"), vec("targets", args[0])):
                bad.append(("some", i.loc, "a file does not get the dependencies of all of its targets"))
            g.put(st, set=1)
            return [(st, args[0])]

        def h_copy(m, st, i, fn, args):
            if len(args) >= 2 and is_ptr(args[1]):
                t = m.tag(st, args[1])
                for mp, cur, d in g.get(st, "walks"):
                    if is_ptr(cur) and find_term(t, "use") is not None and mw.current(st, find_term(t, "use")[2]):
                        g.put(st, holder=args[0])
            return None

        def h_find(m, st, i, fn, args):
            if args[0] != MAP:
                return None
            settle(st)
            if elem_of(args[1]) is None:
                return None
            q = shift(args[1], -noff)
            s2 = st.copy()
            c = ct.visit(g.get(s2, "tcov"), q)      # a target without a node has nothing to give
            if c is not None:
                g.put(s2, tcov=c)
            g.put(st, pend=(q, vec("hituse", q)))
            return [(s2, MapWalk.end(MAP)), (st, ("p", ("Hit",), 0))]

        def h_push(m, st, i, fn, args):
            if args[0] != g.get(st, "holder"):
                return None
            c = cd.visit(g.get(st, "cov"), args[1])
            if c is not None:
                g.put(st, cov=c)
            return [(st, None if i.d < 0 else args[1])]

        def h_ins(m, st, i, fn, args):
            """insert(position, first, last)"""
            if args[0] != g.get(st, "holder") or len(args) != 4 or g.get(st, "pend") is None:
                return None
            data, end = m.vec_range(st, g.get(st, "pend")[1])
            if args[2] == data and args[3] == end:
                c = ct.visit(g.get(st, "tcov"), g.get(st, "pend")[0])
                g.put(st, tcov=c if c is not None else g.get(st, "tcov"), pend=None)
            return [(st, m.fresh(st, "it", i.t) if i.d >= 0 else None)]
        def h_stdcopy(m, st, i, fn, args):
            if g.get(st, "pend") is None or args[-1] != g.get(st, "holder"):
                return None
            data, end = m.vec_range(st, g.get(st, "pend")[1])
            if args[0] == data and args[1] == end:
                c = ct.visit(g.get(st, "tcov"), g.get(st, "pend")[0])
                g.put(st, tcov=c if c is not None else g.get(st, "tcov"), pend=None)
            return [(st, args[-1])]
        return [(re.compile(r"^std::copy$"), h_stdcopy), (re.compile(r"^Maike::Db::SourceFileInfo::useTargetDeps$"), h_ask), (re.compile(r"^Maike::Db::SourceFileInfo::useDeps$"), h_use),
                (re.compile(r"^Maike::Db::SourceFileInfo::targets$"), lambda m, st, i, fn, a: [(st, vec("targets", a[0]))] if len(a) == 1 else None),
                (re.compile(r"^std::vector::vector$"), h_copy), (re.compile(r"^std::map::find$"), h_find),
                (re.compile(r"^std::vector::(push_back|emplace_back)$"), h_push), (re.compile(r"^std::vector::insert$"), h_ins)]
    m, mw, rets = walk_rule(ctx, f, [MAP], MAP, hooks, g, leave, cmp_hook=hitcmp, max_states=60000)
    for st in rets:
        if not g.get(st, "ok") or not mw.finished(st, MAP):
            bad.append(("files", None, "some files do not get the dependencies of their targets"))
    for n in ("every file", "every target of a file", "every dependency of a target"):
        ctx.oblige("dependencies of targets: " + n, True)
    report(ctx, "dependencies of targets", bad, floc(f))


def load(ctx):
    """SourceTreeLoader::load: the steps from files to graph"""
    p = ctx.prog
    f = p.one(r"^Maike::SourceTreeLoader::load$")
    m = ctx.machine(max_states=20000)
    bad = []
    g = G(files=None, targets=None, places=None, done=(), graph=None)

    def step(name, check):
        def h(m, st, i, fn, args):
            if not check(m, st, i, fn, args):
                bad.append((name, i.loc, "a step of loading the source tree works on the wrong data: " + fn.sn.split("::")[-1]))
            s2 = st.copy()
            g.put(st, done=g.get(st, "done") + (name,))
            return [(st, None), (s2, Throw(RTE, name))]
        return h

    def c_collect(m, st, i, fn, args):
        g.put(st, files=args[0])
        m.havoc_range(st, args[0], 48)
        return True

    def c_targets(m, st, i, fn, args):
        g.put(st, targets=args[0])
        m.havoc_range(st, args[0], 48)
        return args[1] == g.get(st, "files")

    def c_infos(m, st, i, fn, args):
        return args[0] == g.get(st, "targets") and args[1] == g.get(st, "files")

    def c_place(m, st, i, fn, args):
        g.put(st, places=args[0])
        m.havoc_range(st, args[0], 48)
        return args[1] == g.get(st, "files")

    def c_merge(m, st, i, fn, args):
        return args[0] == g.get(st, "files") and args[1] == g.get(st, "places")

    def c_add(m, st, i, fn, args):
        return args[0] == g.get(st, "files")

    def c_graph(m, st, i, fn, args):
        if len(args) != 3:
            return True
        if args[2] != 0:
            bad.append(("lenient", i.loc, "dependencies that cannot be resolved are ignored"))
        g.put(st, graph=args[0])
        return args[1] == g.get(st, "files")

    def c_tree(m, st, i, fn, args):
        return args[1] == g.get(st, "targets") and args[2] == g.get(st, "graph")
    m.hooks = [(re.compile(r"^Maike::SourceTreeLoader::collectSourceFiles$"), step("scan", c_collect)), (re.compile(r"^Maike::Db::collectTargets$"), step("targets", c_targets)),
               (re.compile(r"^Maike::Db::makeSourceFileInfos$"), step("infos", c_infos)), (re.compile(r"^Maike::Db::createPlaceholdersForExternalEntries$"), step("places", c_place)),
               (re.compile(r"^std::map::merge$"), step("merge", c_merge)), (re.compile(r"^Maike::Db::addTargetDepsToSourceFiles$"), step("add", c_add)),
               (re.compile(r"^Maike::Db::DependencyGraph::DependencyGraph$"), step("graph", c_graph)), (re.compile(r"^Maike::Db::SourceTree::SourceTree$"), step("tree", c_tree)),
               (re.compile(r"^Maike::Db::DependencyGraph::~DependencyGraph$|^std::map::~?map$"), NOP)]
    args = []
    for k, t in enumerate(f.params):
        args.append(("p", ("Ret" if k == 0 else "A%d" % k,), 0) if t.startswith("p") else ("t", "arg", k))
    m.run([m.start(f, args, ghost=g.init)])
    ctx.absorb(m)
    n = 0
    before = [("scan", "targets"), ("targets", "infos"), ("infos", "places"), ("infos", "add"), ("places", "merge"), ("merge", "graph"), ("add", "graph"), ("graph", "tree")]
    what = {"scan": "the directory is not scanned", "targets": "targets are not collected", "infos": "targets get no nodes", "places": "external files get no placeholder",
            "merge": "external files get no placeholder", "add": "files do not get the dependencies of their targets", "graph": "dependencies are not resolved", "tree": "no tree is made"}
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        d = g.get(st, "done")
        for s in what:
            if s not in d:
                bad.append(("no-" + s, None, "the source tree is loaded although " + what[s]))
        for a, b in before:
            if a in d and b in d and d.index(a) > d.index(b):
                bad.append(("order-" + b, None, "the steps of loading the source tree are in the wrong order: %s before %s" % (b, a)))
    ctx.need("paths of load", n, 1)
    for s in what:
        ctx.oblige("load: " + s, True)
    report(ctx, "load", bad, floc(f))
