"""Traversal of the dependency graph: cycles are rejected, every node is reported once and after
everything it depends on.

The traversal template is analysed in every instantiation the program contains. The marks are unknown
values read from the mark vector; each read opens a segment, and what the code does until the next
read (push, pop, mark update, callback, throw) is compared with what the value of the mark allows.
"""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term, contains
from engine.rule import floc

INIT, INPROGRESS, DONE = 0, 1, 2


def mark_of(st, t, names):
    """set of possible mark values under the current facts"""
    t2 = st.facts.get(t)
    if isinstance(t, int):
        return {t}
    if isinstance(t2, int):
        return {t2}
    out = set(names)
    for v in list(out):
        for key in (("t", "cmp", "eq", t, v), ("t", "cmp", "eq", v, t)):
            if st.facts.get(key) == 0:
                out.discard(v)
    return out


def check_traversal(ctx):
    p = ctx.prog
    en = p.enum("Maike::graphutils_detail::Mark")
    vals = {k: v for k, v in en.items()}
    for k in ("Init", "InProgress", "Done"):
        if k not in vals:
            raise AnalysisBroken("Mark::%s vanished" % k)
    V = {vals["Init"]: "Init", vals["InProgress"]: "InProgress", vals["Done"]: "Done"}
    fns = [f for f in p.find(r"^Maike::graphutils_detail::processGraphNodeRecursive$")]
    ctx.need("traversal instantiations", len(fns), 3)
    for f in fns:
        inst = re.search(r"processGraphNodeRecursive<(Maike::[\w:]+)", f.dn)
        inst = inst.group(1) if inst else f.name[:60]
        analyse(ctx, f, inst, V, vals)


def analyse(ctx, f, inst, V, vals):
    """ghost = (node segment, edge segment); a segment is (kind, mark term or value, index, actions)"""
    bad = []
    seen = set()
    GRAPH, NODE, VIS, CB = ("p", ("Graph",), 0), ("p", ("Node",), 0), ("p", ("Visited",), 0), ("p", ("Callback",), 0)
    NONE = (1 << 64) - 1
    MARKS = ("t", "m0", ("Visited",), 0)
    m = ctx.machine(hooks=[], max_states=120000)
    m.partial_ok = False
    m.off_lim = 2

    def report(i, msg):
        bad.append((i if isinstance(i, str) else i.loc if i is not None else floc(f), msg))

    def close_edge(st, i, thrown=False):
        node, edge, pend = st.ghost
        if edge is not None:
            kind, t, idx, acts = edge
            names = {V[x] for x in mark_of(st, t, V) if x in V}
            for n in names:
                seen.add((kind, n))
                judge(i, kind, n, acts, thrown)
        st.ghost = (node, None, pend)
        return edge is not None

    def close(st, i, thrown=False):
        inner = close_edge(st, i, thrown)
        node = st.ghost[0]
        if node is not None:
            kind, t, idx, acts = node
            names = {V[x] for x in mark_of(st, t, V) if x in V}
            for n in names:
                seen.add((kind, n))
                if not (thrown and inner):
                    judge(i, kind, n, acts + empty_vecs(st, acts), thrown)
        if not thrown:
            close_pend(st, i)
        st.ghost = (None, None, None)

    def empty_vecs(st, acts):
        out = ()
        for a in acts:
            if type(a) is tuple and a[0] in ("usevec", "buildvec"):
                if m.vec_empty(st, a[1]) == 1:
                    out += ("no" + a[0][:-3],)
        return out

    def vechook(kind):
        def h(m, st, i, fn, args):
            if len(fn.params) != 1:
                return None
            v = ("p", ("sym", ("t", kind, args[0])), 0)
            act(st, (kind, v))
            return [(st, v)]
        return h

    def judge(i, kind, n, acts, thrown):
        c = lambda a: sum(1 for x in acts if x == a)
        sets = [x[1] for x in acts if type(x) is tuple and x[0] == "set"]
        acts = tuple(a for a in acts if not (type(a) is tuple and a[0] in ("usevec", "buildvec")))
        if kind == "edge":
            if n == "InProgress" and not thrown:
                report(i, "an edge to a node that is being processed (a cycle) is not reported as an error")
            if n == "Init" and not thrown and c("push") < 1:
                report(i, "an edge to an unvisited node does not queue that node")
            if n == "Done" and thrown:
                report(i, "an edge to an already completed node is reported as a cycle")
            if n == "Init" and thrown:
                report(i, "an edge to an unvisited node is reported as a cycle")
            return
        if kind == "start":
            if n == "Init":
                if thrown:
                    report(i, "an unvisited node is reported as a cycle")
                elif c("push") < 1:
                    report(i, "the traversal of an unvisited start node does not queue it")
            elif n == "Done" and (acts or thrown):
                report(i, "a finished start node is processed again")
            return
        if n == "Init":
            if thrown:
                report(i, "an unvisited node is reported as a cycle")
                return
            if sets[:1] != [vals["InProgress"]] or len(sets) > 1:
                report(i, "an unvisited node is not marked as being processed while its edges are visited")
            if c("cb"):
                report(i, "the callback runs for a node whose dependencies have not been processed")
            if c("pop"):
                report(i, "an unvisited node is dropped from the work stack")
            for nm in ("use", "build"):
                if c(nm) < 1 and c("no" + nm) < 1:
                    report(i, "the %s dependencies of a node are not visited" % nm)
        elif n == "InProgress":
            if thrown:
                report(i, "completing a node is reported as a cycle")
                return
            if sets != [vals["Done"]]:
                report(i, "a completed node is not marked as done")
            if c("cb") != 1:
                report(i, "the callback runs %d times for a completed node" % c("cb"))
            if c("pop") != 1:
                report(i, "a completed node is popped %d times" % c("pop"))
        elif n == "Done":
            if c("pop") != 1 or c("cb") or sets or thrown:
                report(i, "a node that was already completed is processed again")

    def act(st, a):
        node, edge, pend = st.ghost
        if a == "push" and edge is not None:
            if a not in edge[3]:
                st.ghost = (node, edge[:3] + (edge[3] + (a,),), pend)
        elif node is not None:
            k = sum(1 for x in node[3] if x == a)
            if k < 2 and not (a == "push" and k):
                st.ghost = (node[:3] + (node[3] + (a,),), edge, pend)

    def on_call(st, i, fn, args):
        sn = fn.sn
        nd = st.ghost[0]
        if nd is not None and sn.startswith("std::"):
            for a in empty_vecs(st, nd[3]):
                if a not in nd[3]:
                    act(st, a)
        if re.search(r"^std::(deque|vector|__cxx11::list)::(push_back|emplace_back|push_front|emplace_front)$", sn):
            act(st, "push")
        elif re.search(r"^std::(deque|vector|__cxx11::list)::(pop_back|pop_front)$", sn):
            act(st, "pop")

    def cbhook(m, st, i, fn, args):
        if not args or args[0] != CB:
            return None
        act(st, "cb")
        return [(st, None)]

    def is_mark(ptr, size):
        return is_ptr(ptr) and size == 4 and ptr[1] == ("sym", MARKS)

    def role(idx):
        if contains_kind(idx, "edgeref"):
            return "edge"
        if not contains_kind(idx, "nodeid"):
            raise AnalysisBroken("traversal %s: a mark is read at an index that is neither a node id nor an edge reference" % inst)
        if contains(idx, NODE):
            return "start"
        return "top"

    # every edge whose reference is read is followed, unless it is known to be unresolved
    def close_pend(st, i):
        p = st.ghost[2]
        if p is not None:
            if m.cmp(st, "eq", p[1], NONE, 64) != 1:
                report(p[2], "an edge to a known node is not followed")
            seen.add(("edge", "unresolved"))
            st.ghost = st.ghost[:2] + (None,)

    def refhook(m, st, i, fn, args):
        if len(fn.params) != 1:
            return None
        p = st.ghost[2]
        if p is not None and p[0] == args[0] and m.cmp(st, "eq", p[1], NONE, 64) != 1:
            return [(st, p[1])]
        close_pend(st, i)
        for k in ("usevec", "buildvec"):
            if contains_kind(args[0], k):
                act(st, k[:-3])
        t = m.fresh(st, "edgeref", "i64")
        st.ghost = st.ghost[:2] + ((args[0], t, i.loc),)
        return [(st, t)]

    def idhook(m, st, i, fn, args):
        if len(fn.params) != 1:
            return None
        return [(st, ("t", "nodeid", args[0]))]

    def open_seg(st, i, idx, val):
        kind = role(idx)
        if kind == "edge":
            close_edge(st, i)
            p = st.ghost[2]
            if p is not None and p[1] == idx:
                if m.cmp(st, "eq", idx, NONE, 64) != 0:
                    report(p[2], "the mark of an unresolved dependency is looked up")
                p = None
            nd = st.ghost[0]
            if nd is not None and nd[0] == "top" and not any(type(x) is tuple and x[0] == "set" for x in nd[3]):
                report(i, "the edges of a node are visited before it is marked as being processed")
            st.ghost = (st.ghost[0], (kind, val, idx, ()), p)
        else:
            close(st, i)
            st.ghost = ((kind, val, idx, ()), None, None)

    def on_mem(st, i, kind, ptr, size, v):
        if not is_mark(ptr, size):
            return
        off = ptr[2]
        idx = off[3] if type(off) is tuple else off
        if kind == "store":
            act(st, ("set", v if isinstance(v, int) else "?"))
            return
        cell = (st.mem.get(ptr[1]) or {}).get(off)
        if cell is not None:
            cur = st.ghost[1] if role(idx) == "edge" else st.ghost[0]
            if cur is not None and cur[2] == idx and not any(type(x) is tuple and x[0] == "set" for x in cur[3]):
                return              # the same mark is looked at again
            if role(idx) == "edge" and cur is not None and cur[2] == idx:
                return
            open_seg(st, i, idx, cell[1])
        else:
            # the load names the value before term_hook sees it: close what is open first
            k = role(idx)
            if k == "edge":
                close_edge(st, i)
            else:
                close(st, i)

    def term_hook(st, obj, off, size, ty, v):
        if obj == ("sym", MARKS) and size == 4:
            idx = off[3] if type(off) is tuple else off
            open_seg(st, None, idx, v)
        return v

    m.on_call = on_call
    m.on_mem = on_mem
    m.term_hook = term_hook
    m.hooks = [(re.compile(r"^Maike::Db::SourceFileInfo::useDeps$"), vechook("usevec")),
               (re.compile(r"^Maike::Db::SourceFileInfo::buildDeps$"), vechook("buildvec")),
               (re.compile(r"^Maike::Db::Dependency::reference$"), refhook),
               (re.compile(r"^Maike::Db::SourceFileRecordConst::id$"), idhook),
               (re.compile(r"operator\(\)$"), cbhook)]
    st = m.start(f, [CB, GRAPH, NODE, VIS] + [TOP] * (len(f.params) - 4), ghost=(None, None, None))
    broken = None
    try:
        m.run([st])
    except AnalysisBroken as e:
        broken = e
    ctx.absorb(m)
    for kind, info, st in m.outcomes:
        if kind == "ret":
            close(st, None)
        elif kind == "exc":
            close(st, None, thrown=True)
    if broken is not None and not bad:
        raise broken
    for kd in ("start", "top", "edge"):
        for n in V.values():
            if kd == "start" and n == "InProgress":
                continue
            if (kd, n) not in seen and not bad:
                raise AnalysisBroken("traversal %s: no path for a %s node with mark %s" % (inst, kd, n))
            ctx.oblige("%s: %s node marked %s" % (inst, kd, n), True)
    rep = set()
    for where, msg in bad:
        if msg in rep:
            continue
        rep.add(msg)
        ctx.oblige("%s: %s" % (inst, msg), False, where, msg, key="traversal/%s" % msg)


def contains_kind(v, *kinds):
    if type(v) is not tuple:
        return False
    if len(v) > 1 and v[0] == "t" and v[1] in kinds:
        return True
    return any(contains_kind(x, *kinds) for x in v if type(x) is tuple)


def check(ctx):
    """the traversal: cycles are found before their members are left, every node is entered once, and children come first"""
    check_traversal(ctx)
