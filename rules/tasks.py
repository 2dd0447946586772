"""Scheduling of build steps: when a step may start, what its outcome does to the rest of the build."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term, contains
from engine.rule import floc
from .common import Cover, field, contains_kind, elem_of, once

DEPVEC = r"std::vector<Maike::Db::Dependency\b"
THIS = ("p", ("This",), 0)


def results(p):
    en = p.enum("Maike::Db::TaskResult")
    for k in ("Pending", "Success", "Failure"):
        if k not in en:
            raise AnalysisBroken("TaskResult::%s vanished" % k)
    return en["Pending"], en["Success"], en["Failure"]


def usedeps_offset(p):
    return field(p, "Maike::Db::Task", lambda n, t: re.match(DEPVEC, t), "the use dependencies of a task")


def esize(p):
    return p.types["Maike::Db::Dependency"]["size"]


def report(ctx, pre, bad, where):
    if ctx.truncated and not bad:
        t, ctx.truncated = ctx.truncated, None
        raise AnalysisBroken(t)
    ctx.truncated = None
    for key, loc, msg in once(bad):
        ctx.oblige("%s: %s" % (pre, msg), False, loc or where, msg, key="%s/%s" % (pre, key))


# ---------------------------------------------------------------- readiness of a step
def task_status(ctx):
    """Task::status: Success only if every build and use dependency has succeeded."""
    p = ctx.prog
    P, S, F = results(p)
    nm = {P: "Pending", S: "Success", F: "Failure"}
    fns = [f for f in p.find(r"^Maike::Db::Task::status$") if re.search(r"status<Maike::Db::TaskList>", f.dn)]
    if not fns:
        fns = [f for f in p.find(r"^Maike::Db::Task::status$") if "TaskList" in f.dn] or p.find(r"^Maike::Db::Task::status$")
    if not fns:
        raise AnalysisBroken("Task::status vanished")
    f = fns[0]
    uoff = usedeps_offset(p)
    m = ctx.machine(max_states=60000)
    cv = Cover(m, esize(p))
    bad = []
    seenvec = set()

    def vechook(kind):
        def h(m, st, i, fn, args):
            if len(fn.params) != 1:
                return None
            return [(st, ("p", ("sym", ("t", kind)), 0))]
        return h

    def refhook(m, st, i, fn, args):
        if len(fn.params) != 1:
            return None
        t = m.fresh(st, "ref", "i64")
        cov, res, cur = st.ghost
        st.ghost = (cov, res, (t, args[0]))
        return [(st, t)]

    def stathook(m, st, i, fn, args):
        out = []
        for v in (P, S, F):
            s2 = st.copy()
            cov, res, cur = s2.ghost
            if v == S:
                if cur is not None and args[-1] == cur[0]:
                    c2 = cv.visit(cov, cur[1])
                    if c2 is not None:
                        cov = c2
                        e = elem_of(cur[1])
                        seenvec.add(e[0])
            s2.ghost = (cov, tuple(sorted(set(res) | {v})), None)
            out.append((s2, v))
        return out

    m.hooks = [(re.compile(r"^Maike::Db::SourceFileInfo::buildDeps$"), vechook("buildvec")),
               (re.compile(r"^Maike::Db::Dependency::reference$"), refhook),
               (re.compile(r"^Maike::Db::TaskList::status$"), stathook)]
    st = m.start(f, [THIS, ("p", ("Dict",), 0)], ghost=((), (), None),
                 roots=[("p", ("sym", ("t", "buildvec")), 0)])
    m.run([st])
    ctx.absorb(m)
    vecs = {"build": ("p", ("sym", ("t", "buildvec")), 0), "use": ("p", ("This",), uoff)}
    got = set()
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        cov, res, _ = st.ghost
        got.add(v)
        if v == S:
            for n, vec in vecs.items():
                if not cv.complete(st, cov, vec):
                    bad.append(("ready-" + n, None, "a step is reported ready although not all of its %s dependencies are known to have succeeded" % n))
            if P in res or F in res:
                bad.append(("ready-notdone", None, "a step is reported ready although a dependency is %s" % nm[[x for x in res if x != S][0]]))
        elif v == F and F not in res:
            bad.append(("failed", None, "a step is reported as failed although none of its dependencies failed"))
        elif v == P and P not in res:
            bad.append(("pending", None, "a step is reported as pending although none of its dependencies is pending"))
    if got != {P, S, F}:
        if S not in got and not ctx.truncated:
            bad.append(("never-ready", None, "a step is never reported ready"))
        for v, n in ((P, "pending"), (F, "failed")):
            if v not in got and not ctx.truncated:
                bad.append(("never-" + n, None, "a %s dependency never makes a step %s" % (n, n)))
    for n in ("Success needs every build dependency", "Success needs every use dependency", "Failure only from a failed dependency",
              "Pending only from a pending dependency"):
        ctx.oblige("readiness: " + n, True)
    report(ctx, "readiness", bad, floc(f))


# ---------------------------------------------------------------- the dependencies a task looks at
def task_deps(ctx):
    """A task's use dependencies are the transitive ones, collected without loss."""
    p = ctx.prog
    uoff = usedeps_offset(p)
    bad = []
    ctors = [f for f in p.find(r"^Maike::Db::Task::Task$") if "DependencyGraph" in f.dn]
    if not ctors:
        raise AnalysisBroken("constructor of Task from a graph node vanished")
    f = ctors[0]
    m = ctx.machine(max_states=20000)
    UDR = ("t", "udr")

    def h_udr(m, st, i, fn, args):
        m.havoc_range(st, args[0], 24)
        m.settag(st, args[0], UDR)
        return [(st, None)]

    def h_cmd(m, st, i, fn, args):
        return [(st, None)]
    m.hooks = [(re.compile(r"^Maike::Db::getUseDepsRecursive$"), h_udr), (re.compile(r"^Maike::Db::makeBuildCommand$"), h_cmd)]
    args = [THIS] + [("p", ("A%d" % k,), 0) if t.startswith("p") else ("t", "arg", k) for k, t in enumerate(f.params) if k]
    m.run([m.start(f, args)])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if m.tag(st, ("p", ("This",), uoff)) != UDR:
                bad.append(("ctor", None, "the dependency list of a task is not the recursive list of its node's dependencies"))
    ctx.need("returning paths of the Task constructor", n, 1)
    ctx.oblige("task: holds the recursive use dependencies of its node", True)
    report(ctx, "task", bad, floc(f))

    # the collecting callback
    cbs = [f for f in p.find(r"^Maike::Db::getUseDepsRecursive::.*operator\(\)$") if len(f.params) >= 3]
    if not cbs:
        raise AnalysisBroken("the callback of getUseDepsRecursive vanished")
    for f in cbs:
        bad = []
        for dep in (0, ("p", ("Dep",), 0)):
            m = ctx.machine(max_states=20000)

            def on_call(st, i, fn, args):
                if re.search(r"^std::vector::(push_back|emplace_back|insert)$", fn.sn) and "Maike::Db::Dependency" in fn.dn:
                    ok = any(a == ("p", ("Dep",), 0) for a in args[1:])
                    st.ghost = st.ghost + ("push" if ok else "other",)
            m.on_call = on_call
            m.run([m.start(f, [("p", ("Clo",), 0), ("p", ("Node",), 0), dep], roots=[("p", ("Dep",), 0)])])
            ctx.absorb(m)
            name = m.tag(m.outcomes[0][2], ("p", ("Dep",), p.types["Maike::Db::Dependency"]["m"][1][1])) if m.outcomes else None
            for kind, v, st in m.outcomes:
                if kind != "ret":
                    continue
                empty = [k for k, x in st.facts.items() if x == 1 and contains(k, ("str", b""))]
                if dep and not empty and st.ghost != ("push",):
                    bad.append(("collect", None, "a dependency found by the recursive traversal is not collected exactly once"))
                if not dep and st.ghost:
                    bad.append(("collect0", None, "something is collected for the start node"))
        ctx.oblige("task: every edge of the recursive traversal is collected", True)
        report(ctx, "usedeps", bad, floc(f))


# ---------------------------------------------------------------- initial task list
def atomic_value(v):
    return v if isinstance(v, int) else None


def task_list(ctx):
    """the constructor of TaskList: every file that needs a step gets one, with the results initially pending"""
    p = ctx.prog
    P, S, F = results(p)
    cbs = [f for f in p.find(r"^Maike::Db::TaskList::.*operator\(\)$") if len(f.params) >= 2 and not re.search(r"::process::", f.sn)
           and "SourceFileRecordConst" in f.dn + "SourceFileRecordConst" and is_node_callback(p, f)]
    ctx.need("callbacks creating tasks", len(cbs), 1)
    for f in cbs:
        bad = []
        m = ctx.machine(max_states=20000)
        TV = ("p", ("sym", ("t", "targetvec")), 0)
        NID = ("t", "nid")

        def h_targets(m, st, i, fn, args):
            return [(st, TV)] if len(fn.params) == 1 else None

        def h_id(m, st, i, fn, args):
            return [(st, NID)] if len(fn.params) == 1 else None

        def h_task(m, st, i, fn, args):
            if "DependencyGraph" in fn.dn:
                m.havoc_range(st, args[0], 128)
            return [(st, None)]

        def on_call(st, i, fn, args):
            if re.search(r"^std::__cxx11::list::(push_back|emplace_back|push_front|emplace_front|insert|emplace)$", fn.sn) and "Maike::Db::Task" in fn.dn:
                st.ghost = (st.ghost[0], min(2, st.ghost[1] + 1))

        def on_mem(st, i, kind, ptr, size, v):
            if kind in ("store", "rmw") and size == 4 and is_ptr(ptr) and ptr[1][0] == "sym" and type(ptr[2]) is tuple and ptr[2][0] == "*" and ptr[2][1] == 4:
                if ptr[2][3] != NID:
                    bad.append(("index", i.loc, "the initial result is stored for a different node"))
                st.ghost = (v if isinstance(v, int) else "?", st.ghost[1])
        m.hooks = [(re.compile(r"^Maike::Db::SourceFileInfo::targets$"), h_targets),
                   (re.compile(r"^Maike::Db::SourceFileRecordConst::id$"), h_id),
                   (re.compile(r"^Maike::Db::Task::(Task|~Task)$"), h_task)]
        m.on_call, m.on_mem = on_call, on_mem
        m.run([m.start(f, [("p", ("Clo",), 0), ("p", ("Node",), 0)] + [("p", ("Dep",), 0)] * (len(f.params) - 2), ghost=(None, 0), roots=[TV])])
        ctx.absorb(m)
        n = 0
        for kind, v, st in m.outcomes:
            if kind != "ret":
                continue
            e = m.vec_empty(st, TV)
            last, pushes = st.ghost
            n += 1
            if e == 1:
                if last != S:
                    bad.append(("leaf", None, "a node without targets is not recorded as done"))
                if pushes:
                    bad.append(("leaf-task", None, "a build step is created for a node without targets"))
            elif e == 0:
                if last not in (None, P):
                    bad.append(("pending", None, "a node with targets is recorded as done before its step has run"))
                if pushes != 1:
                    bad.append(("step", None, "a node with targets does not get exactly one build step"))
            else:
                bad.append(("targets", None, "whether a node gets a build step does not depend on its having targets"))
        ctx.need("paths of the task creating callback", n, 2)
        ctx.oblige("task list: %s: a node without targets counts as done" % floc(f), True)
        ctx.oblige("task list: %s: a node with targets is pending and gets one step" % floc(f), True)
        report(ctx, "task list", bad, floc(f))


def is_node_callback(p, f):
    """f is called by an instantiation of the graph traversal"""
    cs = getattr(p, "_callers", None)
    if cs is None:
        cs = p._callers = {}
        for g in p.repo_funcs():
            for i in g.instrs():
                if i.op in ("call", "invoke"):
                    c = i.callee()
                    if c:
                        cs.setdefault(p.aliases.get(c, c), set()).add(g.name)
    seen, work = set(), [f.name]
    while work:
        n = work.pop()
        for c in cs.get(n, ()):
            if c in seen:
                continue
            seen.add(c)
            g = p.funcs[c]
            if "graphutils_detail" in g.dn or "processGraphNodeRecursive" in g.dn:
                return True
            if "operator()" in g.sn:
                work.append(c)
    return False


# ---------------------------------------------------------------- outcome of a step
def step_outcome(ctx):
    """What the worker records for a step: Success only after the step ran without failure, Failure (and a
    kept exception) in every other case."""
    p = ctx.prog
    P, S, F = results(p)
    fns = [f for f in p.find(r"^Maike::Sched::ThreadPool::addTask::.*operator\(\)$") if "TaskList" in f.dn]
    if not fns:
        raise AnalysisBroken("the pool's wrapper around a build step vanished")
    ropt = [t for n, t in p.types.items() if re.match(r"std::_Optional_payload_base<Maike::Exec::Result", n)]
    eoff = 56
    for t in ropt:
        for mm in t["m"]:
            if mm[0] == "_M_engaged":
                eoff = mm[1]
    epo = field(p, "Maike::Sched::ThreadPool", lambda n, t: "exception_ptr" in t, "the kept exception")
    for f in fns:
        bad = []
        m = ctx.machine(max_states=60000)
        NID = ("t", "nid")
        # ghost: (ran, worked, last stored result)
        runs = set()

        def h_run(m, st, i, fn, args):
            out = []
            if st.ghost[0] is not None:
                bad.append(("twice", i.loc, "a step is run more than once"))
            s1 = st.copy()
            s1.ghost = ("threw",) + s1.ghost[1:]
            out.append((s1, Throw("?", "runIfNecessary")))
            for e in (0, 1):
                s2 = st.copy()
                m.havoc_range(s2, args[0], eoff + 8)
                m.store(s2, ("p", args[0][1], args[0][2] + eoff), 1, e)
                s2.ghost = ("ran" if e else "skipped",) + s2.ghost[1:]
                out.append((s2, None))
            return out

        def h_failed(m, st, i, fn, args):
            out = []
            for v in (0, 1):
                if st.ghost[1] is not None and st.ghost[1] != v:
                    continue
                s2 = st.copy()
                s2.ghost = (s2.ghost[0], v, s2.ghost[2])
                out.append((s2, v))
            return out

        def h_node(m, st, i, fn, args):
            m.havoc_range(st, args[0], 24)
            m.store(st, args[0], 8, NID)
            return [(st, None)]

        def h_log(m, st, i, fn, args):
            s2 = st.copy()
            s2.ghost = (s2.ghost[0], "log", s2.ghost[2])
            return [(st, args[0] if i.t == "p" else None), (s2, Throw("?", "log"))]

        def on_mem(st, i, kind, ptr, size, v):
            if kind in ("store", "rmw") and size == 4 and is_ptr(ptr) and type(ptr[2]) is tuple and contains(ptr[2], NID):
                ran, failed, last = st.ghost
                if v == S:
                    if ran is None:
                        bad.append(("early", i.loc, "a step is recorded as done before it has run"))
                    elif ran == "threw" or failed in (1, "log"):
                        bad.append(("wrong", i.loc, "a step that failed is recorded as done"))
                    elif ran == "ran" and failed is None:
                        bad.append(("unchecked", i.loc, "a step is recorded as done without looking at its exit status"))
                st.ghost = (ran, failed, v if isinstance(v, int) else "?")
        nop = lambda m, st, i, fn, args: [(st, args[0] if i.t == "p" and args else None)]
        m.hooks = [(re.compile(r"^Maike::Db::Task::runIfNecessary$"), h_run),
                   (re.compile(r"^Maike::Exec::failed$"), h_failed),
                   (re.compile(r"^Maike::Db::Task::node$"), h_node),
                   (re.compile(r"^Maike::Db::CompilationLog::write$"), h_log),
                   (re.compile(r"^Maike::Exec::Result::~Result$"), nop),
                   (re.compile(r"^std::__cxx11::basic_string::(operator\+=|append|basic_string|string)$"), None)]
        m.hooks = [h for h in m.hooks if h[1]]
        def term_hook(st, obj, off, size, ty, v):
            if size == 4 and type(off) is tuple and contains(off, NID):
                return P            # nothing is recorded before the step runs
            return v
        m.on_mem = on_mem
        m.term_hook = term_hook
        m.run([m.start(f, [("p", ("Clo",), 0)], ghost=(None, None, None))])
        ctx.absorb(m)
        for kind, v, st in m.outcomes:
            ran, failed, last = st.ghost
            runs.add((ran, failed))
            if kind == "terminate":
                bad.append(("terminate", None, "a failing step ends the whole program"))
            if kind == "exc":
                bad.append(("escape", None, "an exception of a step leaves the worker thread"))
            if kind != "ret":
                continue
            if ran is None:
                bad.append(("norun", None, "a submitted step is not run"))
                continue
            fail = ran == "threw" or failed in (1, "log")
            if fail:
                if last != F:
                    why = {"threw": "cannot be carried out (its command cannot be run, or its inputs are missing)"}.get(ran, "fails" if failed == 1 else "cannot be logged")
                    bad.append(("nofail-%s" % ("throw" if ran == "threw" or failed == "log" else "exit"), None,
                                "a step that %s is left pending, so that steps depending on it wait forever" % why))
                if not kept(st, epo):
                    bad.append(("lost-exception", None, "the failure of a step does not reach the caller of the build"))
            else:
                if last != S:
                    bad.append(("nosuccess", None, "a step that %s is not recorded as done" % ("succeeded" if ran == "ran" else "was up to date")))
                if ran == "ran" and failed is None and last == S:
                    bad.append(("unchecked2", None, "a step is recorded as done without looking at its exit status"))
        for r in ("threw", "ran", "skipped"):
            if not any(x[0] == r for x in runs):
                raise AnalysisBroken("no path where a step %s" % r)
        for n in ("Success is recorded only after the step ran without failure", "a failed step is recorded as Failure",
                  "an exception in a step is recorded as Failure", "a failure is kept for the caller", "an up to date step counts as done"):
            ctx.oblige("outcome: " + n, True)
        report(ctx, "outcome", bad, floc(f))


def kept(st, epo):
    for o, cells in st.mem.items():
        c = cells.get(epo)
        if c and is_ptr(c[1]) and c[1][1][0] == "excptr":
            return True
    for k, v in st.facts.items():
        if v == 0 and k[0] == "t" and k[1] == "cmp" and k[2] == "eq":
            for a in (k[3], k[4]):
                if contains_off(a, epo):
                    return True
    return False


def contains_off(v, off):
    if type(v) is not tuple:
        return False
    if len(v) == 4 and v[0] == "t" and v[1] == "m0" and v[3] == off:
        return True
    return any(contains_off(x, off) for x in v if type(x) is tuple)


# ---------------------------------------------------------------- the scheduling loop
def process(ctx):
    """TaskList::process: what is submitted, removed, waited for and reported."""
    p = ctx.prog
    P, S, F = results(p)
    fns = p.find(r"^Maike::Db::TaskList::process$")
    if not fns:
        raise AnalysisBroken("TaskList::process vanished")
    f = fns[0]
    loff = field(p, "Maike::Db::TaskList", lambda n, t: re.match(r"std::(__cxx11::)?list<Maike::Db::Task\b", t), "the list of remaining steps")
    END = ("p", ("This",), loff)
    m = ctx.machine(max_states=120000)
    m.int_lim = 4
    bad = []
    ev = set()

    def on_iter(st, v):
        d = g(st)
        d["last"] = ((d.get("last") or ()) + (v,))[-3:]
        put(st, d)
    m.on_iter = on_iter
    # ghost: state of the step looked at last, counter state, event log
    #  cur:  (task pointer, status) or None
    #  open: 'ready' | 'submitted' | 'failed' | None   what remains to be done with it
    #  nxt:  True if the position after cur is known to be the end
    #  inc:  counted but not yet submitted;  sub: something was submitted since the last final wait
    G = dict(cur=None, todo=None, inc=0, out=0, waited=0, exc=None, dtor=None)

    def g(st):
        return dict(st.ghost)

    def put(st, d):
        st.ghost = tuple(sorted(d.items(), key=lambda kv: kv[0]))

    def node_of(t):
        return ("p", t[1], t[2] - 16) if is_ptr(t) and isinstance(t[2], int) else None

    def h_status(m, st, i, fn, args):
        if "TaskList" not in fn.dn and len(fn.params) != 2:
            return None
        if len(fn.params) != 2:
            return None
        t = args[0]
        n = node_of(t)
        if n is not None:
            if n == END or m.cmp(st, "eq", n, END, 64) != 0:
                bad.append(("end", i.loc, "the status of a step beyond the end of the list is asked for"))
        d = g(st)
        check_todo(st, d, i)
        out = []
        for v in (P, S, F):
            s2 = st.copy()
            d2 = dict(d)
            d2["cur"] = t if v != P else None
            d2["last"] = None
            d2["todo"] = {P: None, S: "ready", F: "failed"}[v]
            put(s2, d2)
            out.append((s2, v))
        ev.add("status")
        return out

    def check_todo(st, d, i, closed=True):
        if d["dtor"] is not None and closed:
            x = d["dtor"]
            if "dec" not in x:
                bad.append(("nodec", i and i.loc, "a finished step stays counted as outstanding, so that the build never ends"))
            elif "set" not in x:
                bad.append(("noset", i and i.loc, "a finished step does not wake up the scheduling loop"))
            elif x.index("dec") < x.index("set"):
                bad.append(("order", i and i.loc, "a finished step is counted as done before it uses the event of the scheduling loop for the last time"))
            elif x.count("dec") > 1:
                bad.append(("dec2", i and i.loc, "a finished step is counted as done more than once"))
            d["dtor"] = None
            d.pop("moved", None)
        if d["todo"] == "ready":
            bad.append(("notrun", i and i.loc, "a step that is ready is not submitted before the next one is looked at"))
        elif d["todo"] == "submitted":
            bad.append(("again", i and i.loc, "a submitted step stays in the list of remaining steps"))
        elif d["todo"] == "failed":
            bad.append(("dependents", i and i.loc, "a step with a failed prerequisite stays in the list of remaining steps"))

    def h_add(m, st, i, fn, args):
        d = g(st)
        ev.add("submit")
        if d["todo"] != "ready":
            bad.append(("unready", i.loc, "a step is submitted although its prerequisites are not known to have succeeded"))
        elif d.get("moved") != d["cur"]:
            bad.append(("othertask", i.loc, "the submitted step is not the one found to be ready"))
        if d["inc"] < 1:
            bad.append(("uncounted", i.loc, "a step is submitted without being counted as outstanding first"))
        d["inc"] = 0
        d["todo"] = "submitted"
        d["waited"] = 0
        d["dtor"] = ()
        put(st, d)
        return [(st, args[0] if i.t == "p" else None)]

    def h_move(m, st, i, fn, args):
        if len(args) == 2 and is_ptr(args[1]) and args[1][1][0] != "al":
            d = g(st)
            d["moved"] = args[1]
            put(st, d)
            m.havoc_range(st, args[0], 128)
            return [(st, None)]
        m.havoc_range(st, args[0], 128)
        return [(st, None)]

    def h_count(k):
        def h(m, st, i, fn, args):
            d = g(st)
            if k == "inc":
                d["inc"] = min(2, d["inc"] + 1)
            elif k == "dec":
                if d["dtor"] is None:
                    d["inc"] = max(0, d["inc"] - 1)
                elif len(d["dtor"]) < 4:
                    d["dtor"] += ("dec",)
            elif k == "set":
                if d["dtor"] is not None and len(d["dtor"]) < 4:
                    d["dtor"] += ("set",)
            elif k == "cwait":
                if args[1] == 0:
                    check_todo(st, d, i)
                    d["waited"] = 1
                    ev.add("wait")
            elif k == "ewait":
                check_todo(st, d, i, False)
                if d.get("last") and not any(m.cmp(st, "eq", x, END, 64) == 1 for x in d["last"]):
                    bad.append(("midwait", i.loc, "the loop waits for a step to finish before it has looked at all remaining steps"))
                d.pop("last", None)
                ev.add("ewait")
            put(st, d)
            return [(st, args[0] if i.t == "p" else None)]
        return h

    def h_take(m, st, i, fn, args):
        d = g(st)
        if not d["waited"]:
            bad.append(("early", i.loc, "failures are looked for while steps may still be running"))
        out = []
        for e in (0, 1):
            s2 = st.copy()
            d2 = dict(d)
            d2["exc"] = e
            put(s2, d2)
            m.havoc_range(s2, args[0], 8)
            m.store(s2, args[0], 8, ("p", ("Kept",), 0) if e else 0)
            out.append((s2, None))
        ev.add("take")
        return out

    def on_call(st, i, fn, args):
        if re.search(r"^std::__cxx11::list::(erase|clear|pop_front|pop_back|remove_if|remove)$", fn.sn) and "Maike::Db::Task" in fn.dn:
            d = g(st)
            name = fn.sn.split("::")[-1]
            if name == "clear":
                if d["todo"] == "submitted" or d["todo"] == "failed":
                    d["todo"] = d["cur"] = None
                else:
                    bad.append(("drop", i.loc, "remaining steps are dropped although no prerequisite failed"))
            elif name == "erase" and len(args) == 2:
                n = node_of(d["cur"]) if d["cur"] else None
                if d["todo"] in ("submitted", "failed") and args[1] == n:
                    d["todo"] = d["cur"] = None
                elif d["todo"] not in ("submitted", "failed"):
                    bad.append(("dropone", i.loc, "a step is removed from the list although it was not submitted"))
            put(st, d)
    m.on_call = on_call
    nop = lambda m, st, i, fn, args: [(st, args[0] if i.t == "p" and args else None)]
    m.hooks = [(re.compile(r"^Maike::Db::Task::status$"), h_status),
               (re.compile(r"^Maike::Sched::ThreadPool::addTask$"), h_add),
               (re.compile(r"^Maike::Db::Task::Task$"), h_move),
               (re.compile(r"^Maike::Db::Task::~Task$"), nop),
               (re.compile(r"^Maike::Sched::SignalingCounter::(operator\+\+|lock)$"), h_count("inc")),
               (re.compile(r"^Maike::Sched::SignalingCounter::(operator--|unlock)$"), h_count("dec")),
               (re.compile(r"^Maike::Sched::SignalingCounter::wait$"), h_count("cwait")),
               (re.compile(r"^Maike::Sched::Event::set$"), h_count("set")),
               (re.compile(r"^Maike::Sched::Event::waitAndReset$"), h_count("ewait")),
               (re.compile(r"^Maike::Sched::(Event|SignalingCounter)::~?(Event|SignalingCounter)$"), nop),
               (re.compile(r"^Maike::Sched::ThreadPool::takeLastException$"), h_take)]
    args = [THIS, ("p", ("Pool",), 0)] + [("p", ("A%d" % k,), 0) if t.startswith("p") else ("t", "arg", k) for k, t in enumerate(f.params) if k > 1]
    st = m.start(f, args)
    put(st, G)
    m.run([st])
    ctx.absorb(m)
    for kind, v, st in m.outcomes:
        d = g(st)
        if kind == "ret":
            check_todo(st, d, None)
            if not d["waited"]:
                bad.append(("nowait", None, "the build returns while submitted steps may still be running"))
            if d["exc"] is None:
                bad.append(("notake", None, "the build returns without looking for failures of its steps"))
            elif d["exc"] == 1:
                bad.append(("swallow", None, "the build returns normally although a step failed"))
            e = m.cmp(st, "eq", m.load(st, END, 8, "p"), END, 64)
            if e != 1:
                bad.append(("left", None, "the build returns although steps remain that were never started"))
        elif kind == "exc" and d["exc"] != 1 :
            ctx.notes.append("process can exit by exception before failures were looked at: %r" % (v,))
    for k in ("status", "submit", "wait", "take", "ewait"):
        if k not in ev and not bad:
            raise AnalysisBroken("process: no %s event" % k)
    for n in ("a step is submitted only when ready", "a submitted step is removed and counted", "a failed prerequisite drops the remaining steps",
              "the loop waits for every submitted step", "a kept failure is rethrown", "no access beyond the list"):
        ctx.oblige("scheduling: " + n, True)
    report(ctx, "scheduling", bad, floc(f))
