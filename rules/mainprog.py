"""The main program: modes, exit status, what reaches the build."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term, contains
from engine.rule import floc
from .common import Cover, field, elem_of, once, split
from .tasks import report, THIS

RTE = "_ZTISt13runtime_error"
EVENTS = re.compile(r"^(Maike::Db::compile|Maike::SourceTreeLoader::load)$")
OPT = re.compile(r"hasOption<\(Maike::CmdLineOption\)(\d+)>")


def callers_of(p, targets):
    """functions of the repository from which one of the targets can be called directly or indirectly"""
    rev = {}
    for g in p.repo_funcs() + [f for f in p.funcs.values() if not f.decl and not f.in_repo]:
        for i in g.instrs():
            if i.op in ("call", "invoke"):
                c = i.callee()
                if c:
                    rev.setdefault(p.aliases.get(c, c), set()).add(g.name)
    seen, work = set(), [t.name for t in targets]
    while work:
        n = work.pop()
        for c in rev.get(n, ()):
            if c not in seen:
                seen.add(c)
                work.append(c)
    return seen


def opaque_with_throw(m, st, i, fn, args):
    if fn.sn.split("::")[-1].startswith("~"):
        return [(st, None)]
    s2 = st.copy()
    out = [x for x in m.opaque(st, st.frames[-1], i, fn, args) if not isinstance(x[1], Throw)]
    if i.op == "invoke":
        out.append((s2, Throw(RTE, fn.sn)))
    return out


def check(ctx):
    """the main program: its exit status, what each query mode does, and that every mode reaches what it is for"""
    p = ctx.prog
    f = p.one(r"^main$", lambda f: f.in_repo)
    en = p.enum("Maike::CmdLineOption")
    num = {v: k for k, v in en.items()}
    QUERY = {"Help": "--help", "Version": "--version", "About": "--about", "ConfigDump": "--configdump", "ListTargets": "--list-targets",
             "PrintDepGraph": "--print-dep-graph", "PrintDepGraphInv": "--print-dep-graph-inv", "DumpDatabase": "--dump-database",
             "ListExternalDeps": "--list-external-deps"}
    track = set(QUERY) | {"DryRun", "ForceRebuild", "Targets"}
    for t in track:
        if t not in en:
            raise AnalysisBroken("CmdLineOption::%s vanished" % t)
    targets = [g for g in p.funcs.values() if EVENTS.search(g.sn) or OPT.search(g.dn)]
    reach = callers_of(p, targets)
    inl = {n for n in reach if not re.match(r"^(makeBuildInfo|getOutputFormat|getLogLevel|printHelp|.*forEachOption(\b.*)?)$", p.funcs[n].sn)}
    if f.name not in reach:
        raise AnalysisBroken("main does not reach the build")
    m = ctx.machine(max_states=60000)
    bad = []
    got = set()

    def g(st):
        return dict(st.ghost)

    def put(st, d):
        st.ghost = tuple(sorted(d.items()))

    def h_opt(m, st, i, fn, args):
        mm = OPT.search(fn.dn)
        if not mm:
            return None
        name = num[int(mm.group(1))]
        if name not in track:
            return [(st, m.fresh(st, "opt", "i1"))]
        out = []
        d = g(st)
        for v in (0, 1):
            if d.get(name, v) != v:
                continue
            s2 = st.copy()
            d2 = dict(d)
            d2[name] = v
            put(s2, d2)
            out.append((s2, v))
        return out

    def h_invoker(m, st, i, fn, args):
        """what the invoker refers to: a local execution configuration"""
        a = args[-1]
        v = "?"
        if is_ptr(a) and not isinstance(a[2], tuple):
            v = m.load(st, a, 1, "i8")
        d = g(st)
        d["dry"] = v if isinstance(v, int) else "?"
        put(st, d)
        return [(st, None)]

    def h_load(m, st, i, fn, args):
        d = g(st)
        d["load"] = 1
        put(st, d)
        return opaque_with_throw(m, st, i, fn, args)

    def h_rest(m, st, i, fn, args):
        if fn.name in inl or fn.sn.startswith(("std::", "__", "llvm.")):
            return None
        if fn.sn.startswith(("Maike::Db::Task::ForceRecompilation", "Maike::Exec::LocalExecve")):
            return None
        if not fn.in_repo and not fn.decl:
            return None
        if fn.decl and not fn.sn.startswith("Maike::"):
            return None
        return opaque_with_throw(m, st, i, fn, args)

    def h_comp(m, st, i, fn, args):
        d = g(st)
        d["compile"] = min(2, d.get("compile", 0) + 1)
        d["sel"] = 1 if "path" in fn.dn.split("ThreadPool&")[-1] else 0
        ints = [a for a, t in zip(args, fn.params) if t in ("i8", "i1")]
        d["force"] = ints[0] if ints and isinstance(ints[0], int) else "?"
        put(st, d)
        s2 = st.copy()
        d2 = g(s2)
        d2["failed"] = 1
        put(s2, d2)
        return [(st, m.fresh(st, "n", i.t)), (s2, Throw(RTE, "compile"))]

    def h_path(m, st, i, fn, args):
        return [x for x in m.opaque(st, st.frames[-1], i, fn, args) if not isinstance(x[1], Throw)]

    def h_handler(m, st, i, fn, args):
        d = g(st)
        d["caught"] = 1
        put(st, d)
        return [(st, ("p", ("Exc",), 0))]
    m.hooks = [(re.compile(r"hasOption$"), h_opt), (re.compile(r"^Maike::Db::compile$"), h_comp),
               (re.compile(r"^Maike::SourceTreeLoader::load$"), h_load), (re.compile(r"^Maike::Db::Invoker::Invoker$"), h_invoker),
               (re.compile(r"^__cxa_begin_catch$"), h_handler),
               (re.compile(r"^std::(filesystem::|__cxx11::basic_string::)"), h_path),
               (re.compile(r""), h_rest)]
    st = m.start(f, [("t", "argc"), ("p", ("Argv",), 0)])
    m.run([st])
    ctx.absorb(m)
    for kind, v, st in m.outcomes:
        d = g(st)
        on = [q for q in QUERY if d.get(q) == 1]
        if d.get("compile"):
            for q in QUERY:
                if d.get(q) != 0:
                    bad.append(("query-" + q, None, "%s runs the build" % QUERY[q]))
        if d.get("compile") and d.get("force") != d.get("ForceRebuild", "?"):
            bad.append(("force", None, "a build is not forced exactly when that was asked for"))
        if d.get("compile") and d.get("dry") != d.get("DryRun", "?"):
            bad.append(("dryrun", None, "commands are not suppressed exactly when a dry run was asked for"))
        if d.get("compile") and d.get("sel") != d.get("Targets", "?"):
            bad.append(("targets", None, "the targets that were asked for are not what is built"))
        if d.get("compile", 0) > 1:
            bad.append(("twice", None, "the build is run twice"))
        if kind == "ret":
            got.add(("ret", v if isinstance(v, int) else "?", bool(d.get("failed")), bool(d.get("compile"))))
            if d.get("caught"):
                if v == 0 or not isinstance(v, int) or v % 256 == 0:
                    bad.append(("exit0", None, "the program exits with status 0 after an error"))
            else:
                if v != 0:
                    bad.append(("exit1", None, "the program exits with a failure status although there was no error"))
                if not on and not d.get("compile"):
                    bad.append(("nothing", None, "the program succeeds without building anything"))
            if d.get("failed") and not d.get("caught"):
                bad.append(("lost", None, "a failed build is reported as success"))
        elif kind in ("exc", "terminate"):
            if d.get("failed"):
                ctx.notes.append("a failed build ends the program by terminate")
    if not bad:
        if not any(x[2] for x in got):
            raise AnalysisBroken("main: no path with a failed build")
        if not any(x[3] and not x[2] for x in got):
            raise AnalysisBroken("main: no path with a completed build")
    for n in ("an error leads to a nonzero exit status", "success leads to exit status 0") + tuple("%s does not build" % q for q in QUERY) + \
            ("dry run", "forced rebuild", "selected targets"):
        ctx.oblige("main: " + n, True)
    report(ctx, "main", bad, floc(f))


def compile_all(ctx):
    """Db::compile: the task list of the graph is processed once with what was asked for"""
    p = ctx.prog
    fns = [f for f in p.find(r"^Maike::Db::compile$")]
    ctx.need("build entry points", len(fns), 2)
    for f in fns:
        vec = bool(re.search(r"std::vector<std::filesystem::(__cxx11::)?path", f.dn))
        one = not vec and "path const&" in f.dn.split("ThreadPool&")[-1]
        m = ctx.machine(max_states=20000)
        bad = []
        FORCE = ("t", "force")
        args = []
        for k, t in enumerate(f.params):
            args.append(FORCE if t in ("i8", "i1") else ("p", ("A%d" % k,), 0) if t.startswith("p") else ("t", "arg", k))
        if FORCE not in args:
            raise AnalysisBroken("compile: no force parameter")
        pool = [("p", ("A%d" % k,), 0) for k, t in enumerate(f.params) if k > args.index(FORCE)]
        POOL = pool[0] if pool else None
        last = args[-1]
        cv = Cover(m, p.types.get("std::filesystem::__cxx11::path", {"size": 40})["size"])

        def h_ctor(m, st, i, fn, a):
            n, cov, tl = st.ghost
            st.ghost = (n, cov, len(a))
            m.havoc_range(st, a[0], 64)
            s2 = st.copy()
            return [(st, None), (s2, Throw(RTE, "TaskList"))]

        def h_proc(m, st, i, fn, a):
            n, cov, tl = st.ghost
            if a[1] != POOL:
                bad.append(("pool", i.loc, "the build does not use the given workers"))
            if FORCE not in a:
                bad.append(("force", i.loc, "the request to force the build gets lost"))
            st.ghost = (min(n + 1, 2), cov, tl)
            s2 = st.copy()
            return [(st, m.fresh(st, "n", "i64")), (s2, Throw(RTE, "process"))]

        def h_comp(m, st, i, fn, a):
            if not vec:
                return None
            n, cov, tl = st.ghost
            if FORCE not in a:
                bad.append(("force", i.loc, "the request to force the build gets lost"))
            s2 = st.copy()
            c2 = cv.visit(cov, a[-1])
            st.ghost = (1, c2 if c2 is not None else cov, tl)
            return [(st, m.fresh(st, "n", "i64")), (s2, Throw(RTE, "compile"))]

        def h_target(m, st, i, fn, a):
            s2 = st.copy()
            return [(st, ("p", ("Target",), 0)), (s2, Throw(RTE, "getTarget"))]
        nop = lambda m, st, i, fn, a: [(st, None)]
        m.hooks = [(re.compile(r"^Maike::Db::TaskList::TaskList$"), h_ctor), (re.compile(r"^Maike::Db::TaskList::~TaskList$"), nop),
                   (re.compile(r"^Maike::Db::TaskList::process$"), h_proc), (re.compile(r"^Maike::Db::compile$"), h_comp),
                   (re.compile(r"^Maike::Db::getTarget$"), h_target)]
        m.run([m.start(f, args, ghost=(0, (), None), roots=[last])])
        ctx.absorb(m)
        nret = 0
        for kind, v, st in m.outcomes:
            if kind != "ret":
                continue
            nret += 1
            n, cov, tl = st.ghost
            if vec:
                if not cv.complete(st, cov, last):
                    bad.append(("some", None, "not every requested target is built"))
            else:
                if n != 1:
                    bad.append(("process", None, "the steps of the build are processed %s" % ("more than once" if n else "not at all")))
                if tl is not None and tl != (5 if one else 4):
                    bad.append(("list", None, "a build of %s uses the wrong list of steps" % ("one target" if one else "everything")))
        ctx.need("paths of compile", nret, 1)
        kindname = "targets" if vec else "target" if one else "all"
        ctx.oblige("compile(%s): processes the steps once" % kindname, True)
        ctx.oblige("compile(%s): passes on the request to force" % kindname, True)
        report(ctx, "compile " + kindname, bad, floc(f))


def dry_run(ctx):
    """Exec::execve(LocalExecve, Command): nothing is started in a dry run"""
    p = ctx.prog
    f = p.one(r"^Maike::Exec::execve$", lambda f: "LocalExecve" in f.dn and "Command const&" in f.dn)
    bad = []
    for dry in (0, 1):
        m = ctx.machine(max_states=20000)

        def h_exec(m, st, i, fn, args):
            if "LocalExecve" in fn.dn:
                return None
            st.ghost = (st.ghost[0] + 1, tuple(args[1:]))
            s2 = st.copy()
            m.havoc_range(st, args[0], 56)
            return [(st, None), (s2, Throw(RTE, "execve"))]
        m.hooks = [(re.compile(r"^Maike::Exec::execve$"), h_exec)]
        args = []
        for k, t in enumerate(f.params):
            args.append(dry if t in ("i8", "i1") else ("p", ("A%d" % k,), 0))
        if dry not in args:
            raise AnalysisBroken("dry run flag vanished")
        m.run([m.start(f, args, ghost=(0, ()))])
        ctx.absorb(m)
        for kind, v, st in m.outcomes:
            n, a = st.ghost
            if dry and n:
                bad.append(("dry", None, "a dry run starts the command"))
            if not dry and kind == "ret" and n != 1:
                bad.append(("real", None, "a command is started %d times" % n))
            if n and kind == "ret" and not all(is_ptr(x) and x[1] == args[-1][1] for x in a[:2]):
                bad.append(("cmd", None, "something else than the given command is started"))
        ctx.need("paths of the local execution", len(m.outcomes), 1)
    ctx.oblige("execution: a dry run starts nothing", True)
    ctx.oblige("execution: otherwise the command is started once", True)
    report(ctx, "execution", bad, floc(f))
