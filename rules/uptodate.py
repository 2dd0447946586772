"""When a build step may be skipped."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term, contains
from engine.rule import floc
from .common import Cover, field, elem_of, once, split
from .tasks import report, usedeps_offset, THIS

A, B = ("p", ("PathA",), 0), ("p", ("PathB",), 0)


def truth(m, st, v):
    """0, 1 or None"""
    v = m.res(st, v) if is_term(v) else v
    if isinstance(v, int):
        return v & 1
    return None


def older(ctx):
    """isOlder(a, b): compares modification times; a missing input is older, a missing target is not"""
    p = ctx.prog
    f = p.one(r"^Maike::isOlder$", lambda f: len(f.params) == 2)
    m = ctx.machine(max_states=20000)
    bad = []
    seen = set()
    cat = ("p", ("Category",), 0)
    T = {A: ("t", "time", "a"), B: ("t", "time", "b")}

    def h_lwt(m, st, i, fn, args):
        k = args[0]
        if k not in T or len(args) < 2:
            raise AnalysisBroken("isOlder asks for the time of something else")
        d = dict(st.ghost)
        out = []
        for miss in (0, 1):
            if d.get(k, miss) != miss:
                continue
            s2 = st.copy()
            d2 = dict(d)
            d2[k] = miss
            s2.ghost = tuple(sorted(d2.items()))
            m.store(s2, args[1], 4, 2 if miss else 0)
            out.append((s2, (1 << 63) if miss else T[k]))
        return out

    def h_exists(m, st, i, fn, args):
        k = args[0]
        if k not in T:
            return None
        d = dict(st.ghost)
        out = []
        for miss in (0, 1):
            if d.get(k, miss) != miss:
                continue
            s2 = st.copy()
            d2 = dict(d)
            d2[k] = miss
            s2.ghost = tuple(sorted(d2.items()))
            out.append((s2, 1 - miss))
        return out
    m.hooks = [(re.compile(r"^std::filesystem::last_write_time$"), h_lwt), (re.compile(r"^std::filesystem::exists$"), h_exists)]
    m.run([m.start(f, [A, B], ghost=())])
    ctx.absorb(m)
    for kind, v, st in m.outcomes:
        d = dict(st.ghost)
        a, b = d.get(A), d.get(B)
        if kind == "exc":
            if (a, b) != (1, 1):
                bad.append(("throw", None, "comparing file times fails although %s" % ("both files exist" if not a and not b else "one of the files exists")))
            seen.add("throw")
            continue
        if kind != "ret":
            continue
        v = truth(m, st, v) if truth(m, st, v) is not None else v
        if b == 1 and v != 0:
            bad.append(("target", None, "a target that does not exist is taken for newer than its input"))
        elif b == 0 and a == 1:
            if v != 1:
                bad.append(("input", None, "an input without a file makes its targets out of date forever"))
            seen.add("input")
        elif a == 0 and b == 0:
            lt = m.cmp(st, "slt", T[A], T[B], 64)
            if v != lt:
                bad.append(("order", None, "an input that is not strictly older than the target is taken for older, or the reverse"))
            seen.add("both")
        elif b is None and v != 0:
            bad.append(("unlooked", None, "files are compared without looking at both modification times"))
    for s in ("both", "input"):
        if s not in seen and not bad:
            raise AnalysisBroken("isOlder: no path for %s" % s)
    for n in ("a missing target is never newer", "existing files compare strictly by modification time", "a missing input is no reason to rebuild"):
        ctx.oblige("file times: " + n, True)
    report(ctx, "file times", bad, floc(f))


def target(ctx):
    """isUpToDate(target, source, deps)"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::isUpToDate$", lambda f: "TargetInfo const&" in f.dn and len(f.params) == 3 and f.sn.endswith("isUpToDate"))
    en = p.enum("Maike::Db::SourceFileOrigin")
    for k in ("Project", "Generated", "System", "PkgConfig"):
        if k not in en:
            raise AnalysisBroken("SourceFileOrigin::%s vanished" % k)
    ext = {en["System"], en["PkgConfig"]}
    dt = p.types["Maike::Db::Dependency"]
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name of a dependency")
    toff = field(p, "Maike::Db::TargetInfo", lambda n, t: "path" in t and "name" in n, "the name of a target")
    TGT, SRC, DEPS = ("p", ("Target",), toff), ("p", ("Source",), 0), ("p", ("Deps",), 0)
    m = ctx.machine(max_states=60000)
    cv = Cover(m, dt["size"])
    bad = []

    def dep_of(q):
        e = elem_of(q)
        if e is None:
            return None
        off = q[2]
        if isinstance(off, int):
            return ("p", q[1], off - noff)
        return q

    # ghost: (target is a directory, source older, coverage, reasons to rebuild)
    def visit(st, q):
        d, s, cov, why = st.ghost
        c2 = cv.visit(cov, q)
        if c2 is not None:
            st.ghost = (d, s, c2, why)

    def h_dir(m, st, i, fn, args):
        q = args[0]
        if not is_ptr(q):
            return None
        out = []
        for v in (0, 1):
            if q == TGT and st.ghost[0] is not None and st.ghost[0] != v:
                continue
            s2 = st.copy()
            if q == TGT:
                s2.ghost = (v,) + s2.ghost[1:]
            elif v == 1 and dep_of(q) is not None:
                visit(s2, dep_of(q))
            out.append((s2, v))
        return out

    def h_origin(m, st, i, fn, args):
        if len(fn.params) != 1:
            return None
        out = []
        for v in sorted(en.values()):
            s2 = st.copy()
            if v in ext:
                visit(s2, args[0])
            out.append((s2, v))
        return out

    def h_older(m, st, i, fn, args):
        a, b = args[0], args[1]
        if b != TGT:
            bad.append(("against", i.loc, "an input is compared with something else than the target"))
            return [(st, m.fresh(st, "older", "i1"))]
        out = []
        for v in (0, 1):
            s2 = st.copy()
            d, s, cov, why = s2.ghost
            if v == 0:
                s2.ghost = (d, s, cov, 1)
            elif a == SRC:
                s2.ghost = (d, 1, cov, why)
            elif dep_of(a) is not None:
                visit(s2, dep_of(a))
            out.append((s2, v))
        s3 = st.copy()
        out.append((s3, Throw("?", "neither file exists")))
        return out
    m.hooks = [(re.compile(r"^std::filesystem::is_directory$"), h_dir), (re.compile(r"^Maike::Db::Dependency::expectedOrigin$"), h_origin),
               (re.compile(r"^Maike::isOlder$"), h_older)]
    m.run([m.start(f, [("p", ("Target",), 0), SRC, DEPS], ghost=(None, None, (), 0), roots=[DEPS])])
    ctx.absorb(m)
    got = set()
    for kind, v, st in split(m, m.outcomes):
        if kind != "ret":
            continue
        v = truth(m, st, v)
        d, s, cov, why = st.ghost
        got.add(v)
        if v is None:
            raise AnalysisBroken("isUpToDate: unknown result")
        if v == 1 and d != 1:
            if s != 1:
                bad.append(("source", None, "a target is taken for up to date although its source file is not known to be older"))
            if why:
                bad.append(("newer", None, "a target is taken for up to date although an input is not older"))
            if not cv.complete(st, cov, DEPS):
                bad.append(("deps", None, "a target is taken for up to date although not every dependency is known to be older, external or a directory"))
        if v == 0 and not why:
            bad.append(("spurious", None, "a target is taken for out of date although no input was found to be newer"))
    if got != {0, 1} and not bad and not ctx.truncated:
        bad.append(("const", None, "the age of the inputs does not decide whether a target is up to date"))
    for n in ("the source file is compared", "every dependency is compared, external or a directory", "out of date only with a reason"):
        ctx.oblige("up to date: " + n, True)
    report(ctx, "up to date", bad, floc(f))


def record(ctx):
    """isUpToDate(record, deps): all targets"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::isUpToDate$", lambda f: "SourceFileRecordConst const&" in f.dn and len(f.params) == 2 and f.sn.endswith("isUpToDate"))
    m = ctx.machine(max_states=20000)
    tt = p.types["Maike::Db::TargetInfo"]
    cv = Cover(m, tt["size"])
    TV = ("p", ("sym", ("t", "targetvec")), 0)
    DEPS = ("p", ("Deps",), 0)
    PATH = ("p", ("RecPath",), 0)
    bad = []

    def h_targets(m, st, i, fn, args):
        return [(st, TV)] if len(fn.params) == 1 else None

    def h_up(m, st, i, fn, args):
        if "TargetInfo const&" not in fn.dn or len(args) != 3:
            return None
        if args[1] != PATH:
            bad.append(("path", i.loc, "targets are compared with another file than the source file of the step"))
        if args[2] != DEPS:
            bad.append(("depvec", i.loc, "targets are compared with other dependencies than those of the step"))
        out = []
        for v in (0, 1):
            s2 = st.copy()
            cov, why = s2.ghost
            if v:
                c2 = cv.visit(cov, args[0])
                if c2 is not None:
                    cov = c2
            s2.ghost = (cov, why or 1 - v)
            out.append((s2, v))
        return out

    def h_path(m, st, i, fn, args):
        return [(st, PATH)] if len(fn.params) == 1 else None
    m.hooks = [(re.compile(r"^Maike::Db::SourceFileInfo::targets$"), h_targets), (re.compile(r"^Maike::Db::isUpToDate$"), h_up),
               (re.compile(r"^Maike::Db::SourceFileRecordConst::path$"), h_path)]
    st = m.start(f, [("p", ("Rec",), 0), DEPS], ghost=((), 0), roots=[TV])
    # the entry itself is called like the function it calls
    m.run([st])
    ctx.absorb(m)
    got = set()
    for kind, v, st in split(m, m.outcomes):
        if kind != "ret":
            continue
        v = truth(m, st, v)
        got.add(v)
        cov, why = st.ghost
        if v == 1 and (why or not cv.complete(st, cov, TV)):
            bad.append(("alltargets", None, "a step is skipped although not all of its targets are up to date"))
        if v == 0 and not why:
            bad.append(("spurious", None, "a step is run although all of its targets are up to date"))
        if v is None:
            raise AnalysisBroken("isUpToDate(record): unknown result")
    ctx.need("results of isUpToDate(record)", len(got), 1)
    for n in ("every target", "the source file of the step", "the dependencies of the step"):
        ctx.oblige("up to date step: compares " + n, True)
    report(ctx, "up to date step", bad, floc(f))


def run(ctx):
    """Task::runIfNecessary: runs the command iff forced, always rebuilt or out of date"""
    p = ctx.prog
    f = p.one(r"^Maike::Db::Task::runIfNecessary$", lambda f: True)
    en = p.enum("Maike::Db::RebuildPolicy")
    if "Always" not in en:
        raise AnalysisBroken("RebuildPolicy::Always vanished")
    uoff = usedeps_offset(p)
    coff = field(p, "Maike::Db::Task", lambda n, t: t == "Maike::Exec::Command", "the command of a task")
    noff = field(p, "Maike::Db::Task", lambda n, t: "SourceFileRecordConst" in t, "the node of a task")
    eoff = engaged(p)
    bad = []
    got = set()
    for force in (0, 1):
        m = ctx.machine(max_states=20000)

        def h_up(m, st, i, fn, args):
            if args[0] != ("p", ("This",), noff) or args[1] != ("p", ("This",), uoff):
                bad.append(("what", i.loc, "the step's own targets and dependencies are not what is tested for being up to date"))
            out = []
            for v in (0, 1):
                s2 = st.copy()
                s2.ghost = (v,) + s2.ghost[1:]
                out.append((s2, v))
            out.append((st, Throw("?", "file times")))
            return out

        def h_pol(m, st, i, fn, args):
            if len(fn.params) != 1:
                return None
            out = []
            for v in sorted(en.values()):
                s2 = st.copy()
                s2.ghost = (s2.ghost[0], v, s2.ghost[2])
                out.append((s2, v))
            return out

        def h_exec(m, st, i, fn, args):
            if args[-1] != ("p", ("This",), coff):
                bad.append(("command", i.loc, "another command than that of the step is run"))
            s2 = st.copy()
            m.havoc_range(st, args[0], 56)
            st.ghost = st.ghost[:2] + (st.ghost[2] + 1,)
            return [(st, None), (s2, Throw("?", "cannot be run"))]
        clk = lambda m, st, i, fn, args: [(st, TOP)]
        m.hooks = [(re.compile(r"^Maike::Db::isUpToDate$"), h_up), (re.compile(r"^Maike::Db::SourceFileInfo::rebuildPolicy$"), h_pol),
                   (re.compile(r"^Maike::Db::Invoker::execve$"), h_exec), (re.compile(r"^std::chrono::(_V2::)?steady_clock::now$"), clk)]
        params = []
        for k, t in enumerate(f.params):
            if k == 0:
                params.append(("p", ("Ret",), 0))
            elif k == 1:
                params.append(THIS)
            elif t == "i8" or t == "i1":
                params.append(force)
            elif t.startswith("p"):
                params.append(("p", ("A%d" % k,), 0))
            else:
                params.append(("t", "arg", k))
        m.run([m.start(f, params, ghost=(None, None, 0), roots=[("p", ("Ret",), 0)])])
        ctx.absorb(m)
        for kind, v, st in m.outcomes:
            if kind != "ret":
                continue
            up, pol, n = st.ghost
            must = force or pol == en["Always"] or up == 0
            if must and n == 0:
                bad.append(("skipped", None, "a step that is %s is not run" % ("forced" if force else "out of date" if up == 0 else "to be rebuilt always")))
            if n > 1:
                bad.append(("twice", None, "the command of a step is run more than once"))
            if n and not must:
                bad.append(("needless", None, "a step that is up to date is run"))
            if not n and not must and (up is None or pol is None):
                bad.append(("unasked", None, "a step is skipped without testing %s" % ("whether its targets are up to date" if up is None else "its rebuild policy")))
            e = m.load(st, ("p", ("Ret",), eoff), 1, "i8")
            if e not in (0, 1) or e != (1 if n else 0):
                bad.append(("result", None, "the result of a step does not tell whether its command was run"))
            got.add((force, n))
    if not bad and got != {(0, 0), (0, 1), (1, 1)}:
        raise AnalysisBroken("runIfNecessary: paths %r" % (got,))
    for n in ("a forced step is run", "a step with policy always is run", "an out of date step is run", "an up to date step is skipped", "the outcome is returned iff it was run"):
        ctx.oblige("run: " + n, True)
    report(ctx, "run", bad, floc(f))


def engaged(p):
    eoff = 56
    for n, t in p.types.items():
        if re.match(r"std::_Optional_payload_base<Maike::Exec::Result", n):
            for mm in t["m"]:
                if mm[0] == "_M_engaged":
                    eoff = mm[1]
    return eoff
