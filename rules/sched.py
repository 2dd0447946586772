"""Thread pool, event and counter: monitor invariants.

Each operation is analysed on its own. Whenever a lock is taken (or a condition wait returns) the
guarded members get arbitrary values, because other threads may have changed them; the obligations
are about what an operation leaves behind when it releases the lock, on what it waits and when it
returns. Together they imply the property for every interleaving."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import TOP, is_ptr, is_term, Throw, Stop, mask
from engine.rule import floc
from rules.common import once, field
from rules.tasks import report
from rules.sources import quiet

THIS = ("p", ("This",), 0)
LOCKS = r"pthread_(mutex|rwlock)_(lock|unlock|trylock|rdlock|wrlock)"


def members(p, cls):
    t = p.types.get(cls)
    if t is None:
        raise AnalysisBroken("class %s vanished" % cls)
    return t["m"]


def is_sync(ty):
    return re.match(r"(mutable )?std::(mutex|recursive_mutex|shared_mutex|timed_mutex|condition_variable(_any)?)$", ty) is not None


def mutexes(p, cls):
    return [m for m in members(p, cls) if re.search(r"mutex$", m[2])]


class Mon:
    """One operation of a monitor. ghost: dict with locks, notified, and what the rule adds."""

    def __init__(self, ctx, fn, args, init, acquire, wait=None, release=None, hooks=(), lim=20000, mem=None, prep=None):
        self.ctx, self.p, self.fn = ctx, ctx.prog, fn
        self.bad = []
        self.ev = set()
        self.m = m = ctx.machine(max_states=lim)
        m.off_lim = m.count_lim = 64
        self.acquire, self.on_wait, self.release = acquire, wait, release
        S = lambda n, h: (re.compile(r"^(%s)$" % n), h)
        m.hooks = list(hooks) + [
            S(LOCKS, self.h_lock), S(r"std::condition_variable(_any)?::wait", self.h_wait),
            S(r"std::condition_variable(_any)?::wait_(for|until)", self.h_timed),
            S(r"std::condition_variable(_any)?::notify_(one|all)", self.h_notify)]
        st = m.start(fn, args, mem=mem)
        if prep:
            prep(m, st)
        g = dict(locks=frozenset(), notify=(), **init)
        self.put(st, g)
        m.run([st])
        ctx.absorb(m)

    def g(self, st):
        return dict(st.ghost)

    def put(self, st, d):
        st.ghost = tuple(sorted(d.items(), key=lambda kv: kv[0]))

    def flag(self, key, loc, msg):
        self.bad.append((key, loc, msg))

    def h_lock(self, m, st, i, fn, args):
        d = self.g(st)
        mtx = args[0]
        op = fn.sn.split("_")[-1]
        if op == "unlock":
            if mtx not in d["locks"]:
                self.flag("unlock", i.loc, "a lock is released that is not held")
                return [(st, 0)]
            if self.release:
                self.release(self, st, d, mtx, i)
            d["locks"] = d["locks"] - {mtx}
            self.put(st, d)
            return [(st, 0)]
        if mtx in d["locks"]:
            self.flag("relock", i.loc, "a lock is taken twice by the same thread, which never returns")
            return [(st, Stop("cut"))]
        d["locks"] = d["locks"] | {mtx}
        self.put(st, d)
        self.ev.add("lock")
        return [(s2, 0) for s2 in self.acquire(self, st, mtx)]

    def h_wait(self, m, st, i, fn, args):
        if len(args) != 2:
            return None             # the variant with a predicate is looked into
        d = self.g(st)
        self.ev.add("wait")
        mtx = m.load(st, args[1], 8, "p")
        if mtx not in d["locks"]:
            self.flag("waitlock", i.loc, "a condition is waited for without holding the lock")
            return [(st, Stop("cut"))]
        if self.on_wait:
            self.on_wait(self, st, d, i)
        d = self.g(st)
        d["locks"] = d["locks"]
        self.put(st, d)
        return [(s2, None) for s2 in self.acquire(self, st, mtx)]

    def h_timed(self, m, st, i, fn, args):
        if re.search(r"wait_(for|until)<.*,.*,.*", fn.dn) and len(args) > 3:
            return None
        d = self.g(st)
        mtx = m.load(st, args[1], 8, "p")
        return [(s2, v) for v in (0, 1) for s2 in self.acquire(self, st.copy(), mtx)]

    def h_notify(self, m, st, i, fn, args):
        d = self.g(st)
        k = (args[0], "all" if fn.sn.endswith("all") else "one")
        if k not in d["notify"]:
            d["notify"] = tuple(sorted(d["notify"] + (k,), key=repr))
        self.put(st, d)
        self.ev.add("notify")
        return [(st, None)]

    def ends(self):
        """normal ends; anything else is reported"""
        for kind, v, st in self.m.outcomes:
            d = self.g(st)
            if kind == "ret":
                if d["locks"]:
                    self.flag("held", None, "the operation returns with a lock held")
                yield st, d, v
            elif kind in ("exc", "terminate"):
                self.flag("exc", v[3] if isinstance(v, tuple) and len(v) > 3 else None, "the operation can end with an exception")


# ---------------------------------------------------------------- event
def event(ctx):
    """Event: a wait returns only after a set that no other wait has consumed; no set is lost"""
    p = ctx.prog
    cls = "Maike::Sched::Event"
    mem = [m for m in members(p, cls) if not is_sync(m[2])]
    if len(mem) != 1 or not re.match(r"bool|(unsigned )?(int|char|long)", mem[0][2]):
        raise AnalysisBroken("the state of an event is not one flag")
    off, sz = mem[0][1], mem[0][3]
    STAT = ("p", ("This",), off)
    bad = []

    def acquire(mon, st, mtx):
        out = []
        for v in (0, 1):
            s2 = st.copy()
            mon.m.store(s2, STAT, sz, v)
            d = mon.g(s2)
            d["cur"] = v
            mon.put(s2, d)
            out.append(s2)
        return out

    def on_wait(mon, st, d, i):
        if mon.m.load(st, STAT, sz, "i%d" % (8 * sz)) == 1 and d["cur"] == 1:
            mon.flag("sleeps", i.loc, "a wait for an event that has been set goes to sleep and may never wake up")
        elif mon.m.load(st, STAT, sz, "i%d" % (8 * sz)) != d["cur"]:
            mon.flag("loses", i.loc, "a set event is reset before anybody has waited for it")

    def release(mon, st, d, mtx, i):
        d["rel"] = (d["cur"], mon.m.load(st, STAT, sz, "i%d" % (8 * sz)))
        d["hold"] = d.get("hold", 0) + 1

    def on_mem(mon):
        def f(st, i, ptr, size, store):
            pass
        return f

    f = p.one(r"^Maike::Sched::Event::waitAndReset$")
    mon = Mon(ctx, f, [THIS], dict(cur=None, rel=None), acquire, on_wait, release)
    n = 0
    for st, d, v in mon.ends():
        n += 1
        if d["rel"] is None:
            mon.flag("nolock", None, "an event is waited for without its lock")
        elif d["rel"][0] != 1:
            mon.flag("unset", None, "a wait for an event returns although the event was not set")
        elif d["rel"][1] != 0:
            mon.flag("noreset", None, "a wait for an event does not reset it")
    if not n and not mon.bad:
        mon.flag("never", None, "a wait for an event never returns")
    if "wait" not in mon.ev:
        mon.flag("nowait", None, "a wait for an event does not wait")
    bad += [(k, l or floc(f), t) for k, l, t in mon.bad]
    f = p.one(r"^Maike::Sched::Event::set$")
    mon = Mon(ctx, f, [THIS], dict(cur=None, rel=None), acquire, on_wait, release)
    for st, d, v in mon.ends():
        if d["rel"] is None:
            mon.flag("nolock", None, "an event is set without its lock")
        else:
            if d["rel"][1] != 1:
                mon.flag("noset", None, "setting an event leaves it unset")
            if d["rel"][0] == 0 and not d["notify"]:
                mon.flag("nonotify", None, "setting an event does not wake up who waits for it")
    bad += [(k, l or floc(f), t) for k, l, t in mon.bad]
    # a new event is not set
    c = [x for x in p.find(r"^Maike::Sched::Event::Event$") if len(x.params) == 1]
    for f in c[:1]:
        m = ctx.machine()
        m.run([m.start(f, [THIS])])
        ctx.absorb(m)
        for kind, v, st in m.outcomes:
            if kind == "ret" and m.load(st, STAT, sz, "i%d" % (8 * sz)) != 0:
                bad.append(("initial", floc(f), "a new event is already set"))
    for n in ("a wait returns only after a set and resets it", "a set event is never slept on", "a set wakes up who waits", "all under the lock"):
        ctx.oblige("event: " + n, True)
    report(ctx, "event", bad, "core/sched/event.hpp")


# ---------------------------------------------------------------- counter
def counter(ctx):
    """SignalingCounter: exact counting under the lock; a wait returns exactly when the value is reached"""
    p = ctx.prog
    names = [n for n in p.types if re.match(r"Maike::Sched::SignalingCounter<[\w ]+>$", n)]
    if len(names) != 1:
        raise AnalysisBroken("%d kinds of counters" % len(names))
    cls = names[0]
    mem = [m for m in members(p, cls) if not is_sync(m[2])]
    if len(mem) != 1:
        raise AnalysisBroken("the state of a counter is not one number")
    off, sz = mem[0][1], mem[0][3]
    w = 8 * sz
    VAL = ("p", ("This",), off)
    bad = []
    ARG = ("t", "wanted")

    def acquire(mon, st, mtx):
        t = mon.m.fresh(st, "count", "i%d" % w)
        mon.m.store(st, VAL, sz, t)
        d = mon.g(st)
        d["cur"] = t
        mon.put(st, d)
        return [st]

    def on_wait(mon, st, d, i):
        if mon.m.load(st, VAL, sz, "i%d" % w) != d["cur"]:
            mon.flag("waitmod", i.loc, "the counter is changed by waiting for it")
        if mon.m.cmp(st, "eq", d["cur"], ARG, w) == 1:
            mon.flag("sleeps", i.loc, "a wait for a value that has been reached goes to sleep")

    def release(mon, st, d, mtx, i):
        d["rel"] = (d["cur"], mon.m.load(st, VAL, sz, "i%d" % w))
        d["n"] = min(2, d["n"] + 1)

    f = p.one(r"^Maike::Sched::SignalingCounter::wait$")
    mon = Mon(ctx, f, [THIS, ARG], dict(cur=None, rel=None, n=0), acquire, on_wait, release)
    n = 0
    for st, d, v in mon.ends():
        n += 1
        if d["rel"] is None:
            mon.flag("nolock", None, "a counter is waited for without its lock")
            continue
        if mon.m.cmp(st, "eq", d["rel"][0], ARG, w) != 1:
            mon.flag("early", None, "a wait for a value returns although the counter has another value")
        if d["rel"][0] != d["rel"][1]:
            mon.flag("waitmod", None, "the counter is changed by waiting for it")
    if not n and not mon.bad:
        mon.flag("never", None, "a wait for a value never returns")
    if "wait" not in mon.ev:
        mon.flag("nowait", None, "a wait for a value does not wait")
    bad += [(k, l or floc(f), t) for k, l, t in mon.bad]
    k = 0
    for rx, step, what in ((r"^Maike::Sched::SignalingCounter::(operator\+\+|lock)$", 1, "counted up"),
                           (r"^Maike::Sched::SignalingCounter::(operator--|unlock)$", mask(w), "counted down")):
        for f in p.find(rx):
            if f.decl:
                continue
            k += 1
            mon = Mon(ctx, f, [THIS], dict(cur=None, rel=None, n=0), acquire, on_wait, release)
            for st, d, v in mon.ends():
                if d["rel"] is None or d["n"] != 1:
                    mon.flag("nolock", None, "a counter is %s without its lock" % what if d["rel"] is None else "a counter is %s in two steps" % what)
                    continue
                a, b = d["rel"]
                ok = {mon.m.binop(st, "add", a, step, w), mon.m.binop(st, "sub", a, (-step) & mask(w), w)}
                if b not in ok:
                    mon.flag("count", None, "a counter is not %s by one" % what)
                if not d["notify"]:
                    mon.flag("nonotify", None, "a counter is %s without waking up who waits for it" % what)
            bad += [(kk, l or floc(f), t) for kk, l, t in mon.bad]
    if k < 2 and not bad:
        raise AnalysisBroken("operations of the counter vanished")
    for n in ("a wait returns only at the wanted value", "a reached value is never slept on", "every change counts by one under the lock", "every change wakes up who waits"):
        ctx.oblige("counter: " + n, True)
    report(ctx, "counter", bad, "core/sched/signaling_counter.hpp")


# ---------------------------------------------------------------- thread pool
class Pool:
    def __init__(self, p):
        cls = "Maike::Sched::ThreadPool"
        self.q = field(p, cls, lambda n, t: re.search(r"(queue|deque|list)<Maike::UniqueFunction", t), "the queue of tasks")
        self.term = field(p, cls, lambda n, t: re.match(r"(std::atomic<)?bool", t), "the flag that ends the workers")
        self.eptr = field(p, cls, lambda n, t: "exception_ptr" in t, "the kept exception")
        self.arr = field(p, cls, lambda n, t: re.search(r"unsigned long\s*\[\]|vector<unsigned long|pthread_t", t), "the threads")
        self.cnt = field(p, cls, lambda n, t: t in ("int", "size_t", "unsigned long", "unsigned int"), "the number of threads")
        self.Q = ("p", ("This",), self.q)
        self.TERM = ("p", ("This",), self.term)
        self.EPTR = ("p", ("This",), self.eptr)


QOPS = r"std::(queue|deque|__cxx11::list|list)::(empty|size|front|back|pop|pop_front|pop_back|push|emplace|push_back|emplace_back|push_front|clear)"


def pool_ctor(ctx):
    """the pool starts its workers, and the function they run"""
    p = ctx.prog
    P = Pool(p)
    f = [x for x in p.find(r"^Maike::Sched::ThreadPool::ThreadPool$") if not x.decl][0]
    m = ctx.machine(max_states=5000)
    m.int_lim = m.off_lim = 1 << 30
    m.count_lim = 1 << 30
    bad = []
    starts = set()

    def h_create(m, st, i, fn, args):
        st.ghost = st.ghost + ((args[0], args[2], args[3]),)
        if m.load(st, P.TERM, 1, "i8") != 0:
            bad.append(("term", i.loc, "workers are started before the pool is ready, or told to end at once"))
        return [(st, 0)]

    N = 3
    m.hooks = [(re.compile(r"^pthread_create$"), h_create),
               (re.compile(r"^Maike::ThreadCount::value$"), lambda m, st, i, fn, args: [(st, N)]),
               (re.compile(r"^std::(queue|deque)::(queue|deque|~queue|~deque)$|^std::make_unique$"), lambda m, st, i, fn, args: quiet(m, st, i, fn, args))]
    m.run([m.start(f, [THIS, ("t", "n")])])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        slots = {x[0] for x in st.ghost}
        if len(st.ghost) < N:
            bad.append(("few", floc(f), "fewer workers are started than asked for"))
        elif len(slots) < N:
            bad.append(("slots", floc(f), "two workers share the place where their handle is kept"))
        if any(x[2] != THIS for x in st.ghost):
            bad.append(("other", floc(f), "a worker does not serve the pool that started it"))
        starts |= {x[1] for x in st.ghost}
    if not n:
        raise AnalysisBroken("the pool cannot be constructed")
    fns = [p.funcs.get(p.aliases.get(s[1][1], s[1][1])) for s in starts if is_ptr(s) and s[1][0] == "g"]
    if not fns or any(x is None for x in fns) or len(fns) != len(starts):
        if not bad:
            raise AnalysisBroken("the workers run an unknown function")
    ctx.oblige("pool: every worker is started", True)
    ctx.oblige("pool: the workers serve this pool", True)
    report(ctx, "pool", bad, floc(f))
    return fns


def worker(ctx):
    """every task is taken once, run once without the lock; a worker ends only when the pool ends and no task is left"""
    p = ctx.prog
    P = Pool(p)
    fns = pool_ctor(ctx)
    FRONT = ("p", ("Front",), 0)
    bad = []
    for f in fns:
        def fork(mon, st, loc=None):
            out = []
            for q in (0, 1):
                for t in (0, 1):
                    s2 = st.copy()
                    mon.m.store(s2, P.TERM, 1, t)
                    d = mon.g(s2)
                    d["q"], d["t"] = q, t
                    mon.put(s2, d)
                    out.append(s2)
            return out

        def acquire(mon, st, mtx):
            return fork(mon, st)

        def on_wait(mon, st, d, i):
            if d["q"] == 1:
                mon.flag("sleeps", i.loc, "a worker goes to sleep although a task is waiting")
            elif d["t"] == 1:
                mon.flag("noend", i.loc, "a worker goes to sleep although the pool is to end")
            if d["have"]:
                mon.flag("hoards", i.loc, "a worker goes to sleep with a task that it has not run")

        def release(mon, st, d, mtx, i):
            if d["have"] == "front":
                mon.flag("twice", i.loc, "a task is taken but left in the queue, so that it is run twice")

        def h_queue(m, st, i, fn, args):
            mon = h_queue.mon[0]
            name = fn.sn.split("::")[-1]
            if args[0] != P.Q:
                return None
            d = mon.g(st)
            if not d["locks"]:
                mon.flag("race", i.loc, "the queue of tasks is used without its lock")
            if name in ("empty", "size"):
                out = []
                for q in ((0, 1) if d["q"] is None else (d["q"],)):
                    s2 = st.copy()
                    d2 = dict(d)
                    d2["q"] = q
                    mon.put(s2, d2)
                    out.append((s2, 1 - q if name == "empty" else q))
                return out
            if name in ("front", "back"):
                if d["q"] != 1:
                    mon.flag("nofront", i.loc, "a task is taken from an empty queue")
                return [(st, FRONT)]
            if name.startswith("pop"):
                if d["q"] != 1:
                    mon.flag("nopop", i.loc, "a task is removed from an empty queue")
                if d["have"] != "front":
                    mon.flag("dropped", i.loc, "a task is removed without being taken")
                d["have"] = "task" if d["have"] == "front" else d["have"]
                d["q"] = None
                mon.put(st, d)
                mon.ev.add("pop")
                return [(st, None)]
            mon.flag("queue", i.loc, "a worker changes the queue in another way than taking a task")
            return [(st, TOP)]
        h_queue.mon = [None]

        def h_move(m, st, i, fn, args):
            mon = h_queue.mon[0]
            d = mon.g(st)
            if len(args) == 2 and args[1] == FRONT:
                if d["have"] is not None:
                    mon.flag("lost", i.loc, "a task is taken before the previous one was run")
                d["have"] = "front"
                d["obj"] = args[0]
                mon.put(st, d)
            elif len(args) == 2 and d["have"] and args[1] == d.get("obj"):
                d["obj"] = args[0]
                mon.put(st, d)
            return [(st, args[0] if i.t == "p" else None)]

        def h_run(m, st, i, fn, args):
            mon = h_queue.mon[0]
            d = mon.g(st)
            mon.ev.add("run")
            if d["locks"]:
                mon.flag("locked", i.loc, "a task is run while the queue is locked")
            if args[0] == FRONT:
                mon.flag("inplace", i.loc, "a task is run while other workers can still take it")
            elif d["have"] != "task" or args[0] != d.get("obj"):
                mon.flag("rerun", i.loc, "a task is run that was not taken from the queue, or a second time")
            d["have"] = None
            d["obj"] = None
            mon.put(st, d)
            return [(st, None)]

        def h_dtor(m, st, i, fn, args):
            mon = h_queue.mon[0]
            d = mon.g(st)
            if d["have"] and args[0] == d.get("obj"):
                mon.flag("norun", i.loc, "a task is destroyed without having been run")
                d["have"] = None
                mon.put(st, d)
            return [(st, None)]

        def on_mem(st, *a):
            pass
        S = lambda n, h: (re.compile(r"^(%s)$" % n), h)
        hooks = [S(QOPS, h_queue), S(r"Maike::UniqueFunction::(UniqueFunction|operator=)", h_move), S(r"Maike::UniqueFunction::operator\(\)", h_run),
                 S(r"Maike::UniqueFunction::~UniqueFunction", h_dtor)]

        class W(Mon):
            def __init__(self, *a, **k):
                h_queue.mon[0] = self
                Mon.__init__(self, *a, **k)
        mon = W(ctx, f, [THIS], dict(q=None, t=None, have=None, obj=None), acquire, on_wait, release, hooks)
        for st, d, v in mon.ends():
            mon.ev.add("end")
            if d["have"]:
                mon.flag("norun", None, "a worker ends with a task that it has not run")
            if d["t"] != 1:
                mon.flag("quits", None, "a worker ends although the pool is still in use")
            if d["q"] != 0:
                mon.flag("leaves", None, "a worker ends although tasks are left")
        for e, t in (("pop", "no task is ever taken"), ("run", "no task is ever run"), ("end", "a worker never ends"), ("wait", "a worker does not wait for tasks")):
            if e not in mon.ev and not mon.bad:
                mon.flag("no-" + e, None, t)
        bad += [(k, l or floc(f), t) for k, l, t in mon.bad]
    for n in ("a task is taken once and run once, unlocked", "the queue is used under its lock", "no worker sleeps while there is work or the pool ends",
              "a worker ends only when the pool ends and the queue is empty"):
        ctx.oblige("worker: " + n, True)
    report(ctx, "worker", bad, "core/sched/thread_pool.cpp")


def pool_end(ctx):
    """the destructor tells all workers to end and waits for each of them"""
    p = ctx.prog
    P = Pool(p)
    f = p.one(r"^Maike::Sched::ThreadPool::~ThreadPool$")
    N = 3
    ARR = ("Threads",)
    mem = {("This",): {P.cnt: (4, N), P.arr: (8, ("p", ARR, 0)), "hv": True},
           ARR: {8 * k: (8, ("t", "thr", k)) for k in range(N)}}
    bad = []

    def acquire(mon, st, mtx):
        mon.m.store(st, P.TERM, 1, 0)
        return [st]

    def release(mon, st, d, mtx, i):
        if mon.m.load(st, P.TERM, 1, "i8") == 1:
            d["told"] = True

    def h_join(m, st, i, fn, args):
        mon = box[0]
        d = mon.g(st)
        if d["locks"]:
            mon.flag("locked", i.loc, "the pool waits for its workers with their lock held")
        if not d["told"]:
            mon.flag("untold", i.loc, "the pool waits for its workers without telling them to end")
        if not any(k == "all" for c, k in d["notify"]):
            mon.flag("asleep", i.loc, "the pool waits for its workers without waking all of them up")
        if args[0] in d["joined"]:
            mon.flag("join2", i.loc, "a worker is waited for twice")
        d["joined"] = tuple(sorted(set(d["joined"]) | {args[0]}, key=repr))
        mon.put(st, d)
        return [(st, 0)]
    box = [None]

    class W(Mon):
        def __init__(self, *a, **k):
            box[0] = self
            Mon.__init__(self, *a, **k)
    hooks = [(re.compile(r"^pthread_join$"), h_join),
             (re.compile(r"^pthread_detach$"), lambda m, st, i, fn, args: (box[0].flag("detach", i.loc, "a worker is left running"), [(st, 0)])[1]),
             (re.compile(r"^std::(queue|deque|unique_ptr|__uniq_ptr_impl)::~\w+$"), lambda m, st, i, fn, args: [(st, None)]),
             (re.compile(r"^std::__exception_ptr::exception_ptr::~exception_ptr$"), lambda m, st, i, fn, args: [(st, None)])]
    mon = W(ctx, f, [THIS], dict(told=False, joined=()), acquire, None, release, hooks, mem=mem)
    n = 0
    for st, d, v in mon.ends():
        n += 1
        if len(d["joined"]) < N:
            mon.flag("unjoined", None, "the pool ends while workers are still running")
    if not n and not mon.bad:
        raise AnalysisBroken("the end of the pool could not be followed")
    for x in ("told under the lock", "all woken up", "each waited for"):
        ctx.oblige("end of the pool: workers are " + x, True)
    report(ctx, "pool-end", mon.bad, floc(f))


def submit(ctx):
    """addTask: one entry per task; its exception is kept for the caller"""
    p = ctx.prog
    P = Pool(p)
    adds = [f for f in p.find(r"^Maike::Sched::ThreadPool::addTask$") if not f.decl]
    if len(adds) < 2:
        raise AnalysisBroken("%d kinds of tasks are submitted" % len(adds))
    bad = []
    clo = set()
    for f in adds:
        def acquire(mon, st, mtx):
            return [st]

        def release(mon, st, d, mtx, i):
            d["atrel"] = d["pushed"]

        def h_push(m, st, i, fn, args):
            mon = box[0]
            if args[0] != P.Q:
                return None
            d = mon.g(st)
            name = fn.sn.split("::")[-1]
            if name not in ("push", "emplace", "push_back", "emplace_back", "push_front"):
                return None
            if not d["locks"]:
                mon.flag("race", i.loc, "the queue of tasks is used without its lock")
            if args[1] != d["fun"]:
                mon.flag("othertask", i.loc, "something else than the submitted task is put in the queue")
            d["pushed"] = min(2, d["pushed"] + 1)
            mon.put(st, d)
            return [(st, TOP)]

        def h_ctor(m, st, i, fn, args):
            mon = box[0]
            d = mon.g(st)
            if len(args) == 2:
                if d["fun"] is None or args[1] == d["fun"]:
                    d["fun"] = args[0]
                    mon.put(st, d)
            return [(st, None)]

        def h_any(m, st, i, fn, args):
            return [(st, None)]
        box = [None]

        class W(Mon):
            def __init__(self, *a, **k):
                box[0] = self
                Mon.__init__(self, *a, **k)
        S = lambda n, h: (re.compile(r"^(%s)$" % n), h)
        hooks = [S(QOPS, h_push), S(r"Maike::UniqueFunction::UniqueFunction", h_ctor), S(r"Maike::UniqueFunction::~UniqueFunction", h_any),
                 (re.compile(r"^Maike::Sched::ThreadPool::addTask::.*(::~?|::~?\(lambda.*)$"), h_any)]
        ar = [THIS, ("p", ("Task",), 0)] + [0] * (len(f.params) - 2)
        mon = W(ctx, f, ar, dict(pushed=0, fun=None, atrel=0), acquire, None, release, hooks)
        n = 0
        for st, d, v in mon.ends():
            n += 1
            if d["pushed"] != 1:
                mon.flag("pushes", None, "a submitted task is put in the queue %s" % ("more than once" if d["pushed"] else "never"))
            elif not d["notify"]:
                mon.flag("nonotify", None, "a task is submitted without waking up a worker")
        if not n and not mon.bad:
            raise AnalysisBroken("submission of tasks could not be followed")
        bad += [("add-" + k, l or floc(f), t) for k, l, t in mon.bad]
        # the closure that runs the task
        cs = [c for c in p.funcs.values() if not c.decl and c.sn.endswith("::operator()") and c.sn.startswith("Maike::Sched::ThreadPool::addTask")
              and len(c.params) == 1 and same_instance(f, c)]
        if len(cs) != 1:
            raise AnalysisBroken("%d closures run a task of %s" % (len(cs), f.dn[:80]))
        clo.add(cs[0].name)
        bad += [("run-" + k, l, t) for k, l, t in closure(ctx, P, cs[0])]
    bad += [("take-" + k, l, t) for k, l, t in take(ctx, P)]
    for n in ("submitted once under the lock", "submission wakes up a worker", "run once", "an exception is kept unless one is kept already", "the kept exception is handed out once"):
        ctx.oblige("tasks: " + n, True)
    ctx.need("closures", len(clo), 2)
    report(ctx, "tasks", bad, "core/sched/thread_pool.hpp")


def same_instance(f, c):
    """is c the closure made by f: their names share the template arguments"""
    a = f.dn.split("addTask", 1)[1]
    b = c.dn.split("addTask", 1)[1]
    k = 0
    depth = 0
    for j, ch in enumerate(a):
        if ch == "<":
            depth += 1
        elif ch == ">" and a[j - 1] != "-":
            depth -= 1
            if depth == 0:
                k = j + 1
                break
    return b.startswith(a[:k])


def closure(ctx, P, f):
    """runs the task exactly once and keeps what it throws"""
    p = ctx.prog
    t = [x for x in p.types.values() if x.get("line") == f.line and x["n"].startswith("Maike::Sched::ThreadPool::addTask")]
    offs = {m[1] for x in t for m in x["m"] if "ThreadPool*" in m[2] and x["size"] == m[1] + 8}
    m = ctx.machine(max_states=20000)
    bad = []
    CUR = ("p", ("sym", ("t", "cur")), 0)
    CLO = ("Clo",)
    first = [None]

    def h_call(m, st, i, fn, args):
        if len(st.frames) != 1 and not st.frames[-1].fn.sn.startswith("std::") or not is_ptr(args[0]) or args[0][1] != CLO:
            return None
        d = dict(st.ghost)
        d["run"] = min(2, d["run"] + 1)
        d["lk"] = d["lk"] or bool(d["locks"])
        st.ghost = tuple(sorted(d.items()))
        out = [(st, TOP)]
        for ti in ("_ZTISt9exception", "_ZTIPKc"):
            s2 = st.copy()
            d2 = dict(d)
            d2["threw"] = 1
            s2.ghost = tuple(sorted(d2.items()))
            out.append((s2, Throw(ti)))
        return out

    def h_lock(m, st, i, fn, args):
        d = dict(st.ghost)
        op = fn.sn.split("_")[-1]
        d["locks"] = d["locks"] - {args[0]} if op == "unlock" else d["locks"] | {args[0]}
        if op != "unlock":
            d["keep"] = True
        st.ghost = tuple(sorted(d.items()))
        return [(st, 0)]

    def h_current(m, st, i, fn, args):
        m.store(st, args[0], 8, CUR)
        return [(st, None)]

    def on_mem(*a):
        pass
    m.hooks = [(re.compile(r"::operator\(\)$"), h_call), (re.compile(r"^(%s)$" % LOCKS), h_lock),
               (re.compile(r"^std::current_exception$"), h_current),
               (re.compile(r"^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)$"), lambda m, st, i, fn, args: [(st, None)])]
    OLD = ("p", ("sym", ("t", "oldexc")), 0)
    for old in (0, OLD):
        mem = {("This",): {P.eptr: (8, old), "hv": True}, CLO: {"hv": True}}
        for o in offs:
            mem[CLO][o] = (8, THIS)
        st = m.start(f, [("p", CLO, 0)], mem=mem, roots=(CUR, OLD))
        for x in (CUR, OLD):
            m.assume(st, m.cmp(st, "eq", x, 0, 64), 0)
        st.ghost = tuple(sorted(dict(run=0, threw=0, locks=frozenset(), lk=False, old=old, keep=False).items()))
        m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        d = dict(st.ghost)
        if kind != "ret":
            bad.append(("escape", floc(f), "the exception of a task ends the worker" if kind in ("exc", "terminate") else "running a task does not return"))
            continue
        n += 1
        if d["run"] != 1:
            bad.append(("once", floc(f), "a task is run %s" % ("more than once" if d["run"] else "never")))
        e = m.load(st, P.EPTR, 8, "p")
        if d["threw"]:
            if e == 0:
                bad.append(("forgotten", floc(f), "the exception of a task is forgotten"))
            elif d["old"] == 0 and e != CUR:
                bad.append(("other", floc(f), "another exception than the one of the task is kept"))
            elif e not in (CUR, OLD):
                bad.append(("garbage", floc(f), "another exception than the one of the task is kept"))
            if e != d["old"] and not d["keep"]:
                bad.append(("race", floc(f), "the exception of a task is kept without a lock"))
        elif e != d["old"]:
            bad.append(("invented", floc(f), "a task that succeeds changes the kept exception"))
        if d["lk"]:
            bad.append(("locked", floc(f), "a task is run with a lock held"))
        if d["locks"]:
            bad.append(("held", floc(f), "a lock stays held after a task"))
    if not n and not bad:
        raise AnalysisBroken("the closure of a task could not be followed")
    return bad


def take(ctx, P):
    p = ctx.prog
    f = p.one(r"^Maike::Sched::ThreadPool::takeLastException$")
    OLD = ("p", ("sym", ("t", "oldexc")), 0)
    OUT = ("p", ("Out",), 0)
    bad = []

    def acquire(mon, st, mtx):
        return [st]
    hooks = [(re.compile(r"^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)$"), lambda m, st, i, fn, args: [(st, None)])]
    for old in (0, OLD):
        mon = Mon(ctx, f, [OUT, THIS], {}, acquire, hooks=hooks, mem={("This",): {P.eptr: (8, old), "hv": True}, ("Out",): {}}, prep=lambda m, st: m.assume(st, m.cmp(st, "eq", OLD, 0, 64), 0))
        for st, d, v in mon.ends():
            if mon.m.load(st, OUT, 8, "p") != old:
                mon.flag("lost", None, "the kept exception is not handed out")
            if mon.m.load(st, P.EPTR, 8, "p") != 0:
                mon.flag("again", None, "the kept exception is handed out again by the next build")
            if "lock" not in mon.ev:
                mon.flag("race", None, "the kept exception is taken without a lock")
        bad += [(k, l or floc(f), t) for k, l, t in mon.bad]
    return bad


def unique_function(ctx):
    """a task is owned by one object at a time: run and destroyed through it exactly once"""
    p = ctx.prog
    SRC, DST = ("Src",), ("Dst",)
    bad = []
    t = [x for x in p.types.values() if re.match(r"Maike::UniqueFunction<void \(\)>$", x["n"])]
    if len(t) != 1:
        raise AnalysisBroken("the owner of a task vanished")
    ms = [(m[0], m[1], m[3]) for m in t[0]["m"]]
    size = t[0]["size"]
    mv = [f for f in p.find(r"^Maike::UniqueFunction::UniqueFunction$") if not f.decl and re.search(r"UniqueFunction\(Maike::UniqueFunction<void \(\)>&&\)$", f.dn)]
    dt = [f for f in p.find(r"^Maike::UniqueFunction::~UniqueFunction$") if not f.decl]
    op = [f for f in p.find(r"^Maike::UniqueFunction::operator\(\)$") if not f.decl]
    mk = [f for f in p.find(r"^Maike::UniqueFunction::UniqueFunction$") if not f.decl and f not in mv]
    ctx.need("operations of the owner of a task", min(len(mv), len(dt), len(op), len(mk)), 1)

    def run(fn, args, mem):
        m = ctx.machine(max_states=2000)
        calls = []

        def unknown(st, fr, i, c, a):
            st.ghost = st.ghost + ((c, tuple(a)),)
            return [(st, TOP)]
        m.unknown_call = unknown
        st = m.start(fn, args, mem=mem, roots=tuple(("p", ("F", n), 0) for n, o, s in ms))
        m.run([st])
        ctx.absorb(m)
        return m, [(s, kind) for kind, v, s in m.outcomes]
    def fval(n):
        return ("p", ("sym", ("t", "F", n)), 0)
    full = {o: (8, fval(n)) for n, o, s in ms}
    # what destroying, running mean: calls made through the members
    m, out = run(dt[0], [("p", DST, 0)], {DST: dict(full)})
    des = {s.ghost for s, k in out if k == "ret"}
    if len(des) != 1 or len(next(iter(des))) != 1:
        bad.append(("destroy", floc(dt[0]), "destroying the owner of a task does not destroy the task exactly once"))
    m, out = run(op[0], [("p", DST, 0)], {DST: dict(full)})
    runs = {s.ghost for s, k in out if k == "ret"}
    if not runs or any(len(x) != 1 for x in runs):
        bad.append(("run", floc(op[0]), "running a task through its owner does not run it exactly once"))
    for f in mv:
        m, out = run(f, [("p", DST, 0), ("p", SRC, 0)], {SRC: dict(full), DST: {}})
        for s, k in out:
            if k != "ret":
                bad.append(("move-ends", floc(f), "moving a task does not return"))
                continue
            if s.ghost:
                bad.append(("move-calls", floc(f), "moving a task runs or destroys it"))
            m2, o2 = run(dt[0], [("p", DST, 0)], dict(s.mem))
            if {x.ghost for x, kk in o2} != des:
                bad.append(("move-lost", floc(f), "a task that was moved is not owned by its new owner"))
            m2, o2 = run(op[0], [("p", DST, 0)], dict(s.mem))
            if {x.ghost for x, kk in o2 if kk == "ret"} != runs:
                bad.append(("move-run", floc(f), "a task that was moved cannot be run by its new owner"))
            m2, o2 = run(dt[0], [("p", SRC, 0)], dict(s.mem))
            if any(x.ghost for x, kk in o2):
                bad.append(("move-both", floc(f), "a task that was moved is also destroyed by its old owner"))
    ctx.oblige("ownership: a task is run and destroyed through its owner exactly once", True)
    ctx.oblige("ownership: moving a task leaves exactly one owner", True)
    report(ctx, "ownership", bad, floc(mv[0]))
