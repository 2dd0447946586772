"""Running a command: descriptors, the child process, its streams and its exit status.

The abstract interpretation follows Exec::execve from the capturing entry point into fork, both
branches of it, the threads it starts (run at the point where they are started: the rule only
needs what they do, and in which order the caller does the rest), and back. The ghost state is the
descriptor table of the current process plus a few typestates."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import TOP, is_ptr, is_term, Throw, Stop
from engine.rule import floc
from rules.common import once, Cover, elem_of
from rules.tasks import report
from rules.sources import quiet

SIGPIPE = 13
O_CLOEXEC = 0o2000000
F_SETFD, F_DUPFD, F_DUPFD_CLOEXEC, FD_CLOEXEC = 2, 0, 1030, 1
PID = ("t", "pid", 0)


def entry(p):
    """the entry point that captures both streams"""
    c = [f for f in p.find(r"^Maike::Exec::execve$") if not f.decl and f.params and f.params[0].startswith("pr")
         and len(f.params) == 3 and "LocalExecve" not in f.dn]
    if len(c) != 1:
        raise AnalysisBroken("%d functions capture the output of a command" % len(c))
    return c[0]


class Run:
    def __init__(self, ctx, status=None, child=None, lean=False):
        self.ctx = ctx
        self.p = ctx.prog
        self.m = ctx.machine(max_states=60000)
        self.m.int_lim = self.m.off_lim = self.m.count_lim = 1 << 40
        self.bad = []
        self.ev = set()
        self.status = status
        self.child = child or {}
        self.lean = lean                    # one path per status, for the decoding of all statuses
        self.maps = set()                   # (stdin pipe, stdout pipe, stderr pipe) of the command
        self.errw = set()                   # (pipe, size) written when the command cannot be launched
        self.caps = set()                   # (pipe, capturing vector)
        self.done = []

    # ------------------------------------------------------------ ghost state
    def g(self, st):
        return dict(st.ghost)

    def put(self, st, d):
        st.ghost = tuple(sorted(d.items(), key=lambda kv: kv[0]))

    def flag(self, key, loc, msg):
        self.bad.append((key, loc, msg))

    @staticmethod
    def in_thread(st):
        for k, f in enumerate(st.frames):
            if f.fn.sn.endswith("::_M_run"):
                return k
        return None

    # ------------------------------------------------------------ system calls
    def h_pipe(self, m, st, i, fn, args):
        out = []
        if not self.lean:
            s2 = st.copy()
            out.append((s2, 0xffffffff))
        d = self.g(st)
        flags = args[1] if fn.dn.startswith("pipe2") else 0
        k = d["np"]
        if k > 11:
            self.flag("pipes", i.loc, "pipes are created without bound for one command")
            return [(st, Stop("cut"))]
        d["np"] = k + 1
        ce = isinstance(flags, int) and bool(flags & O_CLOEXEC)
        if not ce and not d["lock"]:
            self.flag("inherit", i.loc, "the ends of a pipe can be inherited by a command that another thread starts at the same time, "
                      "so that this command never sees the end of its input")
        d["fds"] += ((100 + 2 * k, k, "r", ce), (101 + 2 * k, k, "w", ce))
        self.put(st, d)
        m.store(st, args[0], 4, 100 + 2 * k)
        m.store(st, m.addoff(st, args[0], 4), 4, 101 + 2 * k)
        self.ev.add("pipe")
        out.append((st, 0))
        return out

    def entry_of(self, d, fd):
        for e in d["fds"]:
            if e[0] == fd:
                return e
        return None

    def h_close(self, m, st, i, fn, args):
        d = self.g(st)
        fd = args[0]
        if fd == 0xffffffff or fd == -1:
            return [(st, 0xffffffff)]
        e = self.entry_of(d, fd)
        if e is None:
            if not (d["mode"] == "child" and fd in (0, 1, 2)):
                self.flag("close-twice", i.loc, "a descriptor is closed that is not open any more (another thread may own it by now)")
            return [(st, 0xffffffff)]
        t = self.in_thread(st)
        for r in d["readers"]:
            if r[0] == fd and r[1] == "running" and t is None:
                self.flag("close-busy", i.loc, "a stream of the command is closed while a thread still reads it")
        d["fds"] = tuple(x for x in d["fds"] if x != e)
        self.put(st, d)
        return [(st, 0)]

    def h_dup2(self, m, st, i, fn, args):
        d = self.g(st)
        e = self.entry_of(d, args[0])
        if e is None:
            self.flag("dup", i.loc, "a descriptor is duplicated that is not open")
            return [(st, args[1])]
        ce = fn.dn.startswith("dup3") and isinstance(args[2], int) and bool(args[2] & O_CLOEXEC)
        if args[0] != args[1]:
            d["fds"] = tuple(x for x in d["fds"] if x[0] != args[1]) + ((args[1], e[1], e[2], ce),)
        self.put(st, d)
        return [(st, args[1])]

    def h_fcntl(self, m, st, i, fn, args):
        d = self.g(st)
        e = self.entry_of(d, args[0])
        if args[1] == F_SETFD and len(args) > 2 and e is not None:
            ce = bool(args[2] & FD_CLOEXEC) if isinstance(args[2], int) else False
            d["fds"] = tuple(x if x != e else (x[0], x[1], x[2], ce) for x in d["fds"])
            self.put(st, d)
        return [(st, 0)]

    def h_fork(self, m, st, i, fn, args):
        self.ev.add("fork")
        out = []
        d = self.g(st)
        if d["mode"] != "pre":
            self.flag("fork2", i.loc, "more than one process is started for one command")
            return [(st, Stop("cut"))]
        for mode, v in (("parent", PID),) if self.lean else (("child", 0),) if not self.child else (("nofork", 0xffffffff), ("child", 0), ("parent", PID)):
            s2 = st.copy()
            d2 = dict(d)
            d2["mode"] = mode
            self.put(s2, d2)
            if mode == "parent":
                m.assume(s2, m.cmp(s2, "eq", PID, 0, 32), 0)
                m.assume(s2, m.cmp(s2, "eq", PID, 0xffffffff, 32), 0)
            out.append((s2, v))
        return out

    def h_execve(self, m, st, i, fn, args):
        d = self.g(st)
        self.ev.add("exec")
        if d["mode"] != "child":
            self.flag("exec-self", i.loc, "the command replaces the calling process")
            return [(st, Stop("cut"))]
        std = {}
        for fd, k, end, ce in d["fds"]:
            if fd in (0, 1, 2) and not ce:
                std[fd] = (k, end)
        for fd, end, name in ((0, "r", "input"), (1, "w", "output"), (2, "w", "error output")):
            if fd not in std or std[fd][1] != end:
                self.flag("std%d" % fd, i.loc, "the standard %s of the command is not connected to the caller" % name)
        if len(std) == 3:
            if len({k for k, e in std.values()}) < 3:
                self.flag("shared", i.loc, "two standard streams of the command share a pipe")
            self.maps.add(tuple(std[fd][0] for fd in (0, 1, 2)))
        for fd, k, end, ce in d["fds"]:
            if fd > 2 and not ce and end == "w":
                self.flag("leak-w", i.loc, "the command inherits the writing end of one of its own pipes, so that its reader never sees the end")
        s2 = st.copy()
        d2 = dict(d)
        d2["mode"] = "noexec"
        self.put(s2, d2)
        return [(st, Stop("exec")), (s2, 0xffffffff)]

    def h_write(self, m, st, i, fn, args):
        d = self.g(st)
        fd, buf, n = args
        e = self.entry_of(d, fd)
        if d["mode"] in ("child", "noexec"):
            if e is not None and fd > 2 and d["mode"] == "noexec":
                if isinstance(n, int):
                    self.errw.add((e[1], n))
                d["told"] = 1
                self.put(st, d)
            return [(st, n)]
        if e is None or e[2] != "w":
            self.flag("write", i.loc, "input is written to a descriptor that is not the command's standard input")
            return [(st, n)]
        self.ev.add("write")
        if not d["nopipe"] and not self.program_ignores_sigpipe():
            self.flag("sigpipe", i.loc, "a command that ends without reading its input kills the caller")
        w = d["feed"]
        if isinstance(n, int) and n == 0:
            return [(st, 0)]
        if w is None or w[0] != buf or w[1] != n:
            self.flag("feed", i.loc, "the command receives other bytes than its input source provided")
        d["feed"] = None
        self.put(st, d)
        s2 = st.copy()
        d2 = dict(d)
        d2["closed"] = 1
        self.put(s2, d2)
        return [(st, n), (s2, 0xffffffffffffffff)]

    def program_ignores_sigpipe(self):
        for f in self.p.funcs.values():
            if f.decl or f.sn != "main":
                continue
            for b in f.blocks:
                for i in b:
                    if i.op in ("call", "invoke"):
                        c = i.x.get("c")
                        if isinstance(c, (list, tuple)) and any(isinstance(x, str) and x in ("signal", "sigaction") for x in c):
                            return True
        return False

    def h_feed(self, m, st, i, fn, args):
        """the source of the command's input: (self, buffer, size) -> bytes provided"""
        d = self.g(st)
        if d["feed"] is not None:
            self.flag("feed-lost", i.loc, "bytes provided as input for the command are dropped")
        if d["eof"]:
            self.flag("feed-after", i.loc, "the input source is asked again after it reported its end")
            return [(st, Stop("cut"))]
        self.ev.add("feed")
        n = args[2]
        if not isinstance(n, int):
            raise AnalysisBroken("input is requested in amounts that are not constant")
        out = []
        for r in ((0,) if self.lean else (0, 5, n)):
            s2 = st.copy()
            d2 = dict(d)
            d2["feed"] = (args[1], r) if r else None
            d2["eof"] = r == 0
            d2["more"] = r == n
            self.put(s2, d2)
            if r:
                m.havoc(s2, args[1])
            out.append((s2, r))
        return out

    def h_read(self, m, st, i, fn, args):
        d = self.g(st)
        fd, buf, n = args
        e = self.entry_of(d, fd)
        if d["mode"] != "parent" or e is None or e[2] != "r":
            self.flag("read", i.loc, "a descriptor is read that is not a stream of the command")
            return [(st, Stop("cut"))]
        t = self.in_thread(st)
        k = e[1]
        wopen = any(x[1] == k and x[2] == "w" for x in d["fds"])
        err = self.child.get("err")
        if err is not None and k == err[0]:
            if wopen:
                self.flag("err-open", i.loc, "the caller waits for the command to start while it holds the other end of the pipe itself")
            if t is not None:
                raise AnalysisBroken("the launch result is read by another thread")
            out = []
            for r, v in ((0, "ok"), (err[1], "failed")):
                if self.lean and r:
                    continue
                if isinstance(n, int) and r > n:
                    r = n
                s2 = st.copy()
                d2 = dict(d)
                d2["launch"] = v
                self.put(s2, d2)
                if r:
                    m.havoc_range(s2, buf, r)
                out.append((s2, r))
            self.ev.add("launch")
            return out
        self.ev.add("read")
        if t is None:
            self.blocking(st, d, i, skip=fd)
            if wopen:
                self.flag("read-open", i.loc, "the caller reads a stream of the command while it holds the writing end itself")
        rs = dict((r[0], r) for r in d["readers"])
        r0 = rs.get(fd)
        if r0 is None or t is None:
            rs[fd] = (fd, "running" if t is not None else "main", d["thr"] if t is not None else 0)
        if d["got"] is not None:
            self.flag("drop", i.loc, "output of the command is dropped: the next part is read before the previous one was delivered")
        out = []
        if not isinstance(n, int) or n <= 0:
            raise AnalysisBroken("output is read in amounts that are not constant")
        for r in (0, 0xffffffffffffffff) if self.lean else (0, 0xffffffffffffffff, min(3, n), n):
            s2 = st.copy()
            d2 = dict(d)
            r2 = dict(rs)
            if r in (0, 0xffffffffffffffff):
                d2["got"] = None
                d2["end"] = d2["end"] | {fd}
            else:
                if fd in d2["end"]:
                    continue
                d2["got"] = (buf, r, 0, k)
                m.havoc_range(s2, buf, min(r, 64))
            d2["readers"] = tuple(sorted(r2.values()))
            self.put(s2, d2)
            out.append((s2, r))
        if fd in d["end"] and len(out) > 1:
            out = out[:1]
        return out

    # ------------------------------------------------------------ delivery of output
    def deliver(self, st, i, vec, first, n):
        d = self.g(st)
        got = d["got"]
        if got is None:
            if n != 0:
                self.flag("dup", i.loc, "output of the command is delivered more than once")
            return
        buf, r, off, k = got
        if first is not None and first != self.m.addoff(st, buf, off):
            self.flag("wrongpart", i.loc, "output of the command is delivered from a wrong position")
        if not isinstance(n, int) or off + n > r:
            self.flag("toomuch", i.loc, "more bytes are delivered than the command wrote")
            n = r - off
        off += n
        d["got"] = (buf, r, off, k) if off < r else None
        if vec is not None:
            self.caps.add((k, vec))
        self.put(st, d)

    def h_insert(self, m, st, i, fn, args):
        if "std::byte" not in fn.dn.split("insert")[0]:
            return None
        a = args[1:] if fn.params[0].startswith("pr") else args
        vec = a[0]
        if len(a) == 4 and is_ptr(a[2]) and is_ptr(a[3]) and a[2][1] == a[3][1] and isinstance(a[2][2], int) and isinstance(a[3][2], int):
            pos = a[1]
            t = m.tag(st, vec)
            if pos != ("p", ("sym", ("t", "vend", t)), 0):
                pv = m.load(st, pos, 8, "p") if is_ptr(pos) else pos
                if pv != ("p", ("sym", ("t", "vend", t)), 0) and m.cmp(st, "eq", pv, ("p", ("sym", ("t", "vend", t)), 0), 64) != 1:
                    self.flag("notend", i.loc, "output of the command is not appended to what was captured before")
            self.deliver(st, i, vec, a[2], a[3][2] - a[2][2])
            self.settag(m, st, vec)
            return [(st, m.fresh(st, "vit", i.t) if i.d >= 0 else None)]
        raise AnalysisBroken("captured output is inserted in an unknown way: %s" % fn.dn[:120])

    def settag(self, m, st, vec):
        m.havoc_range(st, vec, 24)
        m.settag(st, vec, ("t", "cap", vec))

    def h_push(self, m, st, i, fn, args):
        if "std::byte" not in fn.dn.split("::push_back")[0].split("::emplace_back")[0]:
            return None
        self.deliver(st, i, args[0], None, 1)
        self.settag(m, st, args[0])
        return [(st, args[0] if i.t == "p" else None)]

    # ------------------------------------------------------------ threads
    def h_thread(self, m, st, i, fn, args):
        d = self.g(st)
        s = m.load(st, args[1], 8, "p")
        vt = m.load(st, s, 8, "p") if is_ptr(s) else None
        run = m.load(st, m.addoff(st, vt, 16), 8, "p") if is_ptr(vt) else None
        f = self.p.funcs.get(self.p.aliases.get(run[1][1], run[1][1])) if is_ptr(run) and run[1][0] == "g" else None
        if f is None or f.decl:
            raise AnalysisBroken("a thread runs an unknown function")
        d["thr"] += 1
        if d["thr"] > 6:
            self.flag("threads", i.loc, "threads are started without bound")
            return [(st, Stop("cut"))]
        d["live"] = d["live"] | {d["thr"]}
        m.store(st, args[0], 8, d["thr"])
        self.put(st, d)
        self.ev.add("thread")
        return m.enter(st, st.frames[-1], i, f, [s])

    def h_join(self, m, st, i, fn, args):
        d = self.g(st)
        v = m.load(st, args[0], 8, "i64")
        self.blocking(st, d, i)
        if isinstance(v, int):
            for r in d["readers"]:
                if r[2] == v:
                    e = self.entry_of(d, r[0])
                    if e is not None and any(x[1] == e[1] and x[2] == "w" for x in d["fds"]):
                        self.flag("join-open", i.loc, "the caller waits for the end of a stream whose writing end it holds itself")
            d["readers"] = tuple((a, "done", t) if t == v else (a, b, t) for a, b, t in d["readers"])
            d["live"] = d["live"] - {v}
        m.store(st, args[0], 8, 0)
        self.put(st, d)
        return [(st, None)]

    def h_detach(self, m, st, i, fn, args):
        self.flag("detach", i.loc, "a thread that handles a stream of the command is left running")
        m.store(st, args[0], 8, 0)
        return [(st, None)]

    # ------------------------------------------------------------ waiting
    def blocking(self, st, d, i, skip=None):
        """an operation that may last as long as the command runs"""
        mp = self.child.get("map")
        if mp is None or d["mode"] != "parent" or self.in_thread(st) is not None:
            return
        if any(e[1] == mp[0] and e[2] == "w" for e in d["fds"]):
            self.flag("stdin-open", i.loc, "the caller waits for the command without closing its standard input: "
                      "a command that reads its input to the end never finishes")
        for k, n in ((mp[1], "output"), (mp[2], "error output")):
            fd = 100 + 2 * k
            if fd != skip and not any(r[0] == fd for r in d["readers"]):
                self.flag("undrained", i.loc, "the caller waits for the command while nobody reads its standard %s: "
                          "a command that writes enough never finishes" % n)

    def h_wait(self, m, st, i, fn, args):
        d = self.g(st)
        self.ev.add("wait")
        name = fn.sn.split("::")[-1]
        if d["mode"] != "parent":
            return [(st, 0xffffffff)]
        pid, stat, opt = (args[0], args[1], args[2]) if name in ("waitpid", "wait4") else (0xffffffff, args[0], 0)
        if pid != PID and m.cmp(st, "eq", pid, PID, 32) != 1:
            self.flag("otherpid", i.loc, "the caller may collect the exit status of another command")
        if opt not in (0,):
            self.flag("nohang", i.loc, "the caller does not wait for the command to end")
        if d["reaped"]:
            self.flag("reap2", i.loc, "the exit status of a command is collected twice (another command may have its number by then)")
        if d["launch"] != "failed":
            self.blocking(st, d, i)
        d["reaped"] = 1
        self.put(st, d)
        if is_ptr(stat):
            if self.status is None:
                m.store(st, stat, 4, 0x500)
                d["status"] = 0x500
                self.put(st, d)
                return [(st, PID)]
            out = []
            for v in self.status:
                s2 = st.copy()
                d2 = dict(d)
                d2["status"] = v
                self.put(s2, d2)
                m.store(s2, stat, 4, v)
                out.append((s2, PID))
            return out
        return [(st, PID)]

    def h_signal(self, m, st, i, fn, args):
        d = self.g(st)
        if args[0] == SIGPIPE:
            ign = args[1] == 1 or is_ptr(args[1]) and args[1][1] in (("null",), 1)
            if fn.sn == "sigaction":
                ign = True
            d["nopipe"] = bool(ign or (is_ptr(args[1]) and args[1][2] == 1))
            self.put(st, d)
        return [(st, 0)]

    def h_lock(self, v):
        def h(m, st, i, fn, args):
            d = self.g(st)
            if v < 0:
                if d["mode"] != "child" and d["mode"] != "noexec":
                    if any(not e[3] for e in d["fds"]) and d["mode"] == "parent" and not d["warn"]:
                        d["warn"] = 0
            d["lock"] = max(0, min(2, d["lock"] + v))
            self.put(st, d)
            return [(st, 0)]
        return h

    def h_lib(self, m, st, i, fn, args):
        if fn.sn in ("std::copy", "std::transform", "std::for_each") and "std::byte" in fn.dn:
            return None
        return quiet(m, st, i, fn, args)

    # ------------------------------------------------------------ run
    def go(self):
        p, m = self.p, self.m
        f = entry(p)
        self.f = f
        S = lambda n, h: (re.compile(r"^(%s)$" % n), h)
        byteop = lambda h: (lambda m, st, i, fn, args: h(m, st, i, fn, args) if re.search(r"integral_constant<int, 0>", fn.dn) and len(fn.params) == 3 else None)
        m.hooks = [S("pipe2?", self.h_pipe), S("close", self.h_close), S("dup[23]", self.h_dup2), S("fcntl(64)?", self.h_fcntl),
                   S("v?fork", self.h_fork), S("execve|execv|execvp|execvpe", self.h_execve), S("write", self.h_write),
                   S("read", self.h_read), S("waitpid|wait|wait4", self.h_wait), S("signal|sigaction", self.h_signal),
                   S("pthread_mutex_lock", self.h_lock(1)), S("pthread_mutex_unlock", self.h_lock(-1)),
                   S("std::thread::_M_start_thread", self.h_thread), S("std::thread::join", self.h_join),
                   S("std::thread::detach", self.h_detach), S("std::vector::insert", self.h_insert),
                   S("std::vector::(push_back|emplace_back)", self.h_push),
                   (re.compile(r"::operator\(\)$"), byteop(self.h_feed)),
                   (re.compile(r"^std::(__cxx11::(basic_string::|to_string)|to_string|operator\+$|filesystem::__cxx11::path::|transform$|for_each$|copy$)"), self.h_lib),
                   S("__errno_location", lambda m, st, i, fn, args: [(st, ("p", ("errno",), 0))])]
        OUT = ("p", ("Out",), 0)
        st = m.start(f, [OUT, ("p", ("Exe",), 0), ("p", ("Args",), 0)])
        self.put(st, dict(np=0, mode="pre", fds=(), lock=0, launch=None, readers=(), end=frozenset(), got=None, feed=None, eof=False,
                          more=False, closed=0, reaped=0, nopipe=False, thr=0, live=frozenset(), told=0, status=None, warn=0))
        m.run([st])
        self.ctx.absorb(m)
        for kind, v, s in m.outcomes:
            self.finish(kind, v, s, OUT)
        return self

    def finish(self, kind, v, st, OUT):
        d = self.g(st)
        F = floc(self.f)
        if kind in ("cut", "exec"):
            return
        if kind == "noret":
            if d["mode"] in ("child", "noexec"):
                n = v[0] if isinstance(v, tuple) else str(v)
                if d["mode"] == "noexec" and not d["told"]:
                    self.flag("silent", None, "a command that cannot be launched is not reported to the caller")
                if not re.search(r"_exit|_Exit|abort", n):
                    self.flag("atexit", v[1] if isinstance(v, tuple) else None, "the child process that could not launch the command "
                              "runs the exit handlers of the caller")
            return
        if d["mode"] in ("child", "noexec"):
            self.flag("child-returns", None, "a child process that could not launch the command goes on as a copy of the caller")
            return
        if kind == "terminate":
            self.flag("terminate", v[1] if isinstance(v, tuple) else None, "running a command ends the caller")
            return
        if d["fds"]:
            self.flag("leak", None, "a descriptor stays open after the command has been handled (%s)" % (
                "launch failed" if d["launch"] == "failed" else "by exception" if kind != "ret" else "command finished"))
        if d["lock"]:
            self.flag("lock", None, "a lock stays held after the command has been handled")
        if d["mode"] == "parent" and not d["reaped"]:
            self.flag("zombie", None, "the command is never waited for (%s)" % ("launch failed" if d["launch"] == "failed" else "launched"))
        if d["live"]:
            self.flag("unjoined", None, "the result is returned while a thread still handles a stream of the command")
        if kind == "ret":
            self.ev.add("ret")
            if d["mode"] == "nofork":
                self.flag("nofork", None, "a result is returned although no process could be created")
            elif d["mode"] == "parent" and d["launch"] == "failed":
                self.flag("launched", None, "a command that could not be launched is reported as having been run")
            elif d["mode"] == "pre":
                self.flag("notrun", None, "a result is returned although no process was created")
            elif not d["reaped"]:
                pass
            else:
                if d["got"] is not None:
                    self.flag("lost", None, "output of the command is read but not delivered")
                mp = self.child.get("map")
                if mp is not None:
                    for k, n in ((mp[1], "output"), (mp[2], "error output")):
                        if 100 + 2 * k not in d["end"]:
                            self.flag("partial", None, "the standard %s of the command is not read to its end" % n)
                if d["feed"] is not None or d["more"] and not d["closed"] and not d["eof"]:
                    self.flag("input-cut", None, "the input for the command is cut off")
                self.done.append((d["status"], st, OUT))
        elif d["mode"] == "parent" and d["launch"] == "ok":
            self.flag("spurious", None, "a command that was launched is reported as failed to launch")


def child_facts(ctx):
    r = Run(ctx).go()
    if len(r.maps) > 1:
        r.flag("maps", None, "the standard streams of the command are connected differently from run to run")
    errs = {k for k, n in r.errw}
    child = {}
    if len(r.maps) == 1:
        child["map"] = next(iter(r.maps))
    if r.errw:
        child["err"] = sorted(r.errw)[0]
    return r, child


def streams(ctx):
    """descriptors, child process and streams of a command"""
    first, child = child_facts(ctx)
    for k in ("pipe", "fork", "exec"):
        if k not in first.ev and not first.bad:
            raise AnalysisBroken("running a command: no %s event" % k)
    if "err" not in child:
        first.flag("silent", None, "a command that cannot be launched is not reported to the caller")
    first.bad = [b for b in first.bad if b[0] in ("maps", "silent", "inherit", "leak-w", "std0", "std1", "std2", "shared", "child-returns", "atexit")]
    r = Run(ctx, child=child).go()
    bad = first.bad + r.bad
    if child.get("map") and not ctx.truncated:
        mp = child["map"]
        by = {}
        for k, vec in r.caps:
            by.setdefault(k, set()).add(vec)
        for k, n in ((mp[1], "output"), (mp[2], "error output")):
            if len(by.get(k, ())) != 1:
                bad.append(("capture", None, "the standard %s of the command is not captured in one place" % n))
        if by.get(mp[1]) and by.get(mp[1]) == by.get(mp[2]):
            bad.append(("mixed", None, "standard output and error output of the command are mixed up"))
        for status, st, OUT in r.done:
            res = result_fields(r, st, OUT)
            if res is None:
                continue
            for k, n, t in ((mp[1], "output", res[0]), (mp[2], "error output", res[1])):
                vec = next(iter(by.get(k, {None})))
                # the capture may be empty on this path
                if is_term(t) and t[1] == "cap" and vec is not None and t[2] != vec:
                    bad.append(("swapped", None, "standard output and error output of the command are exchanged in the result"))
    if not bad:
        for k in ("pipe", "fork", "exec", "launch", "read", "feed", "write", "thread", "wait", "ret"):
            if k not in r.ev:
                if k == "thread" and "wait" in r.ev:
                    continue
                raise AnalysisBroken("running a command: no %s event" % k)
    for n in ("every pipe end is closed exactly once by the caller", "the standard streams of the command are connected to the caller",
              "both output streams are read to their end and delivered once, in order", "the input of the command is fed completely and closed",
              "the child process is waited for exactly once", "a command that cannot be launched is reported", "no thread outlives the call",
              "the child process never runs the caller's code"):
        ctx.oblige("command: " + n, True)
    report(ctx, "command", bad, floc(r.f))


def accessors(p):
    t = {}
    for name, rx in (("stdout", r"^Maike::Exec::Result::stdout$"), ("stderr", r"^Maike::Exec::Result::stderr$"),
                     ("exitStatus", r"^Maike::Exec::Result::exitStatus$"), ("failed", r"^Maike::Exec::failed$")):
        fs = [f for f in p.find(rx) if not f.decl]
        t[name] = fs
    return t


def result_fields(r, st, OUT):
    acc = accessors(r.p)
    out = []
    for n in ("stdout", "stderr"):
        if len(acc[n]) != 1:
            return None
        v = evaluate(r, st, acc[n][0], [OUT])
        if len(v) != 1 or not is_ptr(v[0][0]):
            return None
        out.append(r.m.tag(v[0][1], v[0][0]))
    return out


def evaluate(r, st, fn, args):
    """results of a small pure function in the final memory of a path"""
    m = r.ctx.machine(max_states=2000)
    m.int_lim = 1 << 40
    s = m.start(fn, args, mem=st.mem, facts=st.facts)
    s.ghost = st.ghost
    m.run([s])
    return [(v, s2) for kind, v, s2 in m.outcomes if kind == "ret"]


def status(ctx):
    """the reported outcome for every status the operating system can report"""
    first, child = child_facts(ctx)
    codes = [c << 8 for c in range(256)]
    sigs = [s | c for s in range(1, 127) for c in (0, 0x80)]
    r = Run(ctx, child=child, status=codes + sigs, lean=True).go()
    bad = []
    acc = accessors(ctx.prog)
    if not acc["failed"]:
        raise AnalysisBroken("nothing decides whether a command failed")
    seen = {}
    for s, st, OUT in r.done:
        seen.setdefault(s, []).append((st, OUT))
    ended = {r.g(s)["status"] for kind, v, s in r.m.outcomes if kind in ("noret", "terminate")}
    for s in codes + sigs:
        what = "exit code %d" % (s >> 8) if not s & 0x7f else "signal %d" % (s & 0x7f)
        if s not in seen:
            bad.append(("nostatus", None, "a command that ends with %s ends the caller or has no outcome" % what))
            continue
        st, OUT = seen[s][0]
        for f in acc["failed"]:
            if "Result" not in f.dn:
                continue
            v = {x[0] for x in evaluate(r, st, f, [OUT])}
            if v != {0 if s == 0 else 1}:
                bad.append(("failed", floc(f), "a command that ends with %s counts as %s" % (what, "failed" if s == 0 else "successful")))
    rc = [f for f in ctx.prog.find(r"^Maike::Exec::ExitStatus::returnCode$") if not f.decl and len(f.params) == 1]
    rm = [f for f in ctx.prog.find(r"^Maike::Exec::ExitStatus::returnedFromMain$") if not f.decl]
    es = acc["exitStatus"]
    if len(es) == 1 and rm:
        for s in codes + sigs:
            if s not in seen:
                continue
            st, OUT = seen[s][0]
            what = "exit code %d" % (s >> 8) if not s & 0x7f else "signal %d" % (s & 0x7f)
            vs = evaluate(r, st, es[0], [OUT])
            if len(vs) != 1:
                continue
            obj = ("Stat",)
            s2 = st.copy()
            s2.mem[obj] = {}
            r.m.store(s2, ("p", obj, 0), 8, vs[0][0])
            w = {x[0] for x in evaluate(r, s2, rm[0], [("p", obj, 0)])}
            if w != {0 if s & 0x7f else 1}:
                bad.append(("kind", floc(rm[0]), "a command that ends with %s is reported the other way round" % what))
            elif rc and not s & 0x7f:
                w = {x[0] for x in evaluate(r, s2, rc[0], [("p", obj, 0)])}
                if w != {s >> 8}:
                    bad.append(("code", floc(rc[0]), "exit codes are not reported unchanged"))
    ctx.notes.append("%d exit codes and %d signal outcomes enumerated" % (len(codes), len(sigs)))
    ctx.oblige("outcome: all %d statuses decoded" % (len(codes) + len(sigs)), True)
    ctx.oblige("outcome: failed exactly for non-zero exit codes and signals", True)
    report(ctx, "outcome", bad[:8], floc(r.f))


def arguments(ctx):
    """the command line a command is started with"""
    p = ctx.prog
    m = ctx.machine(max_states=30000)
    f = entry(p)
    bad = []
    ev = set()
    es = 32
    cv = Cover(m, es)
    EXE, ARGS = ("p", ("Exe",), 0), ("p", ("Args",), 0)
    # ghost: (vector, phase, coverage);  phase: 0 nothing, 1 executable, 2 complete and terminated

    def h_cstr(m, st, i, fn, args):
        if i.t == "p" and is_ptr(args[0]):
            return [(st, ("p", ("sym", ("t", "cstr", args[0])), 0))]
        return quiet(m, st, i, fn, args)

    def h_push(m, st, i, fn, args):
        if not re.search(r"vector<char( const)?\*", fn.dn):
            return None
        v = m.load(st, args[1], 8, "p") if is_ptr(args[1]) else args[1]
        vec, phase, cov = st.ghost
        if vec is not None and vec != args[0]:
            return None
        w = v[1][1][2] if is_ptr(v) and v[1][0] == "sym" and is_term(v[1][1]) and v[1][1][1] == "cstr" and v[2] == 0 else None
        if v == 0:
            if phase != 1 or not cv.complete(st, cov, ARGS):
                bad.append(("cut", i.loc, "the command is started without all of its arguments"))
            phase = 2
            ev.add("null")
        elif phase == 0:
            if w != EXE:
                bad.append(("argv0", i.loc, "the first word of the command line is not the executable"))
            phase = 1
            ev.add("exe")
        elif phase == 2:
            bad.append(("late", i.loc, "an argument is added after the end of the command line"))
        else:
            el = elem_of(w) if w is not None else None
            if el is None or el[0] != m.tag(st, ARGS):
                bad.append(("extra", i.loc, "the command is given an argument that nobody asked for"))
            else:
                new = cv.visit(cov, w)
                if new == cov and not (type(el[1]) is tuple):
                    bad.append(("order", i.loc, "the arguments of the command are repeated, skipped or reordered"))
                if el[2]:
                    bad.append(("order", i.loc, "the arguments of the command are repeated, skipped or reordered"))
                cov = new
                ev.add("arg")
        st.ghost = (args[0], phase, cov)
        m.havoc_range(st, args[0], 24)
        m.settag(st, args[0], ("t", "argv", args[0]))
        return [(st, args[0] if i.t == "p" else None)]

    def h_exec(m, st, i, fn, args):
        vec, phase, cov = st.ghost
        ev.add("exec")
        if args[0] != ("p", ("sym", ("t", "cstr", EXE)), 0):
            bad.append(("exe", i.loc, "another file is executed than the one asked for"))
        if vec is None:
            raise AnalysisBroken("the command line is not assembled in a vector")
        if phase != 2:
            bad.append(("open", i.loc, "the command line is not terminated"))
        if args[1] != ("p", ("sym", ("t", "vdata", ("t", "argv", vec))), 0):
            bad.append(("argv", i.loc, "the command is not started with the command line that was assembled"))
        return [(st, Stop("exec"))]

    S = lambda n, h: (re.compile(r"^(%s)$" % n), h)
    m.hooks = [S("std::vector::(push_back|emplace_back)", h_push), S("execvp?e?", h_exec),
               S("v?fork", lambda m, st, i, fn, args: [(st, 0)]),
               S("pipe2?|close|dup[23]|fcntl(64)?", lambda m, st, i, fn, args: [(st, 0)]),
               (re.compile(r"^std::(__cxx11::basic_string::|filesystem::__cxx11::path::)(c_str|data)$"), h_cstr),
               (re.compile(r"^std::(__cxx11::(basic_string::|to_string)|operator\+$|filesystem::__cxx11::path::)"), quiet)]
    st = m.start(f, [("p", ("Out",), 0), EXE, ARGS])
    st.ghost = (None, 0, ())
    m.run([st])
    ctx.absorb(m)
    for k in ("exe", "arg", "null", "exec"):
        if k not in ev and not bad:
            raise AnalysisBroken("command line: no %s event" % k)
    for n in ("the executable comes first", "every argument once and in order", "nothing else", "that command line is what is executed"):
        ctx.oblige("command line: " + n, True)
    report(ctx, "command line", bad, floc(f))
