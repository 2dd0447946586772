"""What the program prints about its steps: the commands, and the log."""
import itertools
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Stop, is_ptr
from engine.rule import floc
from .recipes import P
from .sources import G
from .common import field
from .tasks import report, THIS
from .words import Words, chars

CLASSES = [bytes([c]) for c in b"a'\\\"$` \n\t*-#;&~=!"] + [b"\xc3", b"\x01"]


def shell_words(text):
    """what a POSIX shell makes of a line: its words, or None if it is more, or less, than one simple command of literal words"""
    out, cur, k, q = [], None, 0, None
    while k < len(text):
        c = text[k:k + 1]
        if q == b"'":
            if c == b"'":
                q = None
            else:
                cur += c
        elif q == b'"':
            if c == b'"':
                q = None
            elif c in b"$`!":
                return None
            elif c == b"\\" and text[k + 1:k + 2] and text[k + 1:k + 2] in b"$`\"\\\n":
                k += 1
                cur += text[k:k + 1].replace(b"\n", b"")
            else:
                cur += c
        elif c in b"'\"":
            q = c
            cur = cur or b""
        elif c == b"\\":
            k += 1
            if k == len(text):
                return None
            if text[k:k + 1] != b"\n":
                cur = (cur or b"") + text[k:k + 1]
        elif c in b" \t":
            if cur is not None:
                out.append(cur)
            cur = None
        elif c in b"\n;&|<>()$`*?[]{}!" or c in b"#~" and cur is None or c == b"=" and not out:
            return None
        else:
            cur = (cur or b"") + c
        k += 1
    if q:
        return None
    return out + ([cur] if cur is not None else [])


def command(ctx):
    """toString(Command): a shell that is given the text runs the executable with exactly the arguments"""
    p = ctx.prog
    f = p.one(r"^Maike::Exec::toString$", lambda f: "Command const&" in f.dn)
    psz, ssz = p.types.get("std::filesystem::__cxx11::path", {}).get("size", 40), 32
    bad = []
    n = 0
    singles = [b"", b"a"] + CLASSES + [a + b for a, b in itertools.product(CLASSES, CLASSES)] + [b"'a'", b"a'b'c", b"''", b"'''", b"\\'\\", b"it's", b"a\\\\'"]
    tests = [(b"/bin/x", [s]) for s in singles] + [(s, []) for s in [b"/a b/c'd", b"/bin/x", b"~/x", b"-x"]] + \
        [(b"x", list(t)) for t in ([b"", b""], [b"a", b"b", b"c"], [b"a b", b"'", b"\\"], [b"$x", b"", b"\n"])]
    for exe, argv in tests:
        g = G(strs=((("Cmd",), 0), exe) and (((("Cmd",), 0), exe),) + tuple(((("Args",), ssz * k), a) for k, a in enumerate(argv)))
        m = ctx.machine(max_states=5000)
        m.int_lim, m.count_lim, m.off_lim = 1 << 20, 10000, 10000
        m.hooks = Words(g).hooks()
        st = m.start(f, [P("Ret"), P("Cmd")], ghost=g.init, mem={("Cmd",): {}, ("Args",): {"hv": True}, ("Ret",): {"hv": True}}, roots=[P("Args")])
        for off, v in ((psz, 0), (psz + 8, ssz * len(argv)), (psz + 16, ssz * len(argv))):
            m.store(st, ("p", ("Cmd",), off), 8, ("p", ("Args",), v))
        m.run([st])
        ctx.absorb(m)
        rets = [s for k, v, s in m.outcomes if k == "ret"]
        if not rets:
            raise AnalysisBroken("how a command is printed could not be followed")
        for s in rets:
            text = dict(g.get(s, "strs")).get((("Ret",), 0))
            if text is None:
                raise AnalysisBroken("what is printed for a command is unknown")
            got = shell_words(text)
            n += 1
            if got != [exe] + argv:
                what = "executable" if got is not None and got[:1] != [exe] else "arguments"
                bad.append(("words", floc(f), "a printed command is not the command that is run: a shell makes other %s of it" % what if got is not None else
                            "a printed command is not the command that is run: part of its text has a meaning of its own to a shell"))
    ctx.need("commands printed", n, len(tests))
    for x in ("executable", "arguments", "number of arguments"):
        ctx.oblige("printed command: " + x, True)
    report(ctx, "printed command", bad, "core/exec/command.cpp")


NOTHING = lambda m, st, i, fn, args: [(st, None)]


def log(ctx):
    """CompilationLog::write: what is printed for a step"""
    p = ctx.prog
    levels = p.enum("Maike::Db::CompilationLog::LogLevel")
    C, S, E = levels["CompilationCommand"], levels["SourceFileInfo"], levels["Errors"]
    fld = field(p, "Maike::Db::CompilationLog", lambda n, t: "LogLevel" in t or "log_level" in n, "level of the log")
    bad = []
    n = 0
    CMD, PATH, ID = b"<command>", b"<path>", b"<id>"
    DATA = [(b"", b""), (b"one\ntwo\n", b""), (b"x", b"y"), (b"", b"e1\ne2\n"), (b"a\0b\n", b""), (b"", b"c\0d"), (b"\n\nq", b"\xff")]
    for f in p.find(r"^Maike::Db::CompilationLog::write$"):
        full = len(f.params) == 3
        for level in (C, S, E):
            for failed in ((0, 1) if full else (0,)):
                for out, err in (DATA if full else DATA[:1]):
                    g = G(strs=(((("Path",), 0), PATH),), held=0, sect=0, seen=(), o=b"", e=b"")

                    def h_lock(m, st, i, fn, args):
                        k = 1 if fn.sn.endswith("::lock") else 0
                        g.put(st, held=k, sect=g.get(st, "sect") + k)
                        return [(st, None)]

                    def emit(m, st, loc, text, stream):
                        if text is None:
                            raise AnalysisBroken("what is printed for a step is unknown")
                        nm = "o" if "stdout" in repr(stream) else "e" if "stderr" in repr(stream) else None
                        if nm is None:
                            raise AnalysisBroken("where a step is logged is unknown")
                        if not g.get(st, "held"):
                            bad.append(("unlocked", loc, "the log of a step can be mixed with that of another"))
                        g.put(st, **{nm: g.get(st, nm) + text, "seen": tuple(sorted(set(g.get(st, "seen")) | {g.get(st, "sect")}))})
                        return [(st, 1)]
                    h_puts = lambda m, st, i, fn, args: emit(m, st, i.loc, m.cstr(st, args[0]), args[1])
                    h_putc = lambda m, st, i, fn, args: emit(m, st, i.loc, bytes([args[0] & 255]) if isinstance(args[0], int) else None, args[1])

                    def h_write(m, st, i, fn, args):
                        k = args[1] * args[2] if isinstance(args[1], int) and isinstance(args[2], int) else None
                        emit(m, st, i.loc, m.rdbytes(st, args[0], k) if k is not None else None, args[3])
                        return [(st, args[2])]

                    def h_print(m, st, i, fn, args):
                        fmt = m.cstr(st, args[1])
                        if fmt == b"%s":
                            return emit(m, st, i.loc, m.cstr(st, args[2]), args[0])
                        if fmt is not None and b"%" not in fmt:
                            return emit(m, st, i.loc, fmt, args[0])
                        raise AnalysisBroken("what is printed for a step is unknown")
                    W = Words(g, num=lambda v: ID if v == 4711 else b"0")
                    m = ctx.machine(max_states=20000)
                    m.int_lim, m.count_lim, m.off_lim = 1 << 20, 10000, 10000

                    def h_text(m, st, i, fn, args):
                        W.put(st, args[0], CMD)
                        return [(st, None)]
                    ret = lambda v: lambda m, st, i, fn, args: [(st, v)]
                    m.hooks = [(re.compile(r"^std::mutex::(lock|unlock)$"), h_lock), (re.compile(r"^(fputs|fputs_unlocked)$"), h_puts), (re.compile(r"^(fputc|putc|_IO_putc)$"), h_putc),
                               (re.compile(r"^fwrite(_unlocked)?$"), h_write), (re.compile(r"^fprintf$"), h_print), (re.compile(r"^fflush$"), ret(0)),
                               (re.compile(r"^Maike::Exec::toString$"), h_text), (re.compile(r"^Maike::Exec::Result::(~?Result)$"), NOTHING), (re.compile(r"^Maike::Exec::failed$"), ret(failed)),
                               (re.compile(r"ExitStatus::returnedFromMain$"), ret(1)), (re.compile(r"ExitStatus::returnCode$"), ret(3 * failed)),
                               (re.compile(r"^Maike::Exec::Result::stdout$"), ret(P("VOut"))), (re.compile(r"^Maike::Exec::Result::stderr$"), ret(P("VErr"))),
                               (re.compile(r"SourceFileRecordConst::path$"), ret(P("Path"))), (re.compile(r"SourceFileId::value$"), ret(4711))] + W.hooks()
                    st = m.start(f, [THIS, P("Task"), P("Result")][:len(f.params)], ghost=g.init, mem={("This",): {"hv": True}, ("Task",): {"hv": True}, ("VOut",): {}, ("VErr",): {}},
                                 roots=[P("VOut"), P("VErr"), P("Path")])
                    m.store(st, ("p", ("This",), fld), 4, level)
                    for v, d in (("VOut", out), ("VErr", err)):
                        b = chars(m, st, v + "Data", d)
                        for off, k in ((0, 0), (8, len(d)), (16, len(d))):
                            m.store(st, ("p", (v,), off), 8, ("p", b[1], k))
                    m.run([st])
                    ctx.absorb(m)
                    rets = [s for k, v, s in m.outcomes if k == "ret"]
                    if not rets:
                        raise AnalysisBroken("how a step is logged could not be followed")
                    for s in rets:
                        d = dict(zip(g.names, s.ghost))
                        o, e = d["o"], d["e"]
                        n += 1
                        if len(d["seen"]) > 1:
                            bad.append(("parts", floc(f), "the log of a step is written in parts, between which that of another may come"))
                        if d["held"]:
                            bad.append(("held", floc(f), "the log stays locked"))
                        head, sep, tail = o.partition(b"\n")
                        if level == E:
                            head, tail = b"", o
                        if level != E and (not sep or PATH not in head or ID not in head):
                            bad.append(("head", floc(f), "the log does not say for which step it is"))
                        if (level == C) != (CMD in head):
                            bad.append(("command", floc(f), "the command of a step is not logged where this was asked for" if level == C else "the command of a step is logged although this was not asked for"))
                        if level == C and not head.startswith(CMD + b" #"):
                            bad.append(("script", floc(f), "the commands of a build are not printed as a script"))
                        if full and level != E and (b"\xe2\x9c\x97" in head) != bool(failed):
                            bad.append(("mark", floc(f), "a failed step is logged as successful" if failed else "a successful step is logged as failed"))
                        want = out.split(b"\n")
                        have = tail.split(b"\n")
                        if full and not (not out and not tail.strip() or len(want) == len(have) and all(h.endswith(w) and not h[:len(h) - len(w)].strip(b" .>|") for h, w in zip(have, want))):
                            bad.append(("out", floc(f), "what a step wrote is not all in the log"))
                        if full and not (e.startswith(err) and not e[len(err):].strip()):
                            bad.append(("err", floc(f), "the error messages of a step are not all in the log"))
    ctx.need("steps logged", n, 40)
    for x in ("not mixed", "step", "command", "failed or not", "output", "error messages"):
        ctx.oblige("log: " + x, True)
    report(ctx, "log", bad, "core/db/compilation_log.cpp")
