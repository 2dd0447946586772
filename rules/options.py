"""The command line: which options there are, how they are recognised, and what their values become."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Stop, is_ptr
from engine.rule import floc
from .recipes import P
from .sources import G
from .tasks import report, THIS
from .words import Words, chars

DETAIL = "Maike::CmdLineParser::detail::"
# how an option is used: 'v' a value is required, 'o' it may be given, 'n' there is none
DOC = {"Help": ("--help", "o"), "Version": ("--version", "o"), "About": ("--about", "o"), "PrintDepGraph": ("--print-dep-graph", "o"), "PrintDepGraphInv": ("--print-dep-graph-inv", "o"),
       "DumpDatabase": ("--dump-database", "o"), "ListTargets": ("--list-targets", "o"), "ListExternalDeps": ("--list-external-deps", "o"), "Targets": ("--targets", "v"),
       "ConfigFiles": ("--configfiles", "v"), "ConfigDump": ("--configdump", "o"), "ConfigDefault": ("--config-default", "n"), "SourceDir": ("--source-dir", "v"), "TargetDir": ("--target-dir", "v"),
       "BuildId": ("--build-id", "v"), "StartTime": ("--start-time", "v"), "NumWorkers": ("--num-workers", "v"), "DryRun": ("--dry-run", "n"), "ForceRebuild": ("--force-rebuild", "n"),
       "LogLevel": ("--log-level", "v"), "LogOutputFormat": ("--log-output-format", "v")}
NOTHING = lambda m, st, i, fn, args: [(st, None)]


def machine(ctx, hooks):
    m = ctx.machine(max_states=20000)
    m.int_lim, m.count_lim, m.off_lim = 1 << 20, 10000, 10000
    m.hooks = hooks
    return m


def table(p):
    """the converters, by name of the option, as in the table the program uses"""
    g = [(n, x) for n, x in p.globals.items() if "BasicCommandLine" in n and "s_option_names" in n and x.get("c")]
    if len(g) != 1:
        raise AnalysisBroken("the table of options vanished")
    name, x = g[0]
    size = max(off for off, _, _ in x["c"]) + 8
    return name, size, [(off, v[1]) for off, _, v in x["c"] if off % 16 == 8]


def recognised(ctx):
    """an argument is an option with its documented name, or an error; its converter gets what comes after the first ="""
    p = ctx.prog
    f = p.one("^%scollect_options$" % DETAIL)
    tname, tsize, convs = table(p)
    enum = p.enum("Maike::CmdLineOption")
    bad = []
    # which option a converter is for
    of = {}
    for off, c in convs:
        mm = re.search(r"GetOptionNames<Maike::CmdLineOption, Maike::CmdLineOptionTraits, (\d+)>", p.funcs[c].dn)
        if not mm:
            raise AnalysisBroken("a converter of an option is unknown")
        of[c] = int(mm.group(1)) - 1
    names = {DOC[n][0].encode(): v for n, v in enum.items() if n in DOC}
    if set(enum) - set(DOC):
        raise AnalysisBroken("an option is not documented: %s" % sorted(set(enum) - set(DOC)))
    tests = []
    for nm, v in sorted(names.items()):
        tests += [([nm], [(v, b"")]), ([nm + b"=val"], [(v, b"val")]), ([nm + b"="], [(v, b"")]), ([nm + b"=a=b"], [(v, b"a=b")])]
        tests += [([nm[:k]], None) for k in range(1, len(nm)) if nm[:k] not in names]
        tests += [([nm + b"x"], None), ([nm + b"-"], None), ([nm[:-1] + b"=val"], None), ([nm[1:]], None), ([nm.upper()], None)]
    a, b = b"--dry-run", b"--target-dir=x"
    A, B = names[a], names[b"--target-dir"]
    tests += [([], []), ([b"-"], None), ([b"--"], None), ([b"x"], None), ([b"=x"], None), ([b"-=x"], None), ([b"--unknown"], None), ([a, b], [(A, b""), (B, b"x")]), ([b, a], [(B, b"x"), (A, b"")]), ([a, b"x"], None),
              ([b"x", a], None), ([b, b"--target-dir=y"], [(B, b"x"), (B, b"y")]), ([a, b, b"--num-workers=3"], [(A, b""), (B, b"x"), (names[b"--num-workers"], b"3")])]
    n = 0
    for argv, want in tests:
        g = G(strs=(), got=())

        def h_conv(m, st, i, fn, args):
            v = m.cstr(st, args[1])
            if fn.name not in of or v is None:
                raise AnalysisBroken("what an option is converted from is unknown")
            if args[0] != P("Tuple"):
                bad.append(("dest", i.loc, "the value of an option is lost"))
            g.put(st, got=g.get(st, "got") + ((of[fn.name], v),))
            return [(st, 1 << of[fn.name])]
        m = machine(ctx, [(re.compile(r"GetOptionNames::setItem::.*::__invoke$"), h_conv)] + Words(g).hooks())
        st = m.start(f, [("p", ("Argv",), 0), ("p", ("Argv",), 8 * len(argv)), ("p", ("g", tname), 0), ("p", ("g", tname), tsize), P("Tuple")],
                     ghost=g.init, mem={("Argv",): {}, ("Tuple",): {"hv": True}})
        for k, t in enumerate(argv):
            m.store(st, ("p", ("Argv",), 8 * k), 8, chars(m, st, "arg%d" % k, t))
        m.run([st])
        ctx.absorb(m)
        if not m.outcomes:
            raise AnalysisBroken("the command line could not be followed")
        n += 1
        rets = [(v, s) for k, v, s in m.outcomes if k == "ret"]
        if want is None:
            if rets:
                x = g.get(rets[0][1], "got")
                bad.append(("accepted", floc(f), "an argument that is not an option is taken for one" if x else "an argument that is not an option is ignored"))
        elif not rets:
            bad.append(("refused", floc(f), "a documented option is not recognised"))
        else:
            for v, s in rets:
                got = g.get(s, "got")
                if [x for x, _ in got] != [x for x, _ in want]:
                    bad.append(("other", floc(f), "an option is taken for another one"))
                elif list(got) != want:
                    bad.append(("value", floc(f), "the value of an option is not what comes after the equals sign"))
                if v != sum(1 << x for x in {x for x, _ in want}):
                    bad.append(("bits", floc(f), "which options were given is not known"))
    ctx.need("arguments", n, 300)
    for x in ("documented names", "nothing else", "value", "several"):
        ctx.oblige("options: " + x, True)
    report(ctx, "options", bad, "core/cmd_line_parser/command_line.cpp")


def stored(ctx):
    """each option has its own value and its own mark; required values are required; flags take none"""
    p = ctx.prog
    _, _, convs = table(p)
    enum = p.enum("Maike::CmdLineOption")
    ctor = p.one(r"^Maike::CmdLineParser::BasicCommandLine::BasicCommandLine$", lambda f: len(f.params) == 3)
    size = next((t["size"] for n, t in p.types.items() if n.startswith("Maike::CmdLineParser::BasicCommandLine<")), None)
    bad = []
    n = 0
    num = lambda f: int(re.search(r"\(Maike::CmdLineOption\)(\d+)>\(\)", f.dn).group(1))
    has = {num(f): f for f in p.find("BasicCommandLine::hasOption$")}
    opt = {num(f): f for f in p.find("BasicCommandLine::option$")}
    # the constructor: where the values are, and where the marks are
    base = []

    def built(bits, argc=3):
        def h_collect(m, st, i, fn, args):
            if not is_ptr(args[4]) or args[4][1] != ("This",):
                raise AnalysisBroken("where the values of options are kept is unknown")
            base.append(args[4][2])
            k = (args[1][2] - args[0][2]) if is_ptr(args[0]) and is_ptr(args[1]) and args[0][1] == args[1][1] == ("Argv",) else None
            if k != 8 * argc or args[0][2] != 0:
                bad.append(("args", i.loc, "not all arguments are looked at"))
            return [(st, bits)]
        m = machine(ctx, [(re.compile("^%scollect_options$" % DETAIL), h_collect), (re.compile(r"MakeTupleFromEnum::~?MakeTupleFromEnum$"), NOTHING)])
        st = m.start(ctor, [THIS, argc, P("Argv")], mem={("This",): {"hv": True}, ("Argv",): {"hv": True}})
        m.run([st])
        ctx.absorb(m)
        return [s.mem[("This",)] for k, v, s in m.outcomes if k == "ret"]
    for e in sorted(enum.values()):
        mems = built(1 << e)
        if not mems or not base:
            raise AnalysisBroken("the command line cannot be made")
        for mem in mems:
            for k, f in has.items():
                m = machine(ctx, [])
                m.run([m.start(f, [THIS], mem={("This",): dict(mem)})])
                ctx.absorb(m)
                n += 1
                vs = {v for kd, v, s in m.outcomes}
                if not all(isinstance(v, int) for v in vs):
                    raise AnalysisBroken("whether an option was given is unknown")
                if vs != {int(k == e)}:
                    bad.append(("has", floc(f), "an option that was given is not seen" if k == e else "an option is taken as given although it was not"))
    where = {}
    for e, f in opt.items():
        m = machine(ctx, [])
        m.run([m.start(f, [THIS], mem={("This",): {"hv": True}})])
        ctx.absorb(m)
        vs = {v for kd, v, s in m.outcomes}
        if len(vs) != 1 or not is_ptr(list(vs)[0]):
            raise AnalysisBroken("where the value of an option is kept is unknown")
        where[e] = list(vs)[0][2] - base[0]
    byname = {v: k for k, v in enum.items()}
    for off, c in convs:
        f = p.funcs[c]
        e = int(re.search(r"CmdLineOptionTraits, (\d+)>", f.dn).group(1)) - 1
        kind = DOC[byname[e]][1] if byname.get(e) in DOC else None
        if kind is None:
            continue
        for text in (b"", b"val"):
            g = G(strs=(), got=0, dest=())
            W = Words(g)

            def h_from(m, st, i, fn, args):
                if "integral_constant" in fn.dn:
                    return None
                q = args[-1]
                if m.cstr(st, q) != text:
                    bad.append(("text", i.loc, "the value of an option is not made of what was given for it"))
                g.put(st, got=1)
                sret = bool(fn.params) and fn.params[0].startswith("pr")
                if sret:
                    sz = int(fn.params[0][2:] or 8)
                    m.havoc_range(st, args[0], sz)
                    m.settag(st, args[0], ("t", "parsed"))
                    return [(st, None)]
                return [(st, ("t", "parsed"))]

            def h_assign(m, st, i, fn, args):
                q = args[0]
                if is_ptr(q) and q[1] == ("Tuple",):
                    g.put(st, dest=g.get(st, "dest") + (q[2],))
                    if m.tag(st, args[1]) != ("t", "parsed"):
                        bad.append(("kept", i.loc, "the value of an option is not kept"))
                return [(st, q)]
            words = [h for h in W.hooks() if "path" not in h[0].pattern]
            m = machine(ctx, [(re.compile(r"::fromString$"), h_from), (re.compile(r"(path|vector)::operator=$"), h_assign), (re.compile(r"(path|vector)::~"), NOTHING)] + words)
            st = m.start(f, [P("Tuple"), P("Text")], ghost=g.init, mem={("Tuple",): {}, ("Text",): {}}, roots=[P("Text")])
            chars(m, st, "Text", text)
            for o in range(0, 1024, 4):
                m.store(st, ("p", ("Tuple",), o), 4, 77)
            m.run([st])
            ctx.absorb(m)
            n += 1
            rets = [(v, s) for k, v, s in m.outcomes if k == "ret"]
            if not m.outcomes:
                raise AnalysisBroken("how an option is converted could not be followed")
            ok = not (kind == "v" and not text or kind == "n" and text)
            if ok != bool(rets):
                bad.append(("required" if kind == "v" else "flag", floc(f), {"v": "an option that needs a value is accepted without one", "n": "a value is accepted for an option that has none"}.get(kind, "") if not ok else "an option is refused"))
            for v, s in rets:
                if v != 1 << e:
                    bad.append(("mark", floc(f), "an option marks another one as given"))
                if kind == "n":
                    continue
                # what was 77 all over is no longer so where the value went
                d = set(g.get(s, "dest"))
                for o in range(0, 1024, 4):
                    if (s.mem.get(("Tuple",)) or {}).get(o) != (4, 77):
                        d.add(o)
                if not g.get(s, "got"):
                    bad.append(("parsed", floc(f), "the value of an option is ignored"))
                elif e in where and (not d or min(d) != where[e]):
                    bad.append(("place", floc(f), "the value of an option is kept where that of another is, or not at all"))
    ctx.need("options and their marks", n, 400)
    for x in ("marks", "places", "required values", "flags"):
        ctx.oblige("options: " + x, True)
    report(ctx, "options", bad, "core/cmd_line_parser/command_line.hpp")


def run_on(ctx, f, args, text, hooks=(), g=None, ret=None, extra=None):
    """the outcomes of a function given a constant text"""
    g = g or G(strs=())
    errno = [(re.compile("^__errno_location$"), lambda m, st, i, fn, args: [(st, P("errno"))])]
    m = machine(ctx, list(hooks) + errno + Words(g).hooks())
    mem = {("This",): {}, ("Ret",): {}, ("Text",): {}, ("errno",): {}}
    st = m.start(f, args, ghost=g.init, mem=mem, roots=[P("Text"), P("This"), P("Ret"), P("errno")])
    m.store(st, P("errno"), 4, 0)
    chars(m, st, "Text", text)
    if extra:
        extra(m, st)
    m.run([st])
    ctx.absorb(m)
    if not m.outcomes:
        raise AnalysisBroken("%s could not be followed" % f.sn)
    return m, m.outcomes


def split_list(text):
    """the items of a list: separated by commas, a backslash takes the next character as it is"""
    out, cur, k = [], b"", 0
    while k < len(text):
        c = text[k:k + 1]
        if c == b"\\" and k + 1 < len(text):
            cur += text[k + 1:k + 2]
            k += 1
        elif c == b",":
            out.append(cur)
            cur = b""
        else:
            cur += c
        k += 1
    return out + [cur]


def lists(ctx):
    """a list of paths: its items are separated by commas, and a backslash takes the next character as it is"""
    p = ctx.prog
    f = p.one("^Maike::CmdLineParser::fromString$", lambda f: f.dn.startswith("std::vector<std::filesystem"))
    bad = []
    texts = [b""]
    for k in range(1, 6):
        texts += [t + c for t in texts if len(t) == k - 1 for c in (b"a", b",", b"\\")]
    texts += [b"foo/x,bar/kaka", b"a b,c\\,d", b"x=y,\\\\,z"]
    n = 0
    for t in texts:
        # an empty item at the end is as good as none, and a single backslash there may mean itself or nothing
        if re.search(rb"(^|[^\\])(\\\\)*\\$", t):
            continue
        want = split_list(t)
        alts = [want] + ([want[:-1]] if want[-1] == b"" else [])
        g = G(strs=(), items=())

        def h_push(m, st, i, fn, args):
            if args[0] != P("Ret"):
                raise AnalysisBroken("an unknown list is added to")
            v = W.get(st, args[1])
            if v is None:
                raise AnalysisBroken("an item of a list is unknown")
            g.put(st, items=g.get(st, "items") + (v,))
            return [(st, args[1])]
        W = Words(g)
        _, outs = run_on(ctx, f, [P("Ret"), P("Text")], t, [(re.compile(r"^std::vector::(push_back|emplace_back)$"), h_push), (re.compile(r"^std::vector::~?vector$"), NOTHING)], g)
        n += 1
        for k, v, s in outs:
            if k != "ret":
                bad.append(("list", floc(f), "a list of values is refused"))
            elif list(g.get(s, "items")) not in alts:
                bad.append(("list", floc(f), "a list of values is split in the wrong places"))
    ctx.need("lists", n, 200)
    ctx.oblige("options: lists", True)
    report(ctx, "lists", bad, "core/cmd_line_parser/command_line.cpp")


def signed(v, bits):
    return v - (1 << bits) if isinstance(v, int) and v >> (bits - 1) & 1 else v


def numbers(ctx):
    """thread counts, times, and build ids: what is written is what is used, anything else is an error"""
    p = ctx.prog
    bad = []
    n = 0
    f = p.one("^Maike::fromString$", lambda f: "ThreadCount" in f.dn)
    for t, want in [(b"auto", -1), (b"1", 1), (b"2", 2), (b"7", 7), (b"10", 10), (b"64", 64), (b"128", 128), (b"1000", 1000), (b"2147483647", 2147483647), (b"0", None), (b"00", None), (b"-1", None), (b"-4", None), (b"x", None),
                    (b"4x", None), (b"x4", None), (b"1.5", None), (b"2 3", None), (b"1,2", None), (b"3-", None), (b"autox", None), (b"aut", None), (b"Auto", None), (b"99999999999", None), (b"4294967297", None),
                    (b"2147483648", None), (b"4294967296", None), (b"99999999999999999999999", None), (b"-99999999999999999999999", None), (b"-4294967295", None), (b"18446744073709551617", None)]:
        _, outs = run_on(ctx, f, [P("Text")], t)
        n += 1
        for k, v, s in outs:
            if k == "ret" and want is None:
                bad.append(("threads", floc(f), "something that is not a number of threads is taken for one"))
            elif (k == "ret") != (want is not None):
                bad.append(("threads", floc(f), "a number of threads is refused"))
            elif want is not None and signed(v, 32) != want:
                bad.append(("threads", floc(f), "another number of threads is used than was asked for"))
    f = p.one("^Maike::fromString$", lambda f: "SystemTimeStamp" in f.dn)
    for t, want in [(b"0", 0), (b"1", 1), (b"1636713432", 1636713432), (b"-1", -1), (b"4294967296", 1 << 32), (b"5000000000", 5000000000), (b"9000000000", 9000000000), (b"x", None), (b"12x", None), (b"1 2", None), (b"1.5", None),
                    (b"99999999999999999999", None), (b"-99999999999999999999", None), (b"-", None)]:
        _, outs = run_on(ctx, f, [P("Text")], t)
        n += 1
        for k, v, s in outs:
            if k == "ret" and want is None:
                bad.append(("time", floc(f), "something that is not a time is taken for one"))
            elif (k == "ret") != (want is not None):
                bad.append(("time", floc(f), "a time is refused"))
            elif want is not None and signed(v, 64) != want * 1000000000:
                bad.append(("time", floc(f), "another time is used than was asked for"))
    f = p.one("^Maike::Build::fromString$")
    good = [b"0123456789abcdefABCDEF9876543210fedcbaFEDCBA00ff11ee22dd33cc44bb", b"0" * 64, b"f" * 64, b"1032547698badcfeEFCDAB8967452301" * 2]
    junk = [g[:k] + c + g[k + 1:] for g in good[:1] for k in (0, 1, 2, 31, 62, 63) for c in (b"g", b"G", b" ", b"-", b"x", b"/", b":", b"@", b"`", b"\xc1", b"\x10", b"\x19", b"\xe1", b"!")]
    junk += [good[0][:k] for k in (1, 2, 32, 62, 63)] + [good[0] + b"0", good[0] + b"00", good[0] + b"x"]
    for t in good + junk:
        m, outs = run_on(ctx, f, [P("Ret"), P("Text")], t)
        n += 1
        ok = t in good
        for k, v, s in outs:
            if k == "ret" and not ok:
                bad.append(("id" if len(t) == 64 else "length", floc(f), "something that is not a build id is taken for one"))
            elif (k == "ret") != ok:
                bad.append(("id", floc(f), "a build id is refused"))
            elif ok and [m.load(s, ("p", ("Ret",), j), 1, "i8") for j in range(32)] != list(bytes.fromhex(t.decode())):
                bad.append(("id", floc(f), "another build id is used than was given"))
    f = p.one(r"^Maike::Build::toString(\[abi:cxx11\])?$")
    ids = [bytes((32 * j + k) & 255 for k in range(32)) for j in range(8)]
    for b in ids:
        g = G(strs=())
        W = Words(g)

        def fill(m, st):
            for j, c in enumerate(b):
                m.store(st, ("p", ("This",), j), 1, c)
        _, outs = run_on(ctx, f, [P("Ret"), THIS], b"", (), g, extra=fill)
        n += 1
        for k, v, s in outs:
            if k != "ret" or W.get(s, P("Ret")) != b.hex().encode():
                bad.append(("id", floc(f), "a build id is printed as another one"))
    ctx.need("numbers", n, 130)
    for x in ("thread counts", "times", "build ids"):
        ctx.oblige("options: " + x, True)
    report(ctx, "numbers", bad, "core/build/id.cpp")


NAMES = [("LogLevel", "Maike::Db::CompilationLog::LogLevel", "Maike::Db::", {"Errors": "errors", "SourceFileInfo": "source_file_info", "CompilationCommand": "compilation_command"}),
         ("LogFormat", "Maike::Db::LogFormat", "Maike::Db::", {"PlainText": "plain_text", "AnsiTerm": "ansi_term"}),
         ("RebuildPolicy", "Maike::Db::RebuildPolicy", "Maike::Db::", {"Always": "always", "OnlyIfOutOfDate": "only_if_out_of_date"}),
         ("SourceFileOrigin", "Maike::Db::SourceFileOrigin", "Maike::Db::", {"Project": "project", "System": "system", "PkgConfig": "pkg-config", "Generated": "generated"}),
         ("FilenameExtReplacementMode", "Generic::FilenameExtReplacementMode", "Generic::", {"Append": "append", "Replace": "replace"})]


def named(ctx):
    """values with names: each name stands for its own value, in both directions, and other names are errors"""
    p = ctx.prog
    bad = []
    n = 0
    for short, full, ns, names in NAMES:
        enum = p.enum(full)
        if enum is None or set(enum) != set(names):
            raise AnalysisBroken("the values of %s are not the documented ones" % short)
        f = p.one("^%sfromString$" % ns, lambda f: short in f.dn)
        t = p.one("^%stoString$" % ns, lambda f: short in f.dn)
        tests = [(s.encode(), enum[k]) for k, s in names.items()]
        tests += [(x, None) for k, s in names.items() for x in (b"", s.encode()[:-1], s.encode() + b"x", s.encode().upper(), s.encode()[1:], b" " + s.encode(), s.encode().replace(b"_", b"-") + (b"" if b"_" in s.encode() else b"?"))]
        for text, want in tests:
            _, outs = run_on(ctx, f, [P("Text")], text)
            n += 1
            for k, v, s in outs:
                if k == "ret" and want is None:
                    bad.append((short, floc(f), "a name that stands for nothing is accepted"))
                elif (k == "ret") != (want is not None):
                    bad.append((short, floc(f), "a documented name is refused"))
                elif want is not None and v != want:
                    bad.append((short, floc(f), "a name stands for another value"))
        for k0, s0 in names.items():
            m, outs = run_on(ctx, t, [enum[k0]], b"")
            n += 1
            for k, v, s in outs:
                if k != "ret" or m.cstr(s, v) != s0.encode():
                    bad.append((short, floc(t), "a value is printed under another name"))
    ctx.need("names", n, 100)
    ctx.oblige("options: names", True)
    report(ctx, "named", bad, "core/db/log_format.cpp")
