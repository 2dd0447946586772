"""Structured input: how it is taken from its source, what is accepted, and how its values are looked at."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr
from engine.rule import floc
from .recipes import P
from .sources import G
from .tasks import report, THIS
from .streams import Run

KVS = "Maike::KeyValueStore::"
OBJECT, ARRAY, STRING, INTEGER, REAL = range(5)
NAMES = ("an object", "an array", "a string", "an integer", "a number", "true", "false", "null")
NOTHING = lambda m, st, i, fn, args: [(st, None)]


def fetch(ctx):
    """what the parser is given: the text of the source, in order, without anything left out; and whether there was any"""
    p = ctx.prog
    f = p.one(r"ReadHelper::fetch$", lambda f: len(f.params) == 3)
    ctor = p.one(r"ReadHelper::ReadHelper$", lambda f: len(f.params) == 2)
    has = p.one(r"ReadHelper::hasData$", lambda f: len(f.params) == 1)
    bad = []
    g = G(got=(), dry=0, end=0)
    CHARS = (ord("a"), ord("}"), ord("\n"), ord(" "), 0xc3, 0xff)

    def h_char(m, st, i, fn, args):
        out = []
        if g.get(st, "end"):
            bad.append(("after", i.loc, "the source is read again after its end, which blocks where it is a pipe"))
            return []
        if len(g.get(st, "got")) > 5:
            return []
        for c in CHARS:
            s = st.copy()
            g.put(s, got=g.get(s, "got") + (c,))
            out.append((s, c))
        g.put(st, end=1)
        out.append((st, 0xffffffff))
        return out
    hooks = [(re.compile(r"^Maike::Io::InputBuffer::getchar$"), h_char), (re.compile(r"^Maike::Io::(InputBuffer::~?InputBuffer|Reader::~?Reader)$"), NOTHING)]
    for sizes in ((1, 1, 1), (3, 2), (2, 0, 2)):
        r = Run(ctx, hooks, g, {("This",): {"hv": True}, ("Buf",): {"hv": True}})
        r.do(ctor, [THIS, P("Src")])
        for n in sizes:
            before = [(gh, res) for _, gh, res in r.states]
            r.states = [(mem, gh, (len(dict(zip(g.names, gh))["got"]), dict(zip(g.names, gh))["end"])) for mem, gh, res in r.states]
            r.do(f, [THIS, P("Buf"), n], op="f")
            nxt = []
            for mem, gh, (was, ended, k) in r.states:
                d = dict(zip(g.names, gh))
                new = d["got"][was:]
                if not isinstance(k, int):
                    raise AnalysisBroken("how much is fetched is unknown")
                if k > n:
                    bad.append(("overrun", floc(f), "more is fetched than the parser has room for"))
                elif k != len(new):
                    bad.append(("count", floc(f), "characters of structured input are lost on their way to the parser, or others are made up"))
                else:
                    for j in range(k):
                        c = mem[("Buf",)].get(j)
                        v = c[-1] if isinstance(c, tuple) else c
                        if isinstance(v, int) and v & 255 != new[j]:
                            bad.append(("order", floc(f), "characters of structured input reach the parser changed or in another order"))
                        elif not isinstance(v, int):
                            bad.append(("order", floc(f), "characters of structured input do not reach the parser"))
                if k == 0 and n > 0 and not d["end"]:
                    bad.append(("early", floc(f), "the parser sees the end of structured input before its end"))
                nxt.append((mem, gh, ()))
            r.states = nxt
            if bad:
                break
        if bad:
            break
        r.do(has, [THIS], op="h")
        for mem, gh, res in r.states:
            d = dict(zip(g.names, gh))
            v = res[-1]
            any_ = any(c not in (10, 32) for c in d["got"])
            if not isinstance(v, int):
                raise AnalysisBroken("whether there was input is unknown")
            if (v & 1) != int(any_):
                bad.append(("data", floc(has), "input is taken for empty although it is not" if any_ else "empty input is not recognised as empty"))
    for x in ("all of it, in order", "end", "empty or not"):
        ctx.oblige("structured input: " + x, True)
    report(ctx, "structured input", bad, "core/key_value_store/json_handle.cpp")


def load(ctx):
    """text that cannot be parsed is an error, unless there was none; duplicate keys are rejected; the parser reads through the helper"""
    p = ctx.prog
    f = p.one(r"^%sjsonLoad$" % KVS, lambda f: f.dn.startswith(KVS + "jsonLoad(Maike::Io::Reader"))
    bad = []
    REJECT, ANY = 1, 4
    n = 0
    for ok in (0, 1):
        for data in (0, 1):
            cb = []

            def h_load(m, st, i, fn, args):
                if not isinstance(args[2], int):
                    raise AnalysisBroken("how structured input is parsed is unknown")
                if not args[2] & REJECT:
                    bad.append(("duplicates", i.loc, "a key given twice is not an error"))
                cb.append((args[0], args[1], i.loc))
                return [(st, P("Json") if ok else 0)]
            m = ctx.machine(max_states=20000)
            m.hooks = [(re.compile(r"^json_load(_callback|s|b|f)$"), h_load), (re.compile(r"ReadHelper::~?ReadHelper$|Reader::~?Reader$|DecodeError::~?DecodeError$"), NOTHING),
                       (re.compile(r"ReadHelper::hasData$"), lambda m, st, i, fn, args: [(st, data)]), (re.compile(r"^json_decref$"), NOTHING)]
            m.run([m.start(f, [P("Ret"), P("Reader"), ("t", "len"), P("Name")], mem={("Ret",): {"hv": True}})])
            ctx.absorb(m)
            rets = [st for k, v, st in m.outcomes if k == "ret"]
            throws = [st for k, v, st in m.outcomes if k != "ret"]
            n += len(m.outcomes)
            if not ok and data and rets:
                bad.append(("accepted", floc(f), "input that cannot be parsed is accepted"))
            if not ok and not data and (throws or not rets):
                bad.append(("empty", floc(f), "empty input is an error"))
            if ok and not rets:
                bad.append(("rejected", floc(f), "input that was parsed is rejected"))
            for st in rets:
                v = m.load(st, P("Ret"), 8, "p", peek=True)
                if ok and v != P("Json"):
                    bad.append(("lost", floc(f), "what was parsed is not returned"))
                if not ok and v not in (0, ("p", ("null",), 0)):
                    bad.append(("made", floc(f), "a value is returned for input that was not parsed"))
            if not cb:
                raise AnalysisBroken("the parser is not called")
    ctx.need("ends of parsing", n, 4)
    # the function the parser reads with
    for g0 in p.find(r"jsonLoad::\$_\d+::__invoke$") or p.find(r"jsonLoad::.*__invoke$"):
        got = []

        def h_fetch(m, st, i, fn, args):
            got.append(tuple(args))
            return [(st, ("t", "fetched"))]
        m = ctx.machine(max_states=2000)
        m.hooks = [(re.compile(r"ReadHelper::fetch$"), h_fetch)]
        m.run([m.start(g0, [P("Buf"), ("t", "size"), P("Helper")])])
        ctx.absorb(m)
        if not got:
            raise AnalysisBroken("how the parser reads is unknown")
        if any(a != (P("Helper"), P("Buf"), ("t", "size")) for a in got):
            bad.append(("callback", floc(g0), "the parser is not given the text where it expects it"))
        if any(k != "ret" or v != ("t", "fetched") for k, v, st in m.outcomes):
            bad.append(("callback-count", floc(g0), "the parser is not told how much text it was given"))
    for x in ("errors", "empty input", "duplicate keys", "result"):
        ctx.oblige("parsing: " + x, True)
    report(ctx, "parsing", bad, "core/key_value_store/json_handle.cpp")


def typed(ctx):
    """a value is looked at as what it is, or there is an error"""
    p = ctx.prog
    bad = []
    n = 0
    want = {"json_string_value": STRING, "json_integer_value": INTEGER, "json_real_value": REAL}
    callers = {}
    for f in p.find(""):
        for b in f.blocks:
            for i in (b.insts if hasattr(b, "insts") else b):
                c = p.callee(i)
                if c and c.name in want:
                    callers.setdefault(f.name, (f, set()))[1].add(c.name)
    todo = [(f, [THIS], {("This",): {}}, None) for f, _ in callers.values()]
    for cls, t in (("Compound", OBJECT), ("Array", ARRAY)):
        f = p.one(r"^%s%sRefConst::%sRefConst$" % (KVS, cls, cls))
        todo.append((f, [THIS, P("Json"), P("Name")], {("This",): {"hv": True}}, t))
    for f, args, mem, need in todo:
        if len(f.params) != len(args):
            raise AnalysisBroken("how %s is called is unknown" % f.sn)
        fine = 0
        for t in range(8):
            read = []

            def h_value(m, st, i, fn, a):
                read.append((fn.sn, a[0], i.loc))
                if a[0] != P("Json"):
                    raise AnalysisBroken("which value is read is unknown")
                if want[fn.sn] != t:
                    bad.append(("type-" + fn.sn, i.loc, "a value that is %s is read as %s" % (NAMES[t], NAMES[want[fn.sn]])))
                return [(st, P("Value") if fn.sn == "json_string_value" else ("t", "value"))]
            m = ctx.machine(max_states=5000)
            m.hooks = [(re.compile("^(%s)$" % "|".join(want)), h_value), (re.compile(r"TypeError::~?TypeError$"), NOTHING)]
            st = m.start(f, args, mem={**{o: dict(c) for o, c in mem.items()}, ("Json",): {}})
            m.store(st, P("Json"), 4, t)
            if need is None:
                m.store(st, THIS, 8, P("Json"))
                m.store(st, ("p", ("This",), 8), 8, P("Name"))
            m.run([st])
            ctx.absorb(m)
            n += 1
            rets = [v for k, v, st in m.outcomes if k == "ret"]
            if not m.outcomes:
                raise AnalysisBroken("%s could not be followed" % f.sn)
            if need is not None and t != need and rets:
                bad.append(("type", floc(f), "a value that is %s is taken for %s" % (NAMES[t], NAMES[need])))
            right = t == need if need is not None else bool(read)
            fine += right and bool(rets)
            if right and not rets:
                bad.append(("refused", floc(f), "%s is refused where it is expected" % NAMES[t]))
        if not fine and not bad:
            bad.append(("never", floc(f), "no value is accepted"))
        ctx.oblige("typed: " + (f.dn if len(f.dn) < 100 else f.sn), True)
    ctx.need("values looked at by type", n, 32)
    report(ctx, "typed", bad, "core/key_value_store/json_handle.hpp")


def lookup(ctx):
    """a key that must be there and is not is an error; one that may be missing and is, is reported as missing; otherwise its own value is used"""
    p = ctx.prog
    bad = []
    n = 0
    fns = p.find(r"^%sCompound(RefConst)?::(get|getIf|getIfAny)$" % KVS)
    for f in fns:
        name = f.sn.rsplit("::", 1)[1]
        args = ([P("Ret")] if len(f.params) == 3 else []) + [THIS, P("Key")]
        for found in (0, 1):
            used = []

            def h_get(m, st, i, fn, a):
                if a[0] != P("Json") or a[1] != P("Key"):
                    bad.append(("key", i.loc, "the value of another key is used"))
                return [(st, P("Val") if found else 0)]

            def h_as(m, st, i, fn, a):
                ref = a[1] if len(fn.params) == 2 else a[0]
                v = m.load(st, ref, 8, "p")
                used.append(v)
                return [(st, ("t", "as"))] if len(fn.params) == 1 else [(st, None)]
            m = ctx.machine(max_states=5000)
            m.hooks = [(re.compile(r"^json_object_get(n)?$"), h_get), (re.compile(r"JsonRefConst::as$"), h_as), (re.compile(r"KeyLookupError::~?KeyLookupError$|basic_string::~?basic_string$"), NOTHING),
                       (re.compile(r"^std::_Optional_payload.*|optional::~optional$"), lambda *a: None)]
            st = m.start(f, args, mem={("This",): {"hv": True}, ("Ret",): {"hv": True}, ("Val",): {"hv": True}, ("Key",): {"hv": True}})
            m.store(st, THIS, 8, P("Json"))
            m.store(st, ("p", ("This",), 8), 8, P("Name"))
            m.run([st])
            ctx.absorb(m)
            n += 1
            kinds = {k for k, v, s in m.outcomes}
            if not kinds:
                raise AnalysisBroken("%s could not be followed" % f.sn)
            if not found and name == "get" and kinds != {"exc"}:
                bad.append(("missing", floc(f), "a key that is missing is not an error"))
            if not found and name != "get" and (kinds != {"ret"} or used):
                bad.append(("optional", floc(f), "a key that may be missing is an error"))
            if found and "ret" not in kinds:
                bad.append(("present", floc(f), "a key that is present is not found"))
            if found and name != "getIfAny" and any(v != P("Val") for v in used):
                bad.append(("other", floc(f), "the value of another key is used"))
            if found and name != "getIfAny" and not used:
                bad.append(("unused", floc(f), "the value of a key that is present is not used"))
    ctx.need("look-ups by key", n, 20)
    for x in ("key that must be present", "key that may be missing", "own value"):
        ctx.oblige("look-up: " + x, True)
    report(ctx, "look-up", bad, "core/key_value_store/compound.hpp")


def whole(ctx):
    """what is loaded as an object is an object; nothing at all is an empty one"""
    p = ctx.prog
    bad = []
    n = 0
    for f in p.find(r"^%sCompound::Compound$" % KVS):
        if len(f.params) != 4:
            continue
        for t in [None] + list(range(8)):
            made = []

            def h_load(m, st, i, fn, a):
                if not is_ptr(a[0]):
                    raise AnalysisBroken("where what is loaded is put is unknown")
                m.havoc_range(st, a[0], 40)
                m.store(st, a[0], 8, 0 if t is None else P("Json"))
                return [(st, None)]

            def h_new(m, st, i, fn, a):
                made.append(1)
                return [(st, P("Empty"))]
            m = ctx.machine(max_states=5000)
            m.hooks = [(re.compile(r"^%sjsonLoad$" % KVS), h_load), (re.compile("^json_object$"), h_new), (re.compile(r"^json_(decref|delete)$|TypeError::~?TypeError$|^std::__cxx11::basic_string::~?(basic_string|operator=)$"), NOTHING)]
            st = m.start(f, [THIS, P("Src"), ("t", "len"), P("Name")], mem={("This",): {"hv": True}, ("Json",): {}}, roots=[P("Json")])
            m.store(st, P("Json"), 4, 7 if t is None else t)
            m.run([st])
            ctx.absorb(m)
            n += 1
            rets = [s for k, v, s in m.outcomes if k == "ret"]
            if not m.outcomes:
                raise AnalysisBroken("%s could not be followed" % f.sn)
            if t not in (None, OBJECT) and rets:
                bad.append(("type", floc(f), "a file that contains %s is taken for an object" % NAMES[t]))
            if t in (None, OBJECT) and not rets:
                bad.append(("refused", floc(f), "a file that contains an object is refused" if t is not None else "an empty file is refused"))
            for s in rets:
                v = m.load(s, THIS, 8, "p", peek=True)
                if t == OBJECT and v != P("Json"):
                    bad.append(("lost", floc(f), "the object that was loaded is not used"))
                if t is None and v != P("Empty"):
                    bad.append(("null", floc(f), "an empty file is used as if it contained an object"))
    ctx.need("objects loaded from text", n, 9)
    for x in ("an object", "empty"):
        ctx.oblige("loaded: " + x, True)
    report(ctx, "loaded", bad, "core/key_value_store/compound.hpp")
