"""The written forms of settings: texts of enumerations, JSON forms of what recipes are told and of the configuration."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .common import field, Cover, elem_of, find_term, MapWalk
from .sources import G, STRING, quiet, RTE
from .tasks import report, THIS
from .scan import path_hooks
from .recipes import H, NOPE, P, Built, EMPTY, COMP

TEXTS = [("Maike::Db::SourceFileOrigin", {"Generated": b"generated", "Project": b"project", "System": b"system", "PkgConfig": b"pkg-config"}, "origin of a file"),
         ("Maike::Db::RebuildPolicy", {"Always": b"always", "OnlyIfOutOfDate": b"only_if_out_of_date"}, "rebuild policy"),
         ("Maike::Db::LogFormat", {"PlainText": b"plain_text", "AnsiTerm": b"ansi_term"}, "format of messages"),
         ("Maike::Db::CompilationLog::LogLevel", {"Errors": b"errors", "SourceFileInfo": b"source_file_info", "CompilationCommand": b"compilation_command"}, "amount of messages"),
         ("Generic::FilenameExtReplacementMode", {"Append": b"append", "Replace": b"replace"}, "way to name a target")]
TEXT = P("Text")


def text_hooks(g, TEXT=TEXT):
    """comparisons of the text under analysis with constants, kept in the ghost component 'text': a constant, or the set of
    constants it is known not to be"""
    def same(st, c):
        t = g.get(st, "text")
        if isinstance(t, bytes):
            return [(st, int(t == c))]
        if c in t:
            return [(st, 0)]
        s2 = st.copy()
        g.put(st, text=c)
        g.put(s2, text=tuple(sorted(t + (c,))))
        return [(st, 1), (s2, 0)]

    def other(m, st, args):
        if len(args) < 2 or TEXT not in args[:2]:
            return None
        return m.cstr(st, args[1] if args[0] == TEXT else args[0])

    def h_strcmp(m, st, i, fn, args):
        c = other(m, st, args)
        if c is None:
            return None
        out = []
        for s, e in same(st, c):
            if e:
                out.append((s, 0))
            else:
                out += [(s.copy(), 1), (s, 0xffffffff)]
        return out

    def h_strncmp(m, st, i, fn, args):
        c = other(m, st, args)
        if c is None or not isinstance(args[2], int):
            return None
        t = g.get(st, "text")
        if isinstance(t, bytes):
            return [(st, int(t[:args[2]] != c[:args[2]]))]
        if args[2] > len(c):
            return h_strcmp(m, st, i, fn, args)
        # only the beginning is compared: other texts begin like this as well
        return [(st.copy(), 0), (st, 1)]

    def h_strlen(m, st, i, fn, args):
        if args[0] == TEXT:
            t = g.get(st, "text")
            return [(st, len(t) if isinstance(t, bytes) else ("t", "textlen"))]
        c = m.cstr(st, args[0])
        return [(st, len(c))] if c is not None else None

    def piece(m, st, n, q):
        """a string_view: the text, a constant, or None"""
        if q == TEXT:
            return TEXT if n == ("t", "textlen") or isinstance(g.get(st, "text"), bytes) and n == len(g.get(st, "text")) else None
        c = m.cstr(st, q)
        return c[:n] if c is not None and isinstance(n, int) else None

    def h_view(m, st, i, fn, args):
        """== of string_views, strings and C strings"""
        if len(args) == 4:
            a, b = piece(m, st, *args[:2]), piece(m, st, *args[2:])
        elif len(args) == 3 and "string_view" in fn.dn:
            a, b = (piece(m, st, *args[:2]), args[2]) if isinstance(args[1], tuple) and not is_term(args[1]) else (args[0], piece(m, st, *args[1:]))
        elif len(args) == 2:
            a, b = args
        else:
            return None

        def norm(x):
            if x is None or isinstance(x, bytes) or x == TEXT:
                return x
            c = m.cstr(st, x)
            if c is not None:
                return c
            t = m.tag(st, x) if is_ptr(x) else None
            return t[1] if type(t) is tuple and t[0] == "str" else TEXT if t == ("t", "text") else None
        a, b = norm(a), norm(b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            r = [(st, int(a == b))]
        elif a == TEXT and isinstance(b, bytes):
            r = same(st, b)
        elif b == TEXT and isinstance(a, bytes):
            r = same(st, a)
        else:
            return None
        return [(s, 1 - e) for s, e in r] if fn.sn.endswith("!=") else r

    def h_str(m, st, i, fn, args):
        if len(args) >= 2 and args[1] == TEXT:
            m.havoc_range(st, args[0], 32)
            t = g.get(st, "text")
            m.settag(st, args[0], ("str", t) if isinstance(t, bytes) else ("t", "text"))
            return [(st, None)]
        return None

    def h_cmp(m, st, i, fn, args):
        r = h_view(m, st, i, fn, args)
        return None if r is None else [(s, 1 - e) for s, e in r]
    def h_case(m, st, i, fn, args):
        # texts that differ are taken for equal
        return [(st.copy(), 0), (st, 1)] if other(m, st, args) is not None else None

    def h_any(m, st, i, fn, args):
        if TEXT in args and not fn.blocks:
            g.put(st, odd=1)
        return None
    return [H("^strn?casecmp$", h_case), H("^strcmp$", h_strcmp), H("^strncmp$", h_strncmp), H("^strlen$|^std::char_traits::length$", h_strlen), H("^std::operator(==|!=)$", h_view),
            H(r"^std::(basic_string_view|__cxx11::basic_string)::compare$", h_cmp), H("^std::__cxx11::basic_string::basic_string$", h_str), H(".", h_any)]


def texts(ctx):
    """toString and fromString of every enumeration are inverse, and no other text is accepted"""
    p = ctx.prog
    bad = []
    for en, want, what in TEXTS:
        vals = p.enum(en)
        short = en.split("::")[-1]
        w = p.one(r"::toString$", lambda f: re.search(r"toString\(%s\)" % re.escape(en), f.dn))
        r = p.one(r"::fromString$", lambda f: re.search(r"Empty<%s>" % re.escape(en), f.dn))
        for n, v in sorted(vals.items()):
            m = ctx.machine(max_states=2000)
            m.run([m.start(w, [v], ghost=())])
            ctx.absorb(m)
            got = set()
            for kind, x, st in m.outcomes:
                got.add(m.cstr(st, x) if kind == "ret" else None)
            if None in got or len(got) != 1:
                if not got:
                    bad.append(("write-" + short, floc(w), "a value of the %s has no written form" % what))
                    continue
                raise AnalysisBroken("the text of %s::%s could not be determined" % (en, n))
            if n in want and got != {want[n]}:
                bad.append(("write-" + short, floc(w), "the %s `%s` is written as `%s`" % (what, want[n].decode(), got.pop().decode(errors="replace"))))
            ctx.oblige("text of %s::%s" % (short, n), True)
        m = ctx.machine(max_states=8000)
        g = G(text=(), odd=0)
        m.hooks = text_hooks(g)
        m.run([m.start(r, [TEXT], ghost=g.init, mem={("Text",): {"hv": True}}, roots=[TEXT])])
        ctx.absorb(m)
        seen = {}
        for kind, v, st in m.outcomes:
            t = g.get(st, "text")
            if kind == "ret":
                v = m.res(st, v) if is_term(v) else v
                if not isinstance(v, int):
                    raise AnalysisBroken("%s: the value read could not be determined" % en)
                if not isinstance(t, bytes) and g.get(st, "odd"):
                    raise AnalysisBroken("%s: an unknown way to compare texts" % en)
                if not isinstance(t, bytes):
                    bad.append(("read-" + short, floc(r), "texts that name no %s are accepted" % what))
                else:
                    seen.setdefault(t, set()).add(v)
            elif kind == "exc" and isinstance(t, bytes):
                seen.setdefault(t, set())
        if not m.outcomes:
            raise AnalysisBroken("%s: reading could not be followed" % en)
        for n, t in want.items():
            if n not in vals:
                raise AnalysisBroken("%s::%s vanished" % (en, n))
            if seen.get(t, set()) != {vals[n]}:
                bad.append(("read-" + short, floc(r), "the text `%s` is not read as the %s it is the written form of" % (t.decode(), what)))
            ctx.oblige("reading %s" % t.decode(), True)
        for t, vs in seen.items():
            if t not in want.values() and vs & {vals[n] for n in want}:
                ctx.note("further text %s for %s" % (t, en)) if hasattr(ctx, "note") else None
    report(ctx, "texts", bad, "core/db/source_file_origin.cpp")


# ---------------------------------------------------------------- what recipes are told
class Elems(Built):
    """an object with one entry for each element of a vector or a map"""

    def keyed(self, st, x, k, v):
        self.elem(st, x, k, v)


def dependency(ctx):
    """toJson(Dependency): name, origin and every property"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::Db::toJson$", lambda f: "Db::Dependency const&" in f.dn)
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name")
    ooff = field(p, "Maike::Db::Dependency", lambda n, t: "SourceFileOrigin" in t, "the origin")
    voff = field(p, "Maike::Db::Dependency", lambda n, t: "vector" in t, "the properties")
    psize = p.types["Maike::Db::Property"]["size"]
    offs = {x[0]: x[1] for x in p.types["Maike::Db::Property"]["m"]}
    no, vo = offs["m_name"], offs["m_value"]
    vals = p.enum("Maike::Db::SourceFileOrigin")
    OUT, DEP = P("Out"), P("Dep")
    VT = ("t", "properties")
    for n, text in sorted(TEXTS[0][1].items()):
        m = ctx.machine(max_states=20000)
        g = G(js=(), cov=())
        cv = Cover(m, psize)
        b = Elems(m, g, bad)

        def elem(st, x, k, v):
            a = find_term(k, "tag0")
            c = find_term(v, "tag0")
            ka, va = ("p", a[2], a[3]) if a else None, ("p", c[2], c[3]) if c else None
            if elem_of(ka) is None or elem_of(va) is None or not same_elem(ka, va, no, vo):
                bad.append(("prop", floc(f), "a property of a dependency is passed on with the name or value of another one"))
                return
            g.put(st, cov=cv.visit(g.get(st, "cov"), move(ka, -no)))
        b.elem = elem
        m.hooks = b.hooks() + path_hooks()
        st = m.start(f, [OUT, DEP], ghost=g.init, mem={("Out",): {"hv": True}, ("Dep",): {"hv": True}}, roots=[OUT, DEP, ("t", "vsize", VT)])
        m.store(st, ("p", ("Dep",), ooff), 4, vals[n])
        m.settag(st, ("p", ("Dep",), noff), ("t", "name"))
        m.settag(st, ("p", ("Dep",), voff), VT)
        m.run([st])
        ctx.absorb(m)
        k = 0
        for kind, v, st in m.outcomes:
            if kind != "ret":
                continue
            k += 1
            o = m.tag(st, OUT)
            if not (is_term(o) and o[1] == "obj"):
                raise AnalysisBroken("the JSON form of a dependency could not be followed")
            d = dict(o[2])
            if d.get(b"ref") != ("t", "name"):
                bad.append(("ref", floc(f), "a recipe does not get the name of a dependency"))
            if d.get(b"origin") != ("str", text):
                bad.append(("origin", floc(f), "a recipe gets a wrong origin of a dependency"))
            if set(d) - {b"ref", b"origin"}:
                bad.append(("more", floc(f), "a recipe gets something about a dependency that was not declared"))
            if not cv.complete(st, g.get(st, "cov"), ("p", ("Dep",), voff)):
                bad.append(("props", floc(f), "a property of a dependency is not passed on to the recipe"))
        if not k:
            raise AnalysisBroken("the JSON form of a dependency could not be followed")
        ctx.oblige("dependency of origin " + n, True)
    for x in ("name", "origin", "every property"):
        ctx.oblige("dependency form: " + x, True)
    report(ctx, "dependency form", bad, floc(f))


def move(q, d):
    o = q[2]
    if isinstance(o, int):
        return ("p", q[1], o + d)
    return ("p", q[1], ("*", o[1], o[2] + d, o[3]))


def same_elem(a, b, ao, bo):
    return move(a, -ao) == move(b, -bo)


def build_info(ctx):
    """toJson(Build::Info): when, which, where from, where to, on which machine"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::Build::toJson$", lambda f: "Info const&" in f.dn)
    t = {x[0]: (x[1], x[2]) for x in p.types["Maike::Build::Info"]["m"]}
    OUT, INFO = P("Out"), P("Info")
    m = ctx.machine(max_states=20000)
    g = G(js=())
    b = Built(m, g, bad)
    want = {b"source_dir": "m_source_dir", b"target_dir": "m_target_dir", b"build_host": "m_build_host", b"build_id": "m_build_id"}
    for k, n in want.items():
        if n not in t:
            raise AnalysisBroken("Build::Info::%s vanished" % n)
    TIME = ("t", "starttime")

    def h_time(m, st, i, fn, args):
        return [(st, ("t", "seconds", m.load(st, args[0], 8, "i64", peek=True) if is_ptr(args[0]) else args[0]))]
    m.hooks = [H(r"system_clock::to_time_t$", h_time)] + b.hooks() + path_hooks()
    st = m.start(f, [OUT, INFO], ghost=g.init, mem={("Out",): {"hv": True}, ("Info",): {"hv": True}}, roots=[OUT, INFO, TIME])
    for n in want.values():
        m.settag(st, ("p", ("Info",), t[n][0]), ("t", n))
    m.store(st, ("p", ("Info",), t["m_start_time"][0]), 8, TIME)
    m.run([st])
    ctx.absorb(m)
    k = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        k += 1
        o = m.tag(st, OUT)
        if not (is_term(o) and o[1] == "obj"):
            raise AnalysisBroken("the JSON form of the build could not be followed")
        d = dict(o[2])
        for key, n in want.items():
            if d.get(key) != ("t", n):
                bad.append(("info-" + key.decode(), floc(f), "a recipe does not get `%s` of the build" % key.decode()))
            ctx.oblige("build info: " + key.decode(), True)
        if d.get(b"start_time") != ("t", "seconds", TIME):
            bad.append(("info-start_time", floc(f), "a recipe does not get the start time of the build"))
    if not k:
        raise AnalysisBroken("the JSON form of the build could not be followed")
    ctx.oblige("build info: start_time", True)
    report(ctx, "build info", bad, floc(f))


# ---------------------------------------------------------------- storing a value
VALUE = ("p", ("sym", ("t", "made")), 0)


def kept(ctx):
    """Compound::set and Array::append: the value is stored under its key in this very object, or it is an error"""
    p = ctx.prog
    bad = []
    fs = [f for f in p.find(r"^Maike::KeyValueStore::(Compound::set|Array::append)$") if f.blocks]
    if len(fs) < 5:
        raise AnalysisBroken("storing values in JSON objects vanished")
    for f in fs:
        obj = f.sn.endswith("set")
        hoff = field(p, "Maike::KeyValueStore::" + ("Compound" if obj else "Array"), lambda n, t: "JsonHandle" in t, "the handle")
        m = ctx.machine(max_states=4000)
        g = G(made=0, stored=0, ok=None)
        SELF, KEY, VAL, HND = P("Self"), P("Key"), P("Val"), P("Object")

        def h_json(m, st, i, fn, args):
            if len(args) < 2 or fn.name == f.name:
                return None
            a = args[1]
            v = (m.load(st, a, 8, "i64", peek=True), m.load(st, a, 4, "i32", peek=True)) if is_ptr(a) and a != VAL else ()
            fine = a == VAL or is_ptr(a) and m.tag(st, a) == ("t", "value") or ("t", "value8") in v or not is_ptr(a) and (a == ("t", "value8") or find_term(a, "value8") is not None)
            g.put(st, made=1 if fine else 2)
            m.havoc_range(st, args[0], 40)
            m.settag(st, args[0], ("t", "handle"))
            return [(st.copy(), Throw(RTE)), (st, None)]

        def h_copy(m, st, i, fn, args):
            if len(args) >= 2 and is_ptr(args[1]) and m.tag(st, args[1]) in (("t", "value"), ("t", "handle")):
                m.settag(st, args[0], m.tag(st, args[1]))
                return [(st, None)]
            return None

        def h_release(m, st, i, fn, args):
            return [(st, VALUE if m.tag(st, args[0]) == ("t", "handle") else TOP)]

        def h_handle(m, st, i, fn, args):
            return [(st, HND if args[0] == ("p", ("Self",), hoff) else TOP)]

        def h_store(m, st, i, fn, args):
            at = args[0]
            v = args[-1]
            if at != HND:
                bad.append(("where", i.loc, "a value is stored in another object"))
            if obj and args[1] != KEY:
                bad.append(("key", i.loc, "a value is stored under another key"))
            if v != VALUE or g.get(st, "made") != 1:
                bad.append(("what", i.loc, "something else than the given value is stored"))
            if g.get(st, "stored"):
                bad.append(("again", i.loc, "a value is stored twice"))
            g.put(st, stored=1)
            s2 = st.copy()
            g.put(st, ok=1)
            g.put(s2, ok=0)
            return [(st, 0), (s2, 0xffffffff)]
        m.hooks = [H(r"::toJson$", h_json), H(r"::JsonHandle::release$", h_release), H(r"::JsonHandle::handle$", h_handle), H(r"^json_(object_set_new(_nocheck)?|array_append_new)$", h_store),
                   H(r"::(\w+)::(\1|operator=)$", h_copy), (STRING, quiet)]
        args = [SELF, KEY, VAL] if obj else [SELF, VAL]
        if len(f.params) != len(args):
            continue
        st = m.start(f, args, ghost=g.init, mem={(x,): {"hv": True} for x in ("Self", "Key", "Val")}, roots=[HND, VALUE, ("t", "value8")])
        ty = re.sub(r"( const)?\s*&*$", "", re.search(r"(set|append)<(.*?)>\(", f.dn).group(2))
        m.store(st, VAL, 4 if ty in p.enums or ty in ("int", "unsigned int", "bool") else 8, ("t", "value8"))
        m.settag(st, VAL, ("t", "value"))
        m.run([st])
        ctx.absorb(m)
        n = 0
        for kind, v, st in m.outcomes:
            if kind == "ret":
                n += 1
                if not g.get(st, "stored"):
                    bad.append(("not", floc(f), "a value is not stored"))
                elif g.get(st, "ok") == 0:
                    bad.append(("error", floc(f), "a value that cannot be stored is left out without an error"))
                if v != SELF:
                    bad.append(("chain", floc(f), "storing a value goes on with another object"))
        if not n:
            raise AnalysisBroken("storing a value could not be followed")
        ctx.oblige(f.dn.split("KeyValueStore::")[-1][:70], True)
    report(ctx, "kept", bad, floc(fs[0]))
