"""Reading source files: dependencies and tags are taken from where they are, and from nowhere else."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, TOP, is_ptr, is_term
from engine.rule import floc
from .common import Cover, elem_of, field
from .scan import path_hooks
from .sources import G, quiet, STRING
from .tasks import report, THIS

BLANK = b" \t\v\f\r"
UNSPEC = None
KEY = b"include"


class Cxx:
    """What the text of a C++ source means, as an automaton over its bytes. A state is (mode, data..., bs); bs: the last byte was a backslash.
    step() returns a list of (state, segment the byte belongs to, event); an empty list: the text is outside of what is specified."""
    start = ("line", 0)

    def __init__(self, tags):
        self.tags = tags

    def step(self, s, c):
        if c < 32 and c not in b"\t\v\f\r\n":
            return []
        if s[-1] and c in b"\n\r":
            return []
        return getattr(self, "m_" + s[0])(s, c)

    @staticmethod
    def to(mode, c, *data, seg=None, ev=None):
        return [((mode,) + data + (int(c == 92),), seg, ev)]

    def nl(self):
        return [(("line", 0), None, "\n")]

    def m_line(self, s, c):
        if c in BLANK:
            return self.to("line", c)
        if c == 35 and not self.tags:
            return self.to("dir0", c)
        return self.code(c, "line")

    def code(self, c, origin="code"):
        if c == 10:
            return self.nl()
        if c == 47:
            return self.to("slash", c, origin)
        return self.to({82: "R", 34: "str", 39: "apos"}.get(c, "code"), c)

    def m_code(self, s, c):
        return self.code(c)

    def m_slash(self, s, c):
        if c == 47:
            return self.to("tagmark" if self.tags and s[1] == "line" else "lcomment", c)
        if c == 42:
            return self.to("bcomment", 0)
        if c == 82:
            return self.to("odd", c)
        return self.code(c)

    def m_odd(self, s, c):
        "something after which the beginning of a raw string or a comment would be doubtful"
        if c in b"\"/":
            return []
        return self.to("odd", c) if c == 82 else self.code(c)

    def m_R(self, s, c):
        if c == 34:
            return self.to("rawtag", 0, 0)
        if c in b"/R":
            return self.to("odd", c)
        return self.code(c)

    def m_str(self, s, c):
        if s[-1] and c in b"R/":
            return []
        if s[-1]:
            return self.to("str", 0)
        if c == 10:
            return self.nl()
        return self.to({34: "code", 82: "strodd", 47: "strodd"}.get(c, "str"), c)

    def m_strodd(self, s, c):
        if c in b"/*R\"":
            return []
        return self.m_str(s, c)

    def m_apos(self, s, c):
        return [] if c in b"\"\\" else self.code(c)

    def m_lcomment(self, s, c):
        return self.nl() if c == 10 else self.to("lcomment", c)

    def m_tagmark(self, s, c):
        if c == 64:
            return self.to("tagline", 0)
        return self.m_lcomment(s, c)

    def m_tagline(self, s, c):
        if c == 10:
            return self.nl()
        return [(("tagline", 0), "TAGS", None)]

    def m_bcomment(self, s, c):
        return [(("bstar" if c == 42 else "bcomment", 0), None, "\n" if c == 10 else None)]

    def m_bstar(self, s, c):
        return self.to("code", c) if c == 47 else self.m_bcomment(s, c)

    def m_rawtag(self, s, c):
        if c == 40:
            return self.to("rawbody", 0, s[1])
        if c in b" \t\v\f\r\n)\\\"":
            return []
        return [(("rawtag", 1, 0), "TAG1" if not s[1] else "TAG", None)]

    def m_rawbody(self, s, c):
        if c == 41:
            return self.to("rawend", 0, s[1], "part" if s[1] else "full", 0)
        return [(("rawbody", s[1], 0), None, "\n" if c == 10 else None)]

    def m_rawend(self, s, c):
        ne, match, n = s[1:4]
        if c == 34 and match == "full":
            return self.to("code", c)
        if c in b"\n\")":
            return self.m_rawbody(s, c)
        seg = "END" if n else "END1"
        return [(("rawend", ne, k, 1, 0), seg, None) for k in (("part", "full", "no") if match == "part" else ("no",))]

    # directives
    def m_dir0(self, s, c):
        if c in BLANK:
            return self.to("dir0", c)
        if c == 10:
            return self.nl()
        if c in b"/\"<'":
            return []
        t = bytes([c])
        return self.to("dir", c, t if KEY.startswith(t) else None, seg="DIR1")

    def m_dir(self, s, c):
        t = s[1]
        if c == 10:
            return self.nl()
        if c in b"/'":
            return []
        if c in BLANK:
            return self.to("prearg" if t == KEY else "code", c)
        if c in b"\"<":
            return self.to("path", c, c, 0) if t == KEY else [] if c == 34 else self.to("code", c)
        t = t + bytes([c]) if t is not None else None
        return self.to("dir", c, t if t is not None and KEY.startswith(t) else None, seg="DIR")

    def m_prearg(self, s, c):
        if c in BLANK:
            return self.to("prearg", c)
        if c == 10:
            return self.nl()
        if c in b"/R'":
            return []
        return self.to("path", c, c, 0) if c in b"\"<" else self.to("code", c)

    def m_path(self, s, c):
        k, n = s[1:3]
        if c == (34 if k == 34 else 62):
            return self.to("code", c, ev=("dep", k)) if n else []
        if c == 10:
            return self.nl()
        return self.to("path", c, k, 1, seg="PATH" if n else "PATH1")


class Hash:
    """files in which comments begin with #: a line #@... is a tag"""
    start = ("line", 0)

    def step(self, s, c):
        if c < 32 and c not in b"\t\v\f\r\n":
            return []
        if c == 10:
            return [(("line", 0), None, "\n")]
        m = s[0]
        if m == "line":
            return [((m if c in BLANK else "mark" if c == 35 else "rest", 0), None, None)]
        if m == "mark":
            return [(("tagline" if c == 64 else "rest", 0), None, None)]
        return [((m, 0), "TAGS" if m == "tagline" else None, None)]


SEGMENT = {"dir": "DIR", "rawtag": "TAG", "rawend": "END", "path": "PATH"}


RAW = ("rawtag", "rawbody", "rawend")
USED = {"TAG": RAW, "END": RAW, "DIR": ("dir", "prearg"), "PATH": ("path",), "TAGS": ()}


class Text:
    """strings built from the bytes read: what part of the text a string consists of"""

    def __init__(self, m, g):
        self.m, self.g = m, g

    def get(self, st, q):
        return dict(self.g.get(st, "strs")).get(q, ("?",))

    def put(self, st, q, v):
        d = dict(self.g.get(st, "strs"))
        d[q] = v
        if v is None:
            del d[q]
        self.g.put(st, strs=tuple(sorted(d.items(), key=repr)))

    def read(self, st, old, new, c, seg):
        """the effect of a byte on what strings are known to be"""
        d = {}
        began = new[0] in SEGMENT and (old[0] != new[0] or seg is None) and SEGMENT[new[0]]
        if new[0] == "rawend" and c == 41:
            began = "END"
        if new[0] == "rawtag" and old[0] != "rawtag":
            began = "TAG"
        if seg and seg.endswith("1"):
            began = seg[:-1]
        for q, v in self.g.get(st, "strs"):
            if len(v) == 2 and (v[0] == began or old[0] not in USED[v[0]] and new[0] not in USED[v[0]]):
                v = ("old",)
            elif seg and len(v) == 2 and v[0] == seg.rstrip("1"):
                v = (v[0], "behind") if v[1] == "ok" else ("old",)
            d[q] = v
        self.g.put(st, strs=tuple(sorted(d.items(), key=repr)), last=(c, seg) if seg else (None, None))

    def append(self, st, q, c):
        v = self.get(st, q)
        lc, seg = self.g.get(st, "last")
        if v == ("?",):
            return
        if v[0] in ("old",):
            v = ("old",)
        elif lc == "gone":
            v = ("?",)
        elif isinstance(c, int) and c & 255 == lc and seg and (v == ("empty",) and seg.endswith("1") or v == (seg, "behind")):
            v = (seg.rstrip("1"), "ok")
        elif isinstance(c, int):
            v = ("old",)
        else:
            v = ("?",)
        self.put(st, q, v)

    def same(self, st, a, b):
        """results of comparing two strings (by name or constant) -> list of (state, 0/1)"""
        g = self.g
        va = a if isinstance(a, bytes) else self.get(st, a)
        vb = b if isinstance(b, bytes) else self.get(st, b)
        if isinstance(va, bytes):
            va, vb = vb, va
        if ("?",) in (va, vb):
            g.put(st, soft=1)
            return [(st.copy(), 0), (st, 1)]
        if isinstance(vb, bytes):
            sp = g.get(st, "sp")
            if va == ("empty",):
                return [(st, int(vb == b""))]
            if va == ("DIR", "ok") and g.get(st, "dir") is not None:
                return [(st, int(g.get(st, "dir") == vb))]
            if va == ("DIR", "ok") and KEY.startswith(vb):
                return [(st, 0)]
            return [(st.copy(), 0), (st, 1)]
        k = {va, vb}
        if va == vb == ("empty",):
            return [(st, 1)]
        if k == {("TAG", "ok"), ("END", "ok")}:
            return [(st, int(g.get(st, "match") == "full"))]
        if k == {("TAG", "ok"), ("empty",)} or k == {("END", "ok"), ("empty",)}:
            return [(st, 0)]
        return [(st.copy(), 0), (st, 1)]

    def hooks(self):
        m, g = self.m, self.g

        def const(st, a):
            return m.cstr(st, a) if is_ptr(a) and a not in dict(g.get(st, "strs")) else None

        def h_string(m, st, i, fn, args):
            n = fn.sn.rsplit("::", 1)[1]
            d = dict(g.get(st, "strs"))
            q = args[0] if args else None
            if n == "basic_string":
                if len(args) == 1:
                    self.put(st, q, ("empty",))
                    return [(st, None)]
                if len(args) == 2 and args[1] in d:
                    self.put(st, q, d[args[1]])
                    if "&&)" in fn.dn:
                        self.put(st, args[1], ("empty",))
                    return [(st, None)]
                return quiet(m, st, i, fn, args)
            if n == "~basic_string":
                if q in d:
                    self.put(st, q, None)
                return [(st, None)]
            if q not in d:
                return None
            if n == "clear" or n == "resize" and args[1] == 0 or n == "erase" and len(args) == 1:
                self.put(st, q, ("empty",))
                return [(st, None)]
            if n in ("operator+=", "push_back") and len(args) == 2 and not is_ptr(args[1]):
                self.append(st, q, args[1])
                return [(st, q)]
            if n == "append" and len(args) == 3 and args[1] == 1:
                self.append(st, q, args[2])
                return [(st, q)]
            if n in ("operator=", "assign", "swap") and len(args) == 2:
                if args[1] in d:
                    a, b = self.get(st, args[1]), self.get(st, q)
                    self.put(st, q, a)
                    if n == "swap":
                        self.put(st, args[1], b)
                    elif "&&)" in fn.dn:
                        self.put(st, args[1], ("empty",))
                else:
                    self.put(st, q, ("empty",) if const(st, args[1]) == b"" else ("?",))
                return [(st, q)]
            v = self.get(st, q)
            if n == "empty":
                if v == ("empty",):
                    return [(st, 1)]
                if len(v) == 2 and v[1] == "ok":
                    return [(st, 0)]
                if v[0] in ("?", "old"):
                    g.put(st, soft=1)
                return [(st.copy(), 0), (st, 1)]
            if n in ("size", "length"):
                if v == ("empty",):
                    return [(st, 0)]
                if v in (("PATH", "ok"), ("PATH", "behind"), ("old",)):
                    return [(st.copy(), 2), (st.copy(), 300), (st, 100000)]
                if v == ("TAG", "ok"):
                    return [(st, 5)]
                if v == ("END", "ok") and g.get(st, "match"):
                    k = {"full": (5,), "part": (2,), "no": (2, 5, 7)}[g.get(st, "match")]
                    return [(st.copy(), x) for x in k]
                if v == ("DIR", "ok"):
                    t = g.get(st, "dir")
                    return [(st, len(t))] if t is not None else [(st.copy(), 300), (st, 100000)]
            if n in ("compare",) and len(args) == 2:
                o = args[1] if args[1] in d else const(st, args[1])
                if o is not None:
                    return [(s, 1 - e) for s, e in self.same(st, q, o)]
            if n in ("c_str", "data") and len(args) == 1:
                return [(st, ("p", ("sym", ("t", "chars", q)), 0))]
            g.put(st, soft=1)
            return [x for x in quiet(m, st, i, fn, args)]

        def h_eq(m, st, i, fn, args):
            if len(args) != 2:
                return None
            d = dict(g.get(st, "strs"))
            ab = [a if a in d else const(st, a) for a in args]
            if not any(a in d for a in args):
                return None
            if None in ab:
                g.put(st, soft=1)
                r = [(st.copy(), 0), (st, 1)]
            else:
                r = self.same(st, *ab)
            return [(s, e if fn.sn.endswith("==") else 1 - e) for s, e in r]
        def forget(st):
            "the last byte is not needed any more when nothing has its value"
            c = g.get(st, "last")[0]
            if isinstance(c, int) and not any(v == c for f in st.frames for v in f.regs.values()) and not any(v == c for o in st.mem.values() for k, v in o.items() if k != "hv"):
                g.put(st, last=("gone", None))
        m.key_hook = forget
        return [(re.compile(r"^std::__cxx11::basic_string::"), h_string), (re.compile(r"^std::operator[!=]=$"), h_eq)]


def bytes_used(ctx, f):
    """one byte of each class which the functions (comparisons with constants) or the specification tell from others"""
    if ctx.tier == "thorough":
        return list(range(256))
    out = set(b"\n \r\t/*\"'\\R#<>()@,;") | {0, 255}
    p = ctx.prog
    todo, seen = [f], set()
    while todo:
        h = todo.pop()
        if h.name in seen or h.decl or not h.in_repo:
            continue
        seen.add(h.name)
        for b in h.blocks:
            for i in b:
                c = p.callee(i)
                if c is not None:
                    todo.append(c)
                ks = [o[1] for o in i.a if o[0] == "i"] if i.op in ("icmp", "sub", "add") else [int(k) for k in i.x["cases"]] if i.op == "switch" else []
                out |= {k & 255 for k in ks if 0 <= k < 256}
    # those in between
    k = sorted(out)
    for x, y in zip(k, k[1:]):
        if y - x > 1:
            out.add(x + 1)
    return sorted(c for c in out if c >= 32 or c in b"\n\r\t")


def get_deps(ctx):
    """Cxx::SourceFileLoader::getDependencies: one dependency for every include directive, in order"""
    p = ctx.prog
    f = p.one(r"^Cxx::SourceFileLoader::getDependencies$", lambda f: len(f.params) == 3)
    noff = field(p, "Maike::Db::Dependency", lambda n, t: "path" in t, "the name")
    ooff = field(p, "Maike::Db::Dependency", lambda n, t: "SourceFileOrigin" in t, "the origin")
    voff = field(p, "Maike::Db::Dependency", lambda n, t: "vector" in t, "the properties")
    goff = field(p, "Cxx::SourceFileLoader", lambda n, t: "basic_regex" in t, "the expressions for generated includes")
    rsize = next((t["size"] for n, t in p.types.items() if n.startswith("std::__cxx11::basic_regex<char")), 32)
    org = p.enum("Maike::Db::SourceFileOrigin")
    GEN = ("p", ("This",), goff)
    RET = ("p", ("Ret",), 0)
    bad = []
    soft = []
    spec = Cxx(False)
    alphabet = bytes_used(ctx, f)
    m = ctx.machine(max_states=200000)
    # pend: the directive whose dependency is missing; pth: what the path last made consists of
    g = G(sp=spec.start, strs=(), last=(None, None), dir=None, match=None, pend=None, soft=0, cov=(), hit=0)
    tx = Text(m, g)
    cv = Cover(m, rsize)
    PATHT = ("t", "include path")

    def say(st, key, msg, loc=None):
        (soft if g.get(st, "soft") else bad).append((key, loc or floc(f), msg))
        return []

    def where(sp):
        return {"line": "code", "code": "code", "str": "code", "slash": "code", "R": "code", "lcomment": "a comment", "bcomment": "a comment", "bstar": "a comment", "rawtag": "a raw string",
                "rawbody": "a raw string", "rawend": "a raw string", "path": "an incomplete directive", "prearg": "an incomplete directive"}.get(sp[0], "another directive")

    def h_getchar(m, st, i, fn, args):
        out = []
        if g.get(st, "pend"):
            return say(st, "lost", "an include directive is read without becoming a dependency", i.loc)
        sp = g.get(st, "sp")
        key = [KEY[len(sp[1])]] if sp[0] == "dir" and sp[1] is not None and sp[1] != KEY else [KEY[0]] if sp[0] == "dir0" else []
        for c in sorted(set(alphabet + key)):
            for new, seg, ev in spec.step(sp, c):
                s2 = st.copy()
                tx.read(s2, sp, new, c, seg)
                g.put(s2, sp=new, dir=new[1] if new[0] == "dir" else KEY if new[0] in ("prearg", "path") else None,
                      match=new[2] if new[0] == "rawend" else g.get(st, "match") if c == 34 and sp[0] == "rawend" else None)
                if ev and ev[0] == "dep":
                    g.put(s2, pend=(ev[1],))
                out.append((s2, c))
        g.put(st, sp=("end", 0), strs=tuple((q, ("empty",)) for q, v in g.get(st, "strs")), last=(None, None), dir=None, match=None)
        out.append((st, 0xffffffff))
        return out

    def h_path(m, st, i, fn, args):
        if len(args) < 2 or args[1] not in dict(g.get(st, "strs")):
            return None
        v = tx.get(st, args[1])
        m.havoc_range(st, args[0], 40)
        m.settag(st, args[0], PATHT if v == ("PATH", "ok") else ("t", "nothing") if v == ("empty",) else TOP if v == ("?",) else ("t", "other text"))
        if "&&" in fn.dn.split("(", 1)[1]:
            tx.put(st, args[1], ("empty",))
        return [(st, None)]

    def h_search(m, st, i, fn, args):
        el = [a for a in args if is_ptr(a) and elem_of(a) is not None]
        if len(el) != 1:
            raise AnalysisBroken("which expression is used is unknown")
        t = None
        for a in args:
            if is_ptr(a) and a != el[0]:
                if a[1][0] == "sym" and is_term(a[1][1]) and a[1][1][1] == "cstr":
                    t = a[1][1][2]
                elif a[1][0] == "sym" and is_term(a[1][1]) and a[1][1][1] == "chars":
                    t = PATHT if tx.get(st, a[1][1][2]) == ("PATH", "ok") else ("t", "other text")
                elif a in dict(g.get(st, "strs")):
                    t = PATHT if tx.get(st, a) == ("PATH", "ok") else ("t", "other text")
                elif t is None and is_term(m.tag(st, a)):
                    t = m.tag(st, a)
        if t is None:
            raise AnalysisBroken("what is compared with the expressions for generated includes is unknown")
        if t != PATHT:
            say(st, "search", "something else than the path included is compared with the expressions for generated files", i.loc)
        if elem_of(el[0])[0] != m.tag(st, GEN):
            say(st, "expr", "another expression than those for generated files is used", i.loc)
        g.put(st, cov=cv.visit(g.get(st, "cov"), el[0]))
        s2 = st.copy()
        g.put(s2, hit=1)
        return [(st, 0), (s2, 1)]

    def h_push(m, st, i, fn, args):
        if "Dependency" not in fn.dn.split("::push_back")[0].split("::emplace_back")[0] or len(args) != 2:
            return None
        d = args[1]
        off = lambda o: ("p", d[1], d[2] + o) if isinstance(d[2], int) else None
        t, o = m.tag(st, off(noff)), m.load(st, off(ooff), 4, "i32")
        if t == TOP or not isinstance(o, int):
            raise AnalysisBroken("what becomes a dependency is unknown")
        pend = g.get(st, "pend")
        if pend is None:
            return say(st, "spurious/" + where(g.get(st, "sp")), "a dependency is made from text in " + where(g.get(st, "sp")), i.loc)
        if t != PATHT:
            return say(st, "name", "the name of a dependency is not what is written in the include directive", i.loc)
        if pend[0] == 60:
            if o != org["System"]:
                say(st, "system", "a file included from the system becomes a dependency of the project", i.loc)
        elif o == org["Generated"]:
            if not g.get(st, "hit"):
                say(st, "generated", "an included file is taken as generated although no expression matches", i.loc)
        elif o == org["Project"]:
            if g.get(st, "hit"):
                say(st, "notgen", "an included file is not taken as generated although an expression matches", i.loc)
            elif not cv.complete(st, g.get(st, "cov"), GEN):
                say(st, "some", "an included file is not taken as generated without trying every expression", i.loc)
        else:
            say(st, "origin", "an included file gets a wrong origin", i.loc)
        g.put(st, pend=None, cov=(), hit=0)
        return [(st, None)]

    def h_view(m, st, i, fn, args):
        return [(st, None)] if fn.sn.endswith("~path") else None
    m.hooks = [(re.compile(r"^Maike::Io::InputBuffer::getchar$"), h_getchar), (re.compile(r"^Maike::Io::InputBuffer::(~?InputBuffer)$|^Maike::Io::Reader::"), quiet),
               (re.compile(r"^std::filesystem::__cxx11::path::path$"), h_path), (re.compile(r"^std::(__cxx11::)?regex_search$"), h_search),
               (re.compile(r"^std::vector::(push_back|emplace_back)$"), h_push), (re.compile(r"path::~path$|^Maike::Db::Dependency::~Dependency$|^std::vector::~vector$"), lambda m, st, i, fn, args: [(st, None)])] \
        + tx.hooks() + path_hooks()
    st = m.start(f, [RET, THIS, ("p", ("Input",), 0)], ghost=g.init, mem={("This",): {"hv": True}, ("Ret",): {"hv": True}, ("Input",): {"hv": True}}, roots=[THIS, RET])
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        if g.get(st, "pend"):
            say(st, "lost", "an include directive is read without becoming a dependency")
        if g.get(st, "sp")[0] != "end":
            say(st, "early", "the dependencies are taken from the beginning of a file only")
    if soft or not n and not bad:
        raise AnalysisBroken("the scanner for include directives could not be followed: %s" % soft[:1])
    for x in ("every directive", "nothing else", "name", "origin", "to the end"):
        ctx.oblige("include directives: " + x, True)
    report(ctx, "include directives", bad, floc(f))


def tag_lines(ctx, f, spec, name, copy):
    """the tags of a file are the text of its tag lines, with the line structure of the file; nothing else"""
    p = ctx.prog
    bad, soft = [], []
    en = p.enum("Maike::SourceFileInfoLoaders::TagFilterOutput")
    kinds = {str(v): k for k, v in en.items()}
    m = ctx.machine(max_states=150000)
    g = G(sp=spec.start, strs=(), last=(None, None), dir=None, match=None, owed=(), src=None, soft=0)
    tx = Text(m, g)
    alphabet = bytes_used(ctx, f)

    def say(st, key, msg, loc=None):
        (soft if g.get(st, "soft") else bad).append((key, loc or floc(f), msg))
        return []

    def behind(st, loc):
        if g.get(st, "owed"):
            return say(st, "newline" if g.get(st, "owed") == (10,) else "lost", "the end of a line does not reach the tags" if g.get(st, "owed") == (10,) else "text of a tag is lost", loc)
        if copy and g.get(st, "src") is not None:
            return say(st, "source", "not all of the source is passed on", loc)

    def h_getchar(m, st, i, fn, args):
        out = behind(st, i.loc)
        if out is not None:
            return out
        out = []
        sp = g.get(st, "sp")
        for c in alphabet:
            for new, seg, ev in spec.step(sp, c):
                s2 = st.copy()
                tx.read(s2, sp, new, c, seg if seg != "TAGS" else None)
                g.put(s2, sp=new, match=new[2] if new[0] == "rawend" else g.get(st, "match") if c == 34 and sp[0] == "rawend" else None,
                      owed=(c,) if seg == "TAGS" or c == 10 else (), src=c if copy else None)
                out.append((s2, c))
        g.put(st, sp=("end", 0), strs=tuple((q, ("empty",)) for q, v in g.get(st, "strs")), last=(None, None), match=None)
        out.append((st, 0xffffffff))
        return out

    def h_put(m, st, i, fn, args):
        k = re.search(r"TagFilterOutput\)(\d+)>", fn.dn)
        k = kinds.get(k.group(1)) if k else None
        c = args[1]
        if k is None:
            raise AnalysisBroken("where output of the filter goes is unknown")
        if not isinstance(c, int):
            raise AnalysisBroken("what the filter puts out is unknown")
        c &= 255
        sp = g.get(st, "sp")
        if k == "Tags":
            owed = g.get(st, "owed")
            if owed and c == owed[0]:
                g.put(st, owed=())
            elif c > 32 or c == 10:
                return say(st, "text" if sp[0] == "tagline" else "spurious", "the text of a tag is changed" if sp[0] == "tagline" else "text that is not part of a tag is taken for one" if c != 10 else "a line is counted twice", i.loc)
            elif sp[0] == "tagline" and owed:
                return say(st, "text", "the text of a tag is changed", i.loc)
        elif copy:
            if g.get(st, "src") != c:
                return say(st, "source2", "the source passed on is not what was read", i.loc)
            g.put(st, src=None)
        return [(st, args[0])]
    m.hooks = [(re.compile(r"^Maike::Io::InputBuffer::getchar$"), h_getchar), (re.compile(r"^Maike::Io::(InputBuffer::~?InputBuffer|OutputBuffer::(~?OutputBuffer|flush))$|^Maike::Io::Reader::"), quiet),
               (re.compile(r"^Maike::Io::OutputBuffer::putchar$"), h_put)] + tx.hooks()
    mem = {("This",): {"hv": True}, ("Input",): {"hv": True}}
    m.run([m.start(f, [THIS, ("p", ("Input",), 0)] + [("p", ("W%d" % k,), 0) for k in range(4)], ghost=g.init, mem=mem, roots=[THIS])])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind != "ret":
            continue
        n += 1
        behind(st, floc(f))
        if g.get(st, "sp")[0] != "end":
            say(st, "early", "tags are taken from the beginning of a file only")
    if soft or not n and not bad:
        raise AnalysisBroken("the filter could not be followed: %s" % soft[:1])
    for x in ("every tag line", "nothing else", "lines", "to the end") + (("source",) if copy else ()):
        ctx.oblige(name + ": " + x, True)
    report(ctx, name, bad, floc(f))


def cxx_tags(ctx):
    """tags in C++ files: exactly the text of tag comments reaches the parser"""
    f = ctx.prog.one(r"^Cxx::SourceFileLoader::filterInput$", lambda f: len(f.params) == 6)
    tag_lines(ctx, f, Cxx(True), "tags of C++ files", True)


def ext_tags(ctx):
    """tags in scripts: exactly the text after the tag marks reaches the parser"""
    f = ctx.prog.one(r"^Extension::SourceFileLoader::filterInput$", lambda f: len(f.params) == 6)
    tag_lines(ctx, f, Hash(), "tags of # files", True)
