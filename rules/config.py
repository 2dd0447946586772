"""The configuration: how files are merged, read, written and used."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .common import field, Cover, elem_of, find_term, MapWalk
from .sources import G, STRING, quiet, RTE
from .tasks import report, THIS
from .scan import path_hooks
from .loading import json_hooks, jval, jkey, PATHCTOR
from .recipes import H, NOPE, P, Built, EMPTY, COMP, is_empty

KV = "Maike::KeyValueStore::"
TYPES = ["object", "array", "string", "integer", "real", "true", "false", "null"]
ITKEY = ("p", ("sym", ("t", "itkey")), 0)
ITVAL = P("ItemB")


class ObjIter:
    """iteration over the entries of one JSON object: ghost components 'it' (None, "in", "end") and what `leave` looks at"""

    def __init__(self, m, g, obj, leave):
        self.m, self.g, self.obj, self.leave = m, g, obj, leave

    def hooks(self):
        g, obj = self.g, self.obj

        def step(st, k):
            s2 = st.copy()
            g.put(st, it="end")
            g.put(s2, it="in")
            return [(st, 0), (s2, P("It%d" % k))]

        def h_first(m, st, i, fn, args):
            if args[0] != obj:
                return None
            return step(st, 0)

        def h_next(m, st, i, fn, args):
            if args[0] != obj or not isit(args[1]):
                return None
            self.leave(st, i)
            return step(st, 1 - int(args[1][1][0][2:]))

        def isit(q):
            return q in (P("It0"), P("It1"))

        def h_key(m, st, i, fn, args):
            return [(st, ITKEY)] if isit(args[0]) else None

        def h_val(m, st, i, fn, args):
            return [(st, ITVAL)] if isit(args[0]) else None
        return [H("^json_object_iter$", h_first), H("^json_object_iter_next$", h_next), H("^json_object_iter_key$", h_key), H("^json_object_iter_value$", h_val)]

    roots = [P("It0"), P("It1"), ITKEY, ITVAL]


def handle_of(m, st, a):
    """what a stored value is: a reference to a JSON value, or something made"""
    if not is_ptr(a):
        return None
    t = m.tag(st, a)
    if is_term(t) and t[1] != "tag0":
        return t
    v = m.load(st, a, 8, "p", peek=True)
    return v if is_ptr(v) else None


def objects_merged(ctx):
    """Compound |=: later settings extend and replace earlier ones, entry by entry"""
    p = ctx.prog
    bad = []
    f = p.one(r"^%soperator\|=$" % KV, lambda f: "Compound&, %sCompoundRefConst" % KV in f.dn)
    A, OBJB, INA, SRC, HA = P("A"), P("ObjB"), P("ItemA"), P("Src"), P("ObjA")
    hoff = field(p, KV + "Compound", lambda n, t: "JsonHandle" in t, "the handle")
    combos = [(None, tb) for tb in range(8)] + [(ta, tb) for ta in range(8) for tb in range(8)]
    for ta, tb in combos:
        m = ctx.machine(max_states=6000)
        g = G(it=None, done=None)

        def leave(st, i):
            if g.get(st, "done") is None:
                bad.append(("lost", i.loc, "a setting of the later object is lost"))
            g.put(st, done=None)
        oi = ObjIter(m, g, OBJB, leave)

        def h_get(m, st, i, fn, args):
            if args[1] != ITKEY or args[0] != HA:
                return None
            return [(st, 0 if ta is None else INA)]

        def h_handle(m, st, i, fn, args):
            return [(st, HA if args[0] == ("p", ("A",), hoff) else TOP)]

        def copyof(kind):
            def h(m, st, i, fn, args):
                t = m.tag(st, args[1]) if len(args) == 2 and is_ptr(args[1]) else None
                if is_term(t) and t[1] in ("copy", "joined"):
                    m.settag(st, args[0], t)
                    return [(st, None)]
                v = args[1] if len(args) == 3 else handle_of(m, st, args[1]) if len(args) == 2 else None
                if v is None:
                    return None
                m.havoc_range(st, args[0], 40)
                m.settag(st, args[0], ("t", "copy", v))
                return [(st.copy(), Throw("_ZTISt9bad_alloc")), (st, None)]
            return h

        def h_or(m, st, i, fn, args):
            # sret, a, handle, source
            if len(args) != 4:
                return None
            t = m.tag(st, args[1])
            m.havoc_range(st, args[0], 40)
            m.settag(st, args[0], ("t", "joined", t, args[2]))
            return [(st.copy(), Throw("_ZTISt9bad_alloc")), (st, None)]

        def h_ore(m, st, i, fn, args):
            if fn.name == f.name and args[0] == A:
                return None
            if len(args) != 3:
                return None
            m.settag(st, args[0], ("t", "joined", m.tag(st, args[0]), args[1]))
            return [(st.copy(), Throw("_ZTISt9bad_alloc")), (st, args[0])]

        def h_set(m, st, i, fn, args):
            if args[0] != A:
                return None
            v = handle_of(m, st, args[2])
            if args[1] != ITKEY:
                bad.append(("key", i.loc, "a setting is stored under another name"))
            if g.get(st, "done") is not None:
                bad.append(("twice", i.loc, "a setting is stored twice"))
            if ta is None or ta == tb and ta > 1:
                if v not in (ITVAL, ("t", "copy", ITVAL)):
                    bad.append(("replace", i.loc, "the value of a later setting is not the one that is used"))
            elif ta == tb:
                if v != ("t", "joined", ("t", "copy", INA), ITVAL):
                    bad.append(("join", i.loc, "two %ss are not joined, the earlier one first" % TYPES[ta]))
            else:
                bad.append(("mismatch", i.loc, "settings of different types (%s and %s) replace each other" % (TYPES[ta], TYPES[tb])))
            g.put(st, done=1)
            return [(st.copy(), Throw("_ZTISt9bad_alloc")), (st, args[0])]
        m.hooks = oi.hooks() + [H("^json_object_get$", h_get), H(KV + r"JsonHandle::handle$", h_handle), H(KV + r"(Compound::Compound|Array::Array)$", copyof(0)), H(KV + r"(Compound::~Compound|Array::~Array)$", NOPE),
                                H(KV + r"operator\|$", h_or), H(KV + r"operator\|=$", h_ore), H(KV + r"Compound::set$", h_set), (STRING, quiet)]
        st = m.start(f, [A, OBJB, SRC], ghost=g.init, mem={(x,): {"hv": True} for x in ("A", "ObjB", "ItemA", "ItemB", "Src", "ObjA")}, roots=oi.roots + [INA, HA, OBJB, A, SRC])
        for o, t in (("ItemA", ta), ("ItemB", tb)):
            if t is not None:
                m.store(st, ("p", (o,), 0), 4, t)
        m.store(st, ("p", ("ObjB",), 0), 4, 0)
        m.run([st])
        ctx.absorb(m)
        n = e = 0
        for kind, v, st in m.outcomes:
            if kind == "ret":
                n += 1
                if g.get(st, "it") != "end":
                    bad.append(("end", floc(f), "not every setting of the later object is looked at"))
                if v != A:
                    bad.append(("res", floc(f), "merging results in another object"))
            elif kind == "exc" and v[1] != "_ZTISt9bad_alloc" and (ta is None or ta == tb):
                bad.append(("rejected", floc(f), "settings of the same type (%s) cannot be merged" % TYPES[tb]))
        if not n:
            raise AnalysisBroken("merging objects could not be followed")
        ctx.oblige("merging %s into %s" % (TYPES[tb], "nothing" if ta is None else TYPES[ta]), True)
    report(ctx, "merged objects", bad, floc(f))


def lists_joined(ctx):
    """Array |=: every element of the later list, in order, after the earlier ones"""
    p = ctx.prog
    bad = []
    f = p.one(r"^%soperator\|=$" % KV, lambda f: "Array&, %sArrayRefConst" % KV in f.dn)
    A, ARR, SRC = P("A"), jval(b"list"), P("Src")
    m = ctx.machine(max_states=6000)
    g = G(keys=(), cov=())
    cv = Cover(m, 16)

    def h_append(m, st, i, fn, args):
        if args[0] != A:
            return None
        v = handle_of(m, st, args[1])
        c = cv.visit(g.get(st, "cov"), v) if v is not None else None
        if c is None:
            bad.append(("other", i.loc, "something else than the elements of the later list is added"))
        elif c == g.get(st, "cov") and not any(x[1] == "many" or x[2] == "many" for x in c):
            bad.append(("again", i.loc, "the elements of the later list are not added once, in order"))
        else:
            g.put(st, cov=c)
        return [(st.copy(), Throw(RTE)), (st, args[0])]
    m.hooks = [H(KV + r"Array::append$", h_append), (STRING, quiet)] + json_hooks(m, g, bad)
    AT = ("t", "jarr", b"list")
    st = m.start(f, [A, ARR, SRC], ghost=g.init, mem={(x,): {"hv": True} for x in ("A", "Src")}, roots=[ARR, A, SRC, ("t", "vsize", AT)])
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            _, fr, bk = cv.get(g.get(st, "cov"), AT)
            ok = fr == "many" or fr > 2 or m.cmp(st, "eq", fr, ("t", "vsize", AT), 64) == 1 or m.cmp(st, "ult", fr, ("t", "vsize", AT), 64) == 0
            if not ok:
                bad.append(("lost", floc(f), "an element of the later list is lost"))
            if v != A:
                bad.append(("res", floc(f), "joining results in another list"))
    if not n:
        raise AnalysisBroken("joining lists could not be followed")
    ctx.oblige("joining lists: every element", True)
    ctx.oblige("joining lists: in order", True)
    for sn, cls in (("Compound", "CompoundRefConst"), ("Array", "ArrayRefConst")):
        # the operators made of these
        for f2 in p.find(r"^%soperator\|=?$" % KV):
            if not f2.blocks or f2 is f or not re.search(r"%s(&&|&), %s(%s( const&)?|%s)\)" % (sn, KV, sn, cls), f2.dn) or f2.sn.endswith("|=") and cls in f2.dn:
                continue
            m = ctx.machine(max_states=3000)
            g2 = G(n=0)
            sret = f2.sn.endswith("|")
            L, R, OUT = P("L"), P("R"), P("Out")

            def h_ore(m, st, i, fn, args):
                if len(args) != 3:
                    return None
                ok = args[0] == L or m.tag(st, args[0]) == ("t", "left")
                if not ok or args[1] != P("RH"):
                    bad.append(("order", i.loc, "settings are merged the wrong way round"))
                g2.put(st, n=g2.get(st, "n") + 1)
                m.settag(st, args[0], ("t", "both"))
                return [(st.copy(), Throw(RTE)), (st, args[0])]

            def h_move(m, st, i, fn, args):
                if len(args) == 2 and is_ptr(args[1]):
                    m.settag(st, args[0], m.tag(st, args[1]))
                    return [(st, None)]
                return None

            def h_ref(m, st, i, fn, args):
                return [(st, ("agg", (P("RH"), P("RS"))) if args[0] == R else TOP)]
            m.hooks = [H(KV + r"operator\|=$", lambda m, st, i, fn, args: h_ore(m, st, i, fn, args) if fn.name != f2.name else None), H(KV + r"%s::%s$" % (sn, sn), h_move), H(KV + r"%s::reference$" % sn, h_ref)]
            args = ([OUT] if sret else []) + [L] + ([P("RH"), P("RS")] if cls in f2.dn else [R])
            if len(args) != len(f2.params):
                continue
            st = m.start(f2, args, ghost=g2.init, mem={(x,): {"hv": True} for x in ("L", "R", "Out", "RH", "RS")}, roots=args + [P("RH"), P("RS")])
            m.settag(st, L, ("t", "left"))
            m.run([st])
            ctx.absorb(m)
            for kind, v, st in m.outcomes:
                if kind == "ret" and (g2.get(st, "n") != 1 or (m.tag(st, OUT) != ("t", "both") if sret else v != L)):
                    bad.append(("op", floc(f2), "the result of merging settings is not what was merged"))
            ctx.oblige("operator %s of %s" % (f2.sn.split("::")[-1], sn), True)
    report(ctx, "joined lists", bad, floc(f))


# ---------------------------------------------------------------- reading settings
INTS = (0, 1, 2)


def textof(key):
    return ("t", "text", ("p", ("sym", ("t", "jstr", jval(key))), 0))


def read_hooks(m, g, bad, f):
    """what is read from a JSON object: texts, numbers, copies of parts, other classes"""
    def h_int(m, st, i, fn, args):
        k = jkey(args[0])
        if k is None:
            return None
        n = dict(g.get(st, "ints"))
        if k in n:
            return [(st, n[k])]
        out = []
        for v in INTS:
            s = st.copy()
            g.put(s, ints=tuple(sorted(list(n.items()) + [(k, v)])))
            out.append((s, v))
        return out

    def h_made(m, st, i, fn, args):
        # an object made of a reference to a JSON value: (this, value, source), or copied
        if fn.name == f.name:
            return None
        if len(args) == 3 and jkey(args[1]) is not None:
            m.settag(st, args[0], ("t", "read", jkey(args[1])))
            return [(st.copy(), Throw(RTE)), (st, None)]
        if len(args) == 2 and is_ptr(args[1]):
            v = m.load(st, args[1], 8, "p", peek=True)
            t = ("t", "read", jkey(v)) if jkey(v) is not None else m.tag(st, args[1])
            m.settag(st, args[0], t)
            return [(st, args[0] if i.d >= 0 else None)]
        return None

    def h_json(m, st, i, fn, args):
        if fn.name == f.name or len(args) != 3 or jkey(args[1]) is None:
            return None
        m.havoc_range(st, args[0], 8)
        m.settag(st, args[0], ("t", "read", jkey(args[1])))
        return [(st.copy(), Throw(RTE)), (st, None)]
    return [H("^json_integer_value$", h_int), H(r"(Compound::Compound|SourceTreeLoader::Config::Config|SourceFileInfoLoaders::Config::Config|InputFilter::InputFilter|Db::Compiler::Compiler)$", h_made),
            H(r"(Db|SourceFileInfoLoaders|SourceTreeLoader)::fromJson$", h_json), H(r"(Compound|Config|InputFilter|Compiler|JsonHandle)::~\w+$", NOPE)]


def known(m, st, g, key):
    return dict(g.get(st, "keys")).get(key)


def run_reader(ctx, f, args, hooks, size, g, bad, extra=(), n=20000):
    m = ctx.machine(max_states=n)
    OUT = args[0]
    m.hooks = list(hooks(m)) + read_hooks(m, g, bad, f) + json_hooks(m, g, bad) + [PATHCTOR] + path_hooks()
    st = m.start(f, args, ghost=g.init, mem={(x[1][0],): {"hv": True} for x in args if is_ptr(x) and type(x[1][0]) is str and x[1][0] != "sym"}, roots=list(args) + list(extra))
    m.run([st])
    ctx.absorb(m)
    r = [st for kind, v, st in m.outcomes if kind == "ret"]
    if not r:
        raise AnalysisBroken("%s could not be followed" % f.sn)
    return m, r


def read_forms(ctx):
    """reading a recipe's settings, the settings of the loaders, and the configuration as a whole"""
    p = ctx.prog
    bad = []
    OUT, SRC = P("Out"), P("Src")
    OBJ = jval(b"object")
    at = lambda o, k=0: ("p", ("Out",), o + k)
    offs = lambda c: {x[0]: x[1] for x in p.types[c]["m"]}

    def text_is(m, st, a, key, g, optional=True):
        t = m.tag(st, a)
        if known(m, st, g, key) == 0 and optional:
            return is_empty(m, st, t) == 1
        return t == textof(key)
    # ---- a recipe
    f = p.one(r"^Maike::Db::fromJson$", lambda f: "Db::Compiler>" in f.dn)
    o = offs(COMP)
    g = G(keys=(), ints=())
    m, rets = run_reader(ctx, f, [OUT, OBJ, SRC], lambda m: [], 96, g, bad)
    for st in rets:
        if not text_is(m, st, at(o["m_recipe"]), b"recipe", g):
            bad.append(("recipe", floc(f), "the name of the recipe in the configuration is not the one used"))
        if m.tag(st, at(o["m_config"])) != ("t", "read", b"config"):
            bad.append(("config", floc(f), "the settings of a recipe in the configuration are not the ones used"))
        u = m.load(st, at(o["m_use_get_tags"]), 1, "i8", peek=True)
        k = known(m, st, g, b"use_get_tags")
        w = 0 if not k else int(dict(g.get(st, "ints")).get(b"use_get_tags", -1) != 0)
        if k is None or u != w or k and b"use_get_tags" not in dict(g.get(st, "ints")):
            bad.append(("tags", floc(f), "whether a recipe is asked for tags is not what the configuration says"))
    for k in ("recipe", "config", "use_get_tags"):
        ctx.oblige("recipe settings: " + k, True)
    # ---- targets named by extension
    f = p.one(r"^Generic::fromJson$", lambda f: "Generic::SourceFileLoader>" in f.dn)
    o = offs("Generic::SourceFileLoader")
    en = p.enum("Generic::FilenameExtReplacementMode")
    KM = b"filename_ext_replacement_mode"
    g = G(keys=(), ints=(), mode=None)

    def h_opt(m, st, i, fn, args):
        # an optional number that is returned in a register
        if "optional<Generic::FilenameExtReplacementMode>" not in fn.dn or OBJ not in (args[0], m.load(st, args[0], 8, "p", peek=True)):
            return None
        k = m.cstr(st, args[-1])
        if k is None:
            return None
        s0 = st.copy()
        n = dict(g.get(st, "keys"))
        g.put(s0, keys=tuple(sorted(list(n.items()) + [(k, 0)])))
        out = [(s0, 0), (st.copy(), Throw(RTE))]
        for v in sorted(set(en.values())):
            s = st.copy()
            g.put(s, mode=v if k == KM else None, keys=tuple(sorted(list(n.items()) + [(k, 1)])))
            out.append((s, v | 1 << 32))
        return out
    # the value itself
    f1 = p.one(r"^Generic::fromJson$", lambda f: "FilenameExtReplacementMode>" in f.dn)
    g1 = G(keys=(), ints=(), mode=None)

    def h_text(m, st, i, fn, args):
        if not is_ptr(args[-1]) or find_term(args[-1], "jstr") is None or jkey(find_term(args[-1], "jstr")[2]) != b"object":
            bad.append(("mode", i.loc, "the way to name targets is read from something else"))
        return [(st.copy(), Throw(RTE)), (st, ("t", "mode"))]
    m, rets = run_reader(ctx, f1, [OBJ, SRC], lambda m: [H(r"^Generic::fromString$", h_text)], 0, g1, bad)
    if [v for kind, v, st in m.outcomes if kind == "ret" and v != ("t", "mode")]:
        bad.append(("mode", floc(f1), "the way to name targets in the configuration is not the one used"))
    m, rets = run_reader(ctx, f, [OUT, OBJ, SRC], lambda m: [H(r"^%s(CompoundRefConst|Compound)::getIf$" % KV, h_opt)], 40, g, bad)
    for st in rets:
        if not text_is(m, st, at(o["m_target_filename_ext"]), b"target_filename_ext", g, False):
            bad.append(("ext", floc(f), "the extension of targets in the configuration is not the one used"))
        v = m.load(st, at(o["m_filename_ext_replacement_mode"]), 4, "i32", peek=True)
        k = known(m, st, g, KM)
        if k is None or v != (g.get(st, "mode") if k else en["Append"]) or k and g.get(st, "mode") is None:
            bad.append(("mode", floc(f), "the way to name targets in the configuration is not the one used"))
    ctx.oblige("generic loader: extension", True)
    ctx.oblige("generic loader: mode", True)
    # ---- the whole
    f = p.one(r"^Maike::Config::Config$", lambda f: "CompoundRefConst" in f.dn)
    o = offs("Maike::Config")
    g = G(keys=(), ints=())
    m, rets = run_reader(ctx, f, [OUT, OBJ, SRC], lambda m: [], 296, g, bad)
    for st in rets:
        for mem, key in (("m_source_tree_loader", b"source_tree_loader"), ("m_source_file_info_loaders", b"source_file_info_loaders"), ("m_dir_compiler", b"dir_compiler")):
            if m.tag(st, at(o[mem])) != ("t", "read", key):
                bad.append((mem, floc(f), "`%s` of the configuration is not what is used" % key.decode()))
            ctx.oblige("configuration: " + key.decode(), True)
    report(ctx, "read", bad, floc(f))


def jkey_text(q):
    t = find_term(q, "jstr") if is_ptr(q) else None
    return jkey(t[2]) if t is not None else None


# ---------------------------------------------------------------- reading lists and maps
def read_lists(ctx):
    """input filters and generated includes: every element of the list, in order"""
    p = ctx.prog
    bad = []
    LT = ("t", "jarr", b"object")
    for what, f, dest in (("input filters", p.one(r"InputFilter::InputFilter$", lambda f: "ArrayRefConst" in f.dn), None),
                          ("generated includes", p.one(r"^Cxx::fromJson$", lambda f: "Cxx::SourceFileLoader>" in f.dn), b"generated_includes")):
        key = dest or b"object"
        LT = ("t", "jarr", key)
        OUT, SRC = P("Out"), P("Src")
        m0 = ctx.machine(max_states=1)
        g = G(keys=(), ints=(), cov=(), vec=None, used=None)
        box = []

        def h_push(m, st, i, fn, args):
            cv = box[0]
            if "basic_string" not in fn.dn or len(args) < 2:
                return None
            t = m.tag(st, args[1])
            q = find_term(t, "jstr") if is_term(t) else find_term(args[1], "jstr")
            c = cv.visit(g.get(st, "cov"), q[2]) if q is not None else None
            if c is None:
                bad.append((what[:3] + "other", i.loc, "something else than the %s of the configuration is used" % what))
            elif c == g.get(st, "cov") and not any(x[1] == "many" for x in c):
                bad.append((what[:3] + "again", i.loc, "the %s are not used once each, in order" % what))
            else:
                g.put(st, cov=c)
            if g.get(st, "vec") not in (None, args[0]):
                bad.append((what[:3] + "apart", i.loc, "the %s are put in different lists" % what))
            m.settag(st, args[0], ("t", "list", key))
            g.put(st, vec=args[0])
            return [(st.copy(), Throw(RTE)), (st, ("p", ("sym", ("t", "last")), 0) if i.d >= 0 else None)]

        def h_vec(m, st, i, fn, args):
            if "basic_string" not in fn.dn or len(args) != 2 or not is_ptr(args[1]):
                return None
            if g.get(st, "vec") == args[1]:
                g.put(st, vec=args[0])
            return [(st, args[0] if i.d >= 0 else None)]

        def h_use(m, st, i, fn, args):
            # the list is handed over
            if fn.name == f.name or len(args) != 2:
                return None
            if "vector" not in fn.dn:
                return None
            cv = box[0]
            _, fr, bk = cv.get(g.get(st, "cov"), LT)
            if dest and known(m, st, g, key) == 0:
                ok = fr == 0
            else:
                ok = fr == "many" or fr > 2 or m.cmp(st, "eq", fr, ("t", "vsize", LT), 64) == 1 or m.cmp(st, "ult", fr, ("t", "vsize", LT), 64) == 0
            if not ok or g.get(st, "vec") not in (None, args[1]):
                bad.append((what[:3] + "lost", i.loc, "an element of the %s of the configuration gets lost" % what))
            g.put(st, used=args[0])
            return [(st.copy(), Throw(RTE)), (st, args[0] if i.d >= 0 else None)]

        def mk(m):
            box.append(Cover(m, 16))
            return [H(r"^std::vector::(push_back|emplace_back)$", h_push), H(r"^std::vector::(vector|operator=)$", h_vec), H(r"InputFilter::source$|^Cxx::SourceFileLoader::SourceFileLoader$", h_use),
                    H(r"^std::vector::reserve$", NOPE), H(r"^std::vector::~vector$", NOPE)]
        m, rets = run_reader(ctx, f, [OUT, jval(b"object"), SRC], mk, 48, g, bad, extra=[("t", "vsize", LT)])
        for st in rets:
            if g.get(st, "used") != OUT:
                bad.append((what[:3] + "unused", floc(f), "the %s of the configuration are not used" % what))
        ctx.oblige("%s: every element" % what, True)
        ctx.oblige("%s: used" % what, True)
    report(ctx, "lists", bad, floc(f))


def read_maps(ctx):
    """which loader is used for which names, and the loaders"""
    p = ctx.prog
    bad = []
    OUT, SRC = P("Out"), P("Src")
    KTEXT = ("t", "text", ITKEY)
    VTEXT = ("t", "text", ("p", ("sym", ("t", "jstr", ITVAL)), 0))
    # ---- names of files -> name of the loader
    f = p.one(r"SourceTreeLoader::Config::Config$", lambda f: "CompoundRefConst" in f.dn)
    o = {x[0]: x[1] for x in p.types["Maike::SourceTreeLoader::Config"]["m"]}
    MAP = ("p", ("Out",), o["m_file_info_loaders"])
    g = G(keys=(), ints=(), it=None, done=None)

    def leave(st, i):
        if g.get(st, "done") is None:
            bad.append(("lost", i.loc, "an entry of the configuration is lost"))
        g.put(st, done=None)

    def h_text(m, st, i, fn, args):
        if len(args) >= 2 and (args[1] == ITKEY or args[1] == VTEXT[2]):
            m.havoc_range(st, args[0], 32)
            m.settag(st, args[0], ("t", "text", args[1]))
            return [(st, None)]
        if len(args) == 2 and is_ptr(args[1]) and is_term(m.tag(st, args[1])) and m.tag(st, args[1])[1] == "text":
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        return None

    def h_put(m, st, i, fn, args):
        k = 2 if i.d >= 0 and i.t == "p" and len(args) == 4 else 1
        if args[0] != MAP:
            bad.append(("where", i.loc, "an entry of the configuration is stored elsewhere"))
        if (m.tag(st, args[-2]), m.tag(st, args[-1])) != (KTEXT, VTEXT):
            bad.append(("entry", i.loc, "a kind of files gets another loader than in the configuration"))
        g.put(st, done=1)
        return [(st.copy(), Throw(RTE)), (st, m.fresh(st, "put", i.t) if i.d >= 0 and i.t != "s" else ("agg", (P("Node"), 1)) if i.d >= 0 else None)]
    def mk(m):
        oi = ObjIter(m, g, jval(b"file_info_loaders"), leave)
        return oi.hooks() + [H(r"basic_string::basic_string$", h_text), H(r"^std::map::(insert_or_assign|emplace|insert|try_emplace)$", h_put)]
    m, rets = run_reader(ctx, f, [OUT, jval(b"object"), SRC], mk, 152, g, bad, extra=ObjIter.roots)
    for st in rets:
        if m.tag(st, ("p", ("Out",), o["m_filter"])) != ("t", "read", b"input_filter"):
            bad.append(("filter", floc(f), "the filter for names in the configuration is not the one used"))
        if m.tag(st, ("p", ("Out",), o["m_dir_filter"])) != ("t", "read", b"fullpath_input_filter"):
            bad.append(("pathfilter", floc(f), "the filter for whole paths in the configuration is not the one used"))
        u = m.load(st, ("p", ("Out",), o["m_recursive"]), 1, "i8", peek=True)
        r = dict(g.get(st, "ints")).get(b"recursive")
        if r is None or u != int(r != 0):
            bad.append(("recursive", floc(f), "whether subdirectories are loaded is not what the configuration says"))
        if g.get(st, "it") != "end":
            bad.append(("end", floc(f), "not every entry of the configuration is looked at"))
    for k in ("input_filter", "fullpath_input_filter", "recursive", "file_info_loaders"):
        ctx.oblige("source tree settings: " + k, True)

    # ---- the loaders
    f = p.one(r"SourceFileInfoLoaders::Config::Config$", lambda f: "CompoundRefConst" in f.dn)
    want = {b"app": "App", b"cxx_src_loader": "Cxx", b"extension": "Extension", b"maikerule": "Maikerule", b"generic": "Generic", b"lib": "Lib"}
    names = {}
    for ns in want.values():
        for f3 in p.find(r"^%s::SourceFileLoader::name$" % ns):
            m3 = ctx.machine(max_states=100)
            m3.run([m3.start(f3, [], ghost=())])
            ctx.absorb(m3)
            names[ns] = {m3.cstr(st, v) for kind, v, st in m3.outcomes if kind == "ret"}
            if names[ns] != {k for k, v in want.items() if v == ns}:
                bad.append(("name-" + ns, floc(f3), "the written form of the %s loader names another one" % ns))
    for ns in sorted(names):
        ctx.oblige("name of the %s loader" % ns, True)
    NAME = ("p", ("sym", ("t", "jstr", jval(b"loader"))), 0)
    from .forms import text_hooks
    from . import forms
    g = G(keys=(), ints=(), it=None, done=None, text=(), odd=0)

    def leave2(st, i):
        leave(st, i)
        g.put(st, text=(), keys=())

    def h_as(m, st, i, fn, args):
        return None

    def h_loader(m, st, i, fn, args):
        # a loader made of its kind and a recipe: this, kind, optional recipe
        if len(args) != 3:
            if len(args) == 2 and is_ptr(args[1]):
                m.settag(st, args[0], m.tag(st, args[1]))
                return [(st, None)]
            return None
        ns = re.search(r"Loader<(?:std::unique_ptr<)?(\w+)::SourceFileLoader", fn.dn)
        m.settag(st, args[0], ("t", "loader", ns.group(1) if ns else "?", m.tag(st, args[1]), m.tag(st, args[2])))
        return [(st.copy(), Throw(RTE)), (st, None)]

    def h_kind(m, st, i, fn, args):
        if len(args) == 1:
            m.settag(st, args[0], ("t", "default"))
            return [(st, None)]
        if len(args) == 2 and is_ptr(args[1]):
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        return None

    def h_kindjson(m, st, i, fn, args):
        if jkey(args[1]) is None:
            return None
        m.settag(st, args[0], ("t", "read", jkey(args[1])))
        return [(st.copy(), Throw(RTE)), (st, None)]

    def h_opt(m, st, i, fn, args):
        # a recipe that was read, in an optional
        if len(args) == 2 and is_ptr(args[1]) and "Compiler" in fn.dn:
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        return None

    def h_put2(m, st, i, fn, args):
        if args[0] != ("p", ("Out",), 0):
            bad.append(("where", i.loc, "a loader of the configuration is stored elsewhere"))
        kt = args[-2] if args[-2] == ITKEY else m.load(st, args[-2], 8, "p", peek=True)
        if kt != ITKEY and m.tag(st, args[-2]) != KTEXT:
            bad.append(("key", i.loc, "a loader of the configuration gets another name"))
        t = m.tag(st, args[-1])
        x = g.get(st, "text")
        if not (is_term(t) and t[1] == "loader"):
            raise AnalysisBroken("the loaders of the configuration could not be followed")
        if not isinstance(x, bytes) or t[2] != want.get(x):
            bad.append(("kind", i.loc, "a loader of the configuration is of another kind than it says"))
        if t[4] != ("t", "read", b"compiler"):
            bad.append(("compiler", i.loc, "a loader of the configuration gets another recipe than it says"))
        if x in (b"cxx_src_loader", b"generic"):
            k = known(m, st, g, b"config")
            if k is None or t[3] != (("t", "read", b"config") if k else ("t", "default")):
                bad.append(("settings", i.loc, "a loader of the configuration gets other settings than it says"))
        g.put(st, done=1)
        return [(st.copy(), Throw(RTE)), (st, m.fresh(st, "put", i.t) if i.d >= 0 and i.t != "s" else ("agg", (P("Node"), 1)) if i.d >= 0 else None)]

    def mk2(m):
        oi = ObjIter(m, g, jval(b"object"), leave2)
        old = forms.TEXT
        hs = text_hooks(g, NAME)
        return oi.hooks() + [H(r"Loader::Loader$", h_loader), H(r"^(App|Cxx|Extension|Maikerule|Generic|Lib)::SourceFileLoader::SourceFileLoader$", h_kind), H(r"^(Cxx|Generic)::fromJson$", h_kindjson),
                             H(r"^std::(optional|_Optional_\w+)::(optional|_Optional_\w+)$", h_opt), H(r"^std::map::(insert_or_assign|emplace|insert|try_emplace)$", h_put2),
                             H(r"(Loader|Compiler|SourceFileLoader|optional|map|_Optional_\w+)::~\w+$", NOPE), H(r"basic_string::basic_string$", h_text)] + hs
    m, rets = run_reader(ctx, f, [OUT, jval(b"object"), SRC], mk2, 48, g, bad, extra=ObjIter.roots + [NAME], n=60000)
    for st in rets:
        if g.get(st, "it") != "end":
            bad.append(("end", floc(f), "not every loader of the configuration is looked at"))
    seen = set()
    for k in sorted(want):
        ctx.oblige("loader kind: " + k.decode(), True)
    report(ctx, "maps", bad, floc(f))


# ---------------------------------------------------------------- writing settings
def written_forms(ctx):
    """what is printed as the configuration has every setting under the name it is read from"""
    p = ctx.prog
    bad = []
    from .forms import Elems, TEXTS
    OUT, SELF = P("Out"), P("Self")

    def run(f, cls, stored, tags, hooks=lambda m, g, b: [], extra=(), ghost=None, built=Built):
        m = ctx.machine(max_states=20000)
        g = G(js=(), **(ghost or {}))
        b = built(m, g, bad)
        m.hooks = list(hooks(m, g, b)) + b.hooks() + path_hooks()
        st = m.start(f, [OUT, SELF], ghost=g.init, mem={("Out",): {"hv": True}, ("Self",): {"hv": True}}, roots=[OUT, SELF] + list(extra))
        for off, sz, v in stored:
            m.store(st, ("p", ("Self",), off), sz, v)
        for off, t in tags:
            m.settag(st, ("p", ("Self",), off), t)
        m.run([st])
        ctx.absorb(m)
        out = []
        for kind, v, st in m.outcomes:
            if kind == "ret":
                o = m.tag(st, OUT)
                if not (is_term(o) and o[1] in ("obj", "list")):
                    raise AnalysisBroken("%s could not be followed" % f.dn)
                out.append((m, st, g, o))
        if not out:
            raise AnalysisBroken("%s could not be followed" % f.dn)
        return out

    said = set()

    def check(f, slot, what, got, want):
        for k, v in want.items():
            if got.get(k) != v:
                bad.append((slot + "-" + k.decode(), floc(f), "`%s` of %s is not written" % (k.decode(), what)))
            if (what, k) not in said:
                said.add((what, k))
                ctx.oblige("writing %s: %s" % (what, k.decode()), True)

    def offs(c):
        return {x[0]: x[1] for x in p.types[c]["m"]}
    one = lambda cls, ns: p.one(r"::toJson$", lambda f: re.search(r"%s::toJson\(%s const&\)" % (ns, re.escape(cls)), f.dn))
    # a recipe
    o = offs(COMP)
    f = one(COMP, "Maike::Db")
    for u in (0, 1):
        for m, st, g, r in run(f, COMP, [(o["m_use_get_tags"], 1, u)], [(o["m_recipe"], ("t", "recipe")), (o["m_config"], ("t", "settings"))]):
            check(f, "recipe", "a recipe", dict(r[2]), {b"recipe": ("t", "recipe"), b"config": ("t", "settings"), b"use_get_tags": u})
    # targets named by extension
    o = offs("Generic::SourceFileLoader")
    f = one("Generic::SourceFileLoader", "Generic")
    modes = p.enum("Generic::FilenameExtReplacementMode")
    for n, text in TEXTS[4][1].items():
        for m, st, g, r in run(f, "", [(o["m_filename_ext_replacement_mode"], 4, modes[n])], [(o["m_target_filename_ext"], ("t", "ext"))]):
            check(f, "generic", "a generic loader", dict(r[2]), {b"target_filename_ext": ("t", "ext"), b"filename_ext_replacement_mode": ("str", text)})
    # a loader
    o = offs("Maike::SourceFileInfoLoaders::Loader")
    f = one("Maike::SourceFileInfoLoaders::Loader", "SourceFileInfoLoaders")

    def h_cfg(m, g, b):
        def h(m, st, i, fn, args):
            if args[-1] != SELF:
                return None
            m.havoc_range(st, args[0], 40)
            m.settag(st, args[0], ("t", "loadersettings"))
            return [(st, None)]
        return [H(r"Loader::config$", h)]
    for m, st, g, r in run(f, "", [], [(o["m_compiler"], ("t", "recipe")), (o["m_name"], ("t", "name"))], h_cfg):
        check(f, "loader", "a loader", dict(r[2]), {b"compiler": ("t", "recipe"), b"loader": ("t", "name"), b"config": ("t", "loadersettings")})
    # the whole
    o = offs("Maike::Config")
    f = one("Maike::Config", "Maike")
    for m, st, g, r in run(f, "", [], [(o["m_source_tree_loader"], ("t", "a")), (o["m_source_file_info_loaders"], ("t", "b")), (o["m_dir_compiler"], ("t", "c"))]):
        check(f, "all", "the configuration", dict(r[2]), {b"source_tree_loader": ("t", "a"), b"source_file_info_loaders": ("t", "b"), b"dir_compiler": ("t", "c")})
    # lists
    VT = ("t", "strings")
    for what, f, off, key in (("input filters", one("Maike::SourceTreeLoader::InputFilter", "SourceTreeLoader"), offs("Maike::SourceTreeLoader::InputFilter")["m_input_filters_src"], None),
                              ("generated includes", one("Cxx::SourceFileLoader", "Cxx"), offs("Cxx::SourceFileLoader")["m_gen_includes_src"], b"generated_includes")):
        class Lists(Built):
            def hooks(self, cov=None):
                self.cover = Cover(self.m, 32)
                return Built.hooks(self)

        for m, st, g, r in run(f, "", [], [(off, VT)], extra=[("t", "vsize", VT)], built=Lists):
            v = r if key is None else dict(r[2]).get(key)
            cov, other = (v[2] if v[2] else ((), ())) if is_term(v) and v[1] == "list" else ((), ("?",))
            if other or [c for c in cov if c[0] != VT] or not Cover(m, 32).complete(st, cov, ("p", ("Self",), off)):
                bad.append(("list-" + what[:3], floc(f), "not exactly the %s are written" % what))
        ctx.oblige("writing %s" % what, True)
    # maps
    for what, f, off, wide in (("source tree settings", one("Maike::SourceTreeLoader::Config", "SourceTreeLoader"), offs("Maike::SourceTreeLoader::Config")["m_file_info_loaders"], True),
                               ("the loaders", one("Maike::SourceFileInfoLoaders::Config", "SourceFileInfoLoaders"), offs("Maike::SourceFileInfoLoaders::Config")["m_loaders"], False)):
        MAP = ("p", ("Self",), off)
        box = []

        class Maps(Elems):
            def elem(self, st, x, k, v):
                mw = box[0]
                a = find_term(k, "tag0")
                ka = ("p", a[2], a[3]) if a else None
                c = find_term(v, "tag0")
                va = ("p", c[2], c[3]) if c else v if is_ptr(v) else None
                e = mw.current(st, ka) if ka else None
                if e is None or va is None or va[1] != ka[1] or not isinstance(va[2], int) or va[2] - ka[2] != 32:
                    bad.append(("entry-" + what[-3:], floc(f), "an entry of %s is written with the name or value of another one" % what))
                    return
                mw.mark(st, ka)

        def walk(m, g, b):
            def leave(st, mp, cur, done, i):
                if mp == MAP and not done:
                    bad.append(("lost-" + what[-3:], floc(f), "an entry of %s is not written" % what))
            mw = MapWalk(m, lambda st: g.get(st, "walks"), lambda st, w: g.put(st, walks=w), leave)
            box[:] = [mw]
            return mw.hooks()
        so = offs("Maike::SourceTreeLoader::Config")
        for rec in (0, 1):
            stored = [(so["m_recursive"], 1, rec)] if wide else []
            tags = [(so["m_filter"], ("t", "f1")), (so["m_dir_filter"], ("t", "f2"))] if wide else []
            for m, st, g, r in run(f, "", stored, tags, walk, ghost={"walks": ()}, built=Maps):
                if not box[0].finished(st, MAP):
                    bad.append(("end-" + what[-3:], floc(f), "not every entry of %s is written" % what))
                d = dict(r[2])
                if wide:
                    check(f, "tree", what, d, {b"recursive": rec, b"input_filter": ("t", "f1"), b"fullpath_input_filter": ("t", "f2"), b"file_info_loaders": ("t", "obj", ())})
        ctx.oblige("writing %s: every entry" % what, True)
    report(ctx, "written", bad, floc(f))


# ---------------------------------------------------------------- using settings
def loaders_used(ctx):
    """every kind of files named in the configuration gets the loader it names, or it is an error"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::mapSourceFileInfoLoaders$")
    OUT, CFG, NAMES, LOADERS, HIT, STL, SIL = (P(x) for x in ("Out", "Cfg", "Names", "Loaders", "Found", "Stl", "Sil"))
    m = ctx.machine(max_states=20000)
    g = G(walks=(), hit=None)

    def leave(st, mp, cur, done, i):
        if mp == NAMES and not done:
            bad.append(("lost", i.loc, "a kind of files is not loaded"))
        g.put(st, hit=None)
    mw = MapWalk(m, lambda st: g.get(st, "walks"), lambda st, w: g.put(st, walks=w), leave)
    END = mw.end(LOADERS)

    def h_find(m, st, i, fn, args):
        if args[0] != LOADERS:
            return None
        e = mw.current(st, args[1])
        if e is None or e[0] != NAMES or args[1][2] != 64:
            bad.append(("which", i.loc, "a loader is not looked up by the name in the configuration"))
        s2 = st.copy()
        g.put(st, hit=0)
        g.put(s2, hit=1)
        return [(st, END), (s2, HIT)]

    def h_count(m, st, i, fn, args):
        r = h_find(m, st, i, fn, args)
        return None if r is None else [(s, 1 if v == HIT else 0) for s, v in r]

    def h_at(m, st, i, fn, args):
        if args[0] != LOADERS:
            return None
        h = g.get(st, "hit")
        out = []
        if h != 1:
            out.append((st.copy(), Throw("_ZTISt12out_of_range")))
        if h != 0:
            g.put(st, hit=1)
            out.append((st, ("p", ("Found",), 32)))
        return out

    def h_node(m, st, i, fn, args):
        v = args[0] if args[0] in (HIT, END) else m.load(st, args[0], 8, "p", peek=True)
        return [(st, v)] if v in (HIT, END) else None

    def h_put(m, st, i, fn, args):
        if args[0] != OUT:
            return None
        k = m.tag(st, args[-2])
        kq = args[-2]
        e = mw.current(st, kq)
        if e is None and is_term(k) and k[1] == "tag0":
            kq = ("p", k[2], k[3])
            e = mw.current(st, kq)
        v = m.load(st, args[-1], 8, "p", peek=True)
        if v not in (("p", ("Found",), 32),) and args[-1] != ("p", ("Found",), 32) or g.get(st, "hit") != 1:
            bad.append(("value", i.loc, "a kind of files gets a loader that was not configured for it"))
        if e is None or kq[2] != 32:
            bad.append(("key", i.loc, "a loader is used for other files than configured"))
        else:
            mw.mark(st, kq)
        return [(st.copy(), Throw(RTE)), (st, m.fresh(st, "put", i.t) if i.d >= 0 and i.t != "s" else ("agg", (P("Node"), 1)) if i.d >= 0 else None)]
    const = lambda a: lambda m, st, i, fn, args: [(st, a)] if len(args) == 1 else None
    m.hooks = [H(r"^std::map::find$", h_find), H(r"^std::map::(contains|count)$", h_count), H(r"^std::map::at$", h_at), H(r"^std::map::(insert_or_assign|emplace|insert|try_emplace|emplace_hint)$", h_put), H(r"^std::_Rb_tree_(const_)?iterator::operator(\*|->)$", h_node)] + mw.hooks() + [
        H(r"Config::sourceTreeLoader$", const(STL)), H(r"Config::fileInfoLoaders$", const(NAMES)), H(r"Config::sourceFileInfoLoaders$", const(SIL)), H(r"SourceFileInfoLoaders::Config::loaders$", const(LOADERS)),
        H(r"^std::map::map$", NOPE), (STRING, quiet)]
    st = m.start(f, [OUT, CFG], ghost=g.init, mem={(x,): {"hv": True} for x in ("Out", "Cfg", "Found")}, roots=[OUT, CFG, NAMES, LOADERS, HIT, STL, SIL, END, mw.end(NAMES)])
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            n += 1
            if not mw.finished(st, NAMES):
                bad.append(("end", floc(f), "not every kind of files in the configuration is loaded"))
    if not n:
        raise AnalysisBroken("the choice of loaders could not be followed")
    for k in ("every kind", "its loader", "missing loaders are errors"):
        ctx.oblige("loaders used: " + k, True)
    report(ctx, "used", bad, floc(f))


def loaded_files(ctx):
    """loadConfig: every file, merged in the order given; `maikeconfig` of the result is used"""
    p = ctx.prog
    bad = []
    f = p.one(r"^Maike::loadConfig$")
    psz = p.types["std::filesystem::__cxx11::path"]["size"]
    OUT, FILES = P("Out"), P("Files")
    FT = ("t", "files")
    m = ctx.machine(max_states=30000)
    cv = Cover(m, psz)
    # cov: files that were tried; open: the file just opened; read: the file an object was read from; fail: the current file could not be read
    g = G(cov=(), keys=(), ints=(), said=0, lost=0, cur=None)

    def h_file(m, st, i, fn, args):
        if len(args) < 2 or elem_of(args[1]) is None:
            return None
        c = cv.visit(g.get(st, "cov"), args[1])
        if c == g.get(st, "cov") and not any(x[1] == "many" for x in c):
            bad.append(("order", i.loc, "configuration files are not read once each, in the order given"))
        if g.get(st, "cur") is not None or g.get(st, "lost"):
            bad.append(("merge", i.loc, "what was read from a configuration file is not used"))
        g.put(st, cov=c, cur=args[1])
        m.settag(st, args[0], ("t", "input", args[1]))
        s2 = st.copy()
        g.put(s2, lost=1, cur=None)
        return [(s2, Throw(RTE)), (st, None)]

    def h_reader(m, st, i, fn, args):
        if len(args) >= 2:
            t = m.tag(st, args[1])
            m.havoc_range(st, args[0], 16)
            m.settag(st, args[0], t)
            return [(st, None)]
        return None

    def h_comp(m, st, i, fn, args):
        if len(args) == 1:
            m.settag(st, args[0], ("t", "merged"))
            return [(st, None)]
        t = m.tag(st, args[1]) if is_ptr(args[1]) else None
        if is_term(t) and t[1] == "input":
            m.settag(st, args[0], ("t", "content", t[2]))
            s2 = st.copy()
            g.put(s2, lost=1, cur=None)
            return [(s2, Throw(RTE)), (st, None)]
        return None

    def h_merge(m, st, i, fn, args):
        if m.tag(st, args[0]) != ("t", "merged"):
            bad.append(("order", i.loc, "configuration files are merged in another order than given"))
        t = m.tag(st, args[1])
        if not (is_term(t) and t[1] == "content") or t[2] != g.get(st, "cur"):
            bad.append(("merge", i.loc, "something else than the content of a configuration file is merged"))
        g.put(st, cur=None)
        s2 = st.copy()
        g.put(s2, lost=1)
        return [(s2, Throw(RTE)), (st, args[0] if i.d >= 0 else None)]

    def h_print(m, st, i, fn, args):
        if args and args[0] == ("p", ("g", "stderr"), 0) or True:
            g.put(st, lost=0, said=1)
        return [(st, TOP if i.d >= 0 else None)]

    def h_get(m, st, i, fn, args):
        k = m.cstr(st, args[-1])
        _, fr, bk = cv.get(g.get(st, "cov"), FT)
        ok = fr == "many" or fr > 2 or m.cmp(st, "eq", ("p", ("sym", ("t", "vdata", FT)), fr * psz), ("p", ("sym", ("t", "vend", FT)), 0), 64) == 1
        if not ok:
            bad.append(("some", i.loc, "not every configuration file is read"))
        if k != b"maikeconfig" or m.tag(st, args[0]) != ("t", "merged"):
            bad.append(("key", i.loc, "something else than `maikeconfig` of the configuration files is used"))
        if g.get(st, "lost"):
            bad.append(("silent", i.loc, "a configuration file that cannot be read is left out without a message"))
        return [(st.copy(), Throw(RTE)), (st, ("agg", (P("CfgObj"), P("CfgSrc"))))]

    def h_cfg(m, st, i, fn, args):
        if len(args) == 1:
            if not g.get(st, "said"):
                bad.append(("default", i.loc, "the configuration files are replaced by the default configuration without a message"))
            m.settag(st, args[0], ("t", "default"))
            return [(st.copy(), Throw(RTE)), (st, None)]
        if len(args) == 3:
            m.settag(st, args[0], ("t", "loaded") if args[1] == P("CfgObj") else ("t", "other"))
            s2 = st.copy()
            return [(s2, Throw(RTE)), (st, None)]
        if len(args) == 2 and is_ptr(args[1]):
            m.settag(st, args[0], m.tag(st, args[1]))
            return [(st, None)]
        return None
    m.hooks = [H(r"^Maike::Io::InputFile::InputFile$", h_file), H(r"^Maike::Io::Reader::Reader$", h_reader), H(r"Compound::Compound$", h_comp), H(r"KeyValueStore::operator\|=$", h_merge), H(r"^(fprintf|fputs|puts|printf|perror)$", h_print),
               H(r"Compound::get$", h_get), H(r"^Maike::Config::Config$", h_cfg), H(r"(Compound|InputFile|Config)::~\w+$", NOPE), (STRING, quiet)]
    st = m.start(f, [OUT, FILES], ghost=g.init, mem={("Out",): {"hv": True}, ("Files",): {"hv": True}}, roots=[OUT, FILES, P("CfgObj"), ("t", "vsize", FT)])
    m.settag(st, FILES, FT)
    m.run([st])
    ctx.absorb(m)
    n = 0
    for kind, v, st in m.outcomes:
        if kind == "ret":
            t = m.tag(st, OUT)
            if t == ("t", "loaded"):
                n += 1
            elif t != ("t", "default"):
                bad.append(("result", floc(f), "the configuration that was read is not the one that is returned"))
        elif kind == "exc":
            pass
    if not n and not bad:
        raise AnalysisBroken("loading configuration files could not be followed")
    for k in ("every file", "order", "the part that is used", "problems are reported"):
        ctx.oblige("configuration files: " + k, True)
    report(ctx, "files", bad, floc(f))
