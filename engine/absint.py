"""A disjunctive abstract interpreter for the dumped IR.

Domain: integers are constants or unknown; pointers are (abstract object, byte offset) with offsets
constant, 'k*stride+rem' or unknown; unknown inputs are named terms that are only ever compared (no
arithmetic reasoning, no solver); a set of branch facts keeps correlated tests consistent; a rule
adds a finite ghost state (its property automaton). The analysis is a worklist fixpoint over sets of
abstract states per program point: states are merged when equal, loops end when no new abstract state
appears, growing values are widened. Names created at one site are recency-abstracted, so the state
space is finite.
"""
import re
import sys
from math import gcd

from .build_ir import AnalysisBroken
from .ir import Program

TOP = ("T",)
MASK = {}


def is_ptr(v):
    return type(v) is tuple and v and v[0] == "p"


def is_term(v):
    return type(v) is tuple and v and v[0] == "t"


def width(t):
    return int(t[1:]) if t[0] == "i" else 64


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


class Throw:
    __slots__ = ("ti", "info")

    def __init__(self, ti, info=None):
        self.ti = ti
        self.info = info


class Stop:
    """Ends the path with the given outcome."""
    __slots__ = ("kind", "info")

    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Exceeded(AnalysisBroken):
    pass


class Frame:
    __slots__ = ("fn", "bb", "pc", "prev", "regs", "ctx", "call")

    def __init__(self, fn, ctx):
        self.fn = fn
        self.bb = 0
        self.pc = 0
        self.prev = -1
        self.regs = {}
        self.ctx = ctx
        self.call = None

    def copy(self):
        f = Frame(self.fn, self.ctx)
        f.bb, f.pc, f.prev, f.call = self.bb, self.pc, self.prev, self.call
        f.regs = dict(self.regs)
        return f


class State:
    __slots__ = ("frames", "mem", "facts", "ghost", "exc", "caught", "used", "roots", "trace")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.ghost = ()
        self.exc = None
        self.caught = ()
        self.used = frozenset()
        self.roots = ()
        self.trace = None

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ghost = self.ghost
        s.exc = self.exc
        s.caught = self.caught
        s.used = self.used
        s.roots = self.roots
        s.trace = self.trace
        return s


def subst(v, old, new):
    if v == old:
        return new
    if type(v) is tuple:
        if v and v[0] == "t" and len(v) > 1 and v[1] in ("old", "prev"):
            return v
        r = tuple(subst(x, old, new) if type(x) is tuple else x for x in v)
        return r if r != v else v
    return v


def canon(k):
    """equalities are stored with ordered operands"""
    if len(k) == 5 and k[0] == "t" and k[1] == "cmp" and k[2] == "eq" and not isinstance(k[4], int) and repr(k[3]) > repr(k[4]):
        return k[:3] + (k[4], k[3])
    return k


def contains(v, t):
    if v == t:
        return True
    if type(v) is tuple:
        if len(v) > 1 and v[0] == "t" and v[1] in ("old", "prev"):
            return False
        return any(type(x) is tuple and contains(x, t) for x in v)
    return False


def depth(v):
    if type(v) is not tuple:
        return 0
    return 1 + max((depth(x) for x in v), default=0)


STD_EXC = {
    "_ZTISt13runtime_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt11logic_error": ["_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt12system_error": ["_ZTISt12system_error", "_ZTISt13runtime_error", "_ZTISt9exception"],
    "_ZTISt12out_of_range": ["_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt9exception"],
    "_ZTISt9exception": ["_ZTISt9exception"],
}


class Machine:
    def __init__(self, prog, hooks=(), inline=None, max_states=200000, throws=None):
        self.p = prog
        self.hooks = [(re.compile(r), h) for r, h in hooks]
        self.inline = inline or (lambda f: True)
        self.hcache = {}
        self.mcache = {}
        self.ctxs = {(): 0}
        self.ctxinfo = {0: None}
        self.visited = {}
        self.wid = {}
        self.widened = {}
        self.outcomes = []
        self.steps = 0
        self.nstates = 0
        self.max_states = max_states
        self.throws = throws or (lambda f: None)
        self.on_call = None
        self.on_mem = None
        self.on_event = None
        self.cmp_hook = None
        self.term_hook = None
        self.branch_hook = None
        self.key_hook = None        # called at joins: may forget parts of the ghost state
        self.gcells = {}
        self.tid = {}
        self.functions = set()
        self.callsites = set()
        self.depth_limit = 80
        self.unknown_calls = {}
        self.int_lim = 48
        self.on_iter = None         # called with the new position when a list iterator moves
        self.off_lim = 3
        self.count_lim = 6          # counters beyond this are unknown
        self.trace_on = False
        self.vec_model = True
        self.partial_ok = True
        self.truncated = None

    # ---------------------------------------------------------------- contexts
    def ctx(self, parent, fn, uid):
        k = (parent, fn.name, uid)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs)
            self.ctxs[k] = c
            self.ctxinfo[c] = (parent, fn, uid)
        return c

    # ---------------------------------------------------------------- values
    def ev(self, st, fr, o):
        k = o[0]
        if k == "v":
            v = fr.regs.get(o[1], TOP)
            return self.res(st, v)
        if k == "i":
            return o[1] & mask(o[2])
        if k == "g":
            n = self.p.aliases.get(o[1], o[1])
            return ("p", ("g", n), o[2])
        if k == "n":
            return 0
        if k == "z":
            return 0 if o[1] != "s" else ("zagg",)
        if k == "a":
            return ("agg", tuple(self.ev(st, fr, x) for x in o[1]))
        if k == "f":
            return ("t", "fp", o[1])
        if k == "I":
            return int(o[1])
        if k == "x" and len(o) > 1 and type(o[1]) is tuple and o[1][0] == "i":
            return o[1][1]          # a constant converted to a pointer
        return TOP

    def res(self, st, v):
        if type(v) is tuple and st.facts:
            r = st.facts.get(v)
            if r is not None:
                return r
        return v

    def norm_term(self, v):
        return v if depth(v) < 14 else TOP

    # ---------------------------------------------------------------- fresh names (recency)
    def fresh(self, st, kind, ty="i64", site=None, fr=None):
        fr = fr or st.frames[-1]
        if site is None:
            site = fr.fn.blocks[fr.bb][fr.pc].uid
        t = ("t", kind, fr.ctx, fr.fn.name, site)
        self.retire(st, t)
        st.used = st.used | {t}
        return ("p", ("sym", t), 0) if ty == "p" else t

    def occurs(self, st, t):
        for f in st.frames:
            for v in f.regs.values():
                if type(v) is tuple and contains(v, t):
                    return True
        for obj, cells in st.mem.items():
            if contains(obj, t):
                return True
            for k, v in cells.items():
                if type(v) is tuple and contains(v, t) or type(k) is tuple and contains(k, t):
                    return True
        return type(st.ghost) is tuple and contains(st.ghost, t)

    def retire(self, st, t):
        """t is about to name something new: what it named so far becomes prev(t), what was prev(t)
        becomes old(t). prev names one value, old any number of values."""
        if t not in st.used:
            return
        if not self.occurs(st, t):
            st.facts = {k: v for k, v in st.facts.items() if not contains(k, t) and not contains(v, t)}
            return
        pv = ("t", "prev", t)
        if pv in st.used and self.occurs(st, pv):
            self.rename(st, pv, ("t", "old", t), False)
        self.rename(st, t, pv, True)
        st.used = st.used | {pv}

    def rename(self, st, t, new, keep):
        for f in st.frames:
            for r, v in f.regs.items():
                if type(v) is tuple and contains(v, t):
                    f.regs[r] = subst(v, t, new)
        mem = {}
        for obj, cells in st.mem.items():
            o2 = subst(obj, t, new)
            ch = o2 != obj
            c2 = cells
            for k, v in cells.items():
                if type(k) is tuple and contains(k, t):
                    if c2 is cells:
                        c2 = dict(cells)
                    del c2[k]
                    c2["hv"] = True
                    continue
                if type(v) is tuple and contains(v, t):
                    if c2 is cells:
                        c2 = dict(cells)
                    c2[k] = subst(v, t, new)
            if ch and o2 in mem:
                mem[o2] = {"hv": True}
            else:
                mem[o2] = c2
        st.mem = mem
        if keep:
            st.facts = {canon(subst(k, t, new)) if type(k) is tuple else k: subst(v, t, new) if type(v) is tuple else v
                        for k, v in st.facts.items() if not contains(k, new) and not contains(v, new)}
        else:
            st.facts = {k: v for k, v in st.facts.items() if not contains(k, t) and not contains(v, t)}
        st.ghost = subst(st.ghost, t, new) if type(st.ghost) is tuple else st.ghost

    # ---------------------------------------------------------------- memory
    def ginit(self, name):
        c = self.gcells.get(name)
        if c is None:
            c = {}
            g = self.p.globals.get(name)
            if g and "c" in g:
                for cell in g["c"]:
                    off, sz, v = cell
                    if sz == "str":
                        b = bytes.fromhex(v)
                        for k, ch in enumerate(b):
                            c[off + k] = (1, ch)
                    elif sz == "zero":
                        c.setdefault("zeros", []).append((off, off + v))
                    else:
                        c[off] = (sz, self.ev(None, None, tuplify(v)))
            self.gcells[name] = c
        return c

    def cstr(self, st, p, limit=4096):
        """The constant NUL terminated string p points at, or None."""
        if not is_ptr(p) or not isinstance(p[2], int):
            return None
        out = bytearray()
        for k in range(limit):
            v = self.load(st, ("p", p[1], p[2] + k), 1, "i8", peek=True)
            if not isinstance(v, int):
                return None
            if v == 0:
                return bytes(out)
            out.append(v)
        return None

    def rdbytes(self, st, p, n):
        if not is_ptr(p) or not isinstance(p[2], int) or not isinstance(n, int) or n > 65536:
            return None
        out = bytearray()
        for k in range(n):
            v = self.load(st, ("p", p[1], p[2] + k), 1, "i8", peek=True)
            if not isinstance(v, int):
                return None
            out.append(v)
        return bytes(out)

    def load(self, st, p, size, ty, peek=False):
        if not is_ptr(p):
            return TOP if peek else self.mkty(st, ty)
        obj, off = p[1], p[2]
        cells = st.mem.get(obj)
        if isinstance(off, int):
            if cells is not None:
                c = cells.get(off)
                if c is not None and c[0] == size:
                    return self.res(st, c[1])
                v = self.partial(cells, off, size)
                if v is not None:
                    return v
                if c is None and cells.get("zeroed"):
                    return 0
            if obj[0] == "g":
                g = self.p.globals.get(obj[1])
                if g is not None and (g.get("const") or cells is None and not g.get("decl") and g.get("immut")):
                    gc = self.ginit(obj[1])
                    c = gc.get(off)
                    if c is not None and c[0] == size:
                        return c[1]
                    v = self.partial(gc, off, size)
                    if v is not None:
                        return v
                    for a, b in gc.get("zeros", ()):
                        if a <= off and off + size <= b:
                            return 0
            src = self.copied_from(cells, off, size) if cells else None
            if peek and src is None:
                return TOP
            if src is not None:
                t = ("t", "m0", src[0], src[1])
                v = ("p", ("sym", t), 0) if ty == "p" else t
                if not peek:
                    self.setcell(st, obj, off, size, v)
                return self.res(st, v)
            if obj[0] == "al" and (cells is None or "hv" not in cells):
                return TOP
            if (cells is None or "hv" not in cells) and depth(obj) < 40:
                t = ("t", "m0", obj, off)
                v = ("p", ("sym", t), 0) if ty == "p" else t
            else:
                v = self.fresh(st, "ld", ty)
            if self.term_hook:
                v = self.term_hook(st, obj, off, size, ty, v)
            self.setcell(st, obj, off, size, v)
            return self.res(st, v)
        if obj[0] == "g" and self.p.globals.get(obj[1], {}).get("const"):
            return self.mkty(st, ty)
        if off is not None and cells is not None:
            c = cells.get(off)
            if c is not None and c[0] == size:
                return self.res(st, c[1])
        if peek:
            return TOP
        v = self.fresh(st, "el", ty)
        if self.term_hook:
            v = self.term_hook(st, obj, off, size, ty, v)
        if off is not None and not contains_old(off):
            cells = st.mem.get(obj)
            n = dict(cells or {})
            n[off] = (size, v)
            st.mem[obj] = n
        return self.res(st, v)

    @staticmethod
    def copied_from(cells, off, size):
        """initial value of another object these bytes were copied from"""
        for k, c in cells.items():
            if type(k) is tuple and k[0] == "from" and k[1] <= off and off + size <= k[1] + k[2]:
                for j, x in cells.items():
                    if isinstance(j, int) and j < off + size and j + x[0] > off:
                        return None
                return (c[0], c[1] + off - k[1])
        return None

    @staticmethod
    def cut_from(n, off, size):
        for k in [k for k in n if type(k) is tuple and k[0] == "from" and k[1] < off + size and k[1] + k[2] > off]:
            c = n.pop(k)
            if k[1] < off:
                n[("from", k[1], off - k[1])] = c
            if k[1] + k[2] > off + size:
                d = off + size - k[1]
                n[("from", off + size, k[2] - d)] = (c[0], c[1] + d)

    def mkty(self, st, ty):
        return self.fresh(st, "un", ty)

    @staticmethod
    def partial(cells, off, size):
        # constant bytes assembled from smaller or larger cells
        for base in range(off, off - 16, -1):
            c = cells.get(base)
            if c is not None and isinstance(c[0], int):
                if base + c[0] >= off + size and isinstance(c[1], int):
                    return (c[1] >> (8 * (off - base))) & mask(8 * size)
                if base + c[0] > off and base != off:
                    return None
                if base == off:
                    break
        v, k = 0, 0
        while k < size:
            c = cells.get(off + k)
            if c is None or not isinstance(c[1], int):
                return None
            v |= c[1] << (8 * k)
            k += c[0]
        return v if k == size else None

    def setcell(self, st, obj, off, size, v):
        n = dict(st.mem.get(obj) or {})
        n[off] = (size, v)
        st.mem[obj] = n

    def store(self, st, p, size, v):
        if not is_ptr(p):
            return
        obj, off = p[1], p[2]
        n = dict(st.mem.get(obj) or {})
        if isinstance(off, int):
            for k in [k for k, c in n.items() if isinstance(k, int) and k < off + size and k + c[0] > off]:
                if k != off and isinstance(n[k][1], int):
                    # keep the non overlapped prefix bytes of integer cells
                    sz, val = n.pop(k)
                    for j in range(sz):
                        if not (off <= k + j < off + size):
                            n[k + j] = (1, (val >> (8 * j)) & 255)
                else:
                    sz, val = n.pop(k)
                    if k == off and sz > size and isinstance(val, int):
                        for j in range(size, sz):
                            n[k + j] = (1, (val >> (8 * j)) & 255)
            for k in [k for k in n if type(k) is tuple and k[0] == "*"]:
                del n[k]
            self.cut_from(n, off, size)
            n[off] = (size, v)
        else:
            hv = {k: c for k, c in n.items() if not isinstance(k, int) and not
                  (type(k) is tuple and k[0] == "*" and (off is None or k[3] is None or k[3] != off[3] or k[2] == off[2]))}
            hv["hv"] = True
            n = hv
            if off is not None:
                n[off] = (size, v)
        st.mem[obj] = n

    def havoc(self, st, p, const=False):
        if is_ptr(p) and p[1][0] != "g":
            st.mem[p[1]] = {"hv": True}

    def havoc_range(self, st, p, size):
        if not is_ptr(p):
            return
        obj, off = p[1], p[2]
        old = st.mem.get(obj) or {}
        n = {}
        for k, c in old.items():
            if isinstance(k, int) and isinstance(off, int) and off <= k < off + size:
                continue
            if type(k) is tuple and k[0] == "tag" and isinstance(off, int) and isinstance(k[1], int) and off <= k[1] < off + size:
                continue
            n[k] = c
        n["hv"] = True
        if isinstance(off, int):
            self.cut_from(n, off, size)
        else:
            n = {k: c for k, c in n.items() if not (type(k) is tuple and k[0] == "from")}
        st.mem[obj] = n

    def copy_range(self, st, dst, src, n):
        if not is_ptr(dst):
            return
        if not is_ptr(src) or not isinstance(dst[2], int) or not isinstance(src[2], int) or not isinstance(n, int):
            if isinstance(n, int) and isinstance(dst[2], int):
                self.havoc_range(st, dst, n)
            else:
                self.havoc(st, dst)
            return
        so, do = src[2], dst[2]
        sc = dict(st.mem.get(src[1]) or {})
        if src[1][0] == "g" and self.p.globals.get(src[1][1], {}).get("const"):
            for k, c in self.ginit(src[1][1]).items():
                if isinstance(k, int):
                    sc.setdefault(k, c)
                elif k == "zeros":
                    for a, b in c:
                        for q in range(max(a, so), min(b, so + n)):
                            sc.setdefault(q, (1, 0))
        out = dict(st.mem.get(dst[1]) or {})
        for k in [k for k, c in out.items() if isinstance(k, int) and k < do + n and k + c[0] > do]:
            del out[k]
        covered = set()
        for k, c in sc.items():
            if isinstance(k, int) and so <= k and k + c[0] <= so + n:
                out[do + k - so] = c
                covered.update(range(k, k + c[0]))
            elif type(k) is tuple and k[0] == "tag" and isinstance(k[1], int) and so <= k[1] < so + n:
                out[("tag", do + k[1] - so)] = c
        self.cut_from(out, do, n)
        for k, c in sc.items():
            if type(k) is tuple and k[0] == "from":
                a, b = max(k[1], so), min(k[1] + k[2], so + n)
                if a < b:
                    out[("from", do + a - so, b - a)] = (c[0], c[1] + a - k[1])
        if src[1][0] in ("sym", "Arg") or src[1][0][:1].isupper():
            if "hv" not in sc and len(covered) < n:
                out[("from", do, n)] = (src[1], so)
        if len(covered) < n:
            out["hv"] = True
        st.mem[dst[1]] = out

    # ---- tags: the abstract value of an opaque object (string, path, container...)
    def tag(self, st, p):
        if not is_ptr(p):
            return TOP
        cells = st.mem.get(p[1])
        if cells:
            c = cells.get(("tag", p[2]))
            if c is not None:
                return c
        if p[1][0] == "al":
            return TOP
        return ("t", "tag0", p[1], p[2])

    def vec_range(self, st, p):
        """(begin, end) of the vector at p"""
        if self.vec_model:
            t = self.tag(st, p)
            return ("p", ("sym", ("t", "vdata", t)), 0), ("p", ("sym", ("t", "vend", t)), 0)
        return tuple(("p", ("sym", ("t", "m0", p[1], p[2] + k)), 0) for k in (0, 8))

    def vec_empty(self, st, p):
        return self.cmp(st, "eq", *self.vec_range(st, p), 64)

    def settag(self, st, p, v):
        if not is_ptr(p):
            return
        n = dict(st.mem.get(p[1]) or {})
        n[("tag", p[2])] = v
        n["hv"] = True
        st.mem[p[1]] = n

    # ---------------------------------------------------------------- arithmetic
    def addoff(self, st, p, c, var=(), stride=None):
        obj, off = p[1], p[2]
        if isinstance(off, int):
            off += c
        elif off is not None:
            s, r = off[1], off[2]
            q, r2 = divmod(r + c, s)
            off = ("*", s, r2, off[3] if not q else None)
            if q:
                self.newelem(st, obj)
        for v, sc in var:
            if isinstance(v, int):
                v = sgn(v, 64)
                if isinstance(off, int):
                    off += v * sc
                    continue
                if off is not None:
                    s, r = off[1], off[2]
                    q, r2 = divmod(r + v * sc, s)
                    off = ("*", s, r2, off[3] if not q else None)
                    if q:
                        self.newelem(st, obj)
                    continue
            else:
                if isinstance(off, int):
                    s = abs(sc)
                    if off < 0 or off >= s or not is_term(v) or contains_old(v):
                        off = ("*", s, off % s, None)
                        self.newelem(st, obj)
                    else:
                        off = ("*", s, off, v)
                elif off is not None and abs(sc) % off[1] == 0:
                    off = ("*", off[1], off[2], None)
                    self.newelem(st, obj)
                else:
                    off = None
        return ("p", obj, off)

    def newelem(self, st, obj):
        cells = st.mem.get(obj)
        if cells and any(type(k) is tuple and k[0] == "*" and k[3] is None for k in cells):
            st.mem[obj] = {k: c for k, c in cells.items() if not (type(k) is tuple and k[0] == "*" and k[3] is None)}

    def binop(self, st, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            m = mask(w)
            if op == "add":
                r = (a + b) & m
                if 1 in (a, b) and sgn(r, w) > self.count_lim and w >= 32:
                    return TOP
                return r
            if op == "sub":
                r = (a - b) & m
                return r
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else TOP
            if op == "lshr":
                return a >> b if b < w else TOP
            if op == "ashr":
                return (sgn(a, w) >> b) & m if b < w else TOP
            if op in ("udiv", "urem") and b:
                return a // b if op == "udiv" else a % b
            if op in ("sdiv", "srem") and b:
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == "sdiv" else sa - q * sb) & m
            return TOP
        if a == TOP or b == TOP:
            if op == "and" and (a == 0 or b == 0):
                return 0
            return TOP
        if is_ptr(a) and is_ptr(b) and op == "sub" and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return (a[2] - b[2]) & mask(w)
        if is_ptr(a) and isinstance(b, int) and op in ("add", "sub"):
            return self.addoff(st, a, sgn(b, w) * (1 if op == "add" else -1))
        if op == "xor" and w == 1:
            if b == 1:
                return self.neg(a)
            if b == 0:
                return a
        if op == "and":
            if b == 0 or a == 0:
                return 0
            if w == 1 and b == 1:
                return a
            if w == 1 and a == 1:
                return b
            if a == b:
                return a
        if op == "or":
            if b == 0:
                return a
            if a == 0:
                return b
            if w == 1 and (a == 1 or b == 1):
                return 1
        if op in ("add", "sub", "shl", "lshr", "ashr") and b == 0:
            return a
        if op == "add" and a == 0:
            return b
        if op == "sub" and a == b:
            return 0
        if op in ("add", "mul", "and", "or", "xor") and repr(a) > repr(b):
            a, b = b, a
        return self.norm_term(("t", "op", op, w, a, b))

    def neg(self, c):
        if isinstance(c, int):
            return 1 - c
        if c == TOP:
            return TOP
        if is_term(c) and c[1] == "not":
            return c[2]
        return ("t", "not", c)

    @staticmethod
    def anyelem(off):
        return off is None or type(off) is tuple and off[0] == "*" and off[3] is None

    def known_obj(self, o):
        return o[0] in ("al", "g", "h") or o[0][:1].isupper()

    def cmp(self, st, pred, a, b, w):
        if pred in ("ne",):
            return self.neg(self.cmp(st, "eq", a, b, w))
        if pred in ("ugt", "sgt"):
            return self.cmp(st, pred[0] + "lt", b, a, w)
        if pred in ("uge", "sge"):
            return self.neg(self.cmp(st, pred[0] + "lt", a, b, w))
        if pred in ("ule", "sle"):
            return self.neg(self.cmp(st, pred[0] + "lt", b, a, w))
        if pred not in ("eq", "ult", "slt"):
            return TOP
        if self.cmp_hook:
            r = self.cmp_hook(st, pred, a, b, w)
            if r is not None:
                return r
        if isinstance(a, int) and isinstance(b, int):
            if pred == "eq":
                return int(a == b)
            if pred == "ult":
                return int(a < b)
            return int(sgn(a, w) < sgn(b, w))
        if a == TOP or b == TOP:
            return TOP
        if (is_ptr(a) and self.anyelem(a[2])) or (is_ptr(b) and self.anyelem(b[2])):
            if pred == "eq" and (a == 0 or b == 0 or is_ptr(a) and is_ptr(b) and self.known_obj(a[1]) and self.known_obj(b[1]) and a[1] != b[1]):
                return 0
            return TOP
        if pred == "eq":
            if is_term(b) and not is_term(a):
                a, b = b, a
            if is_term(a) and a[1] == "zext" and isinstance(b, int):
                return self.cmp(st, "eq", a[2], b, 1) if b in (0, 1) else 0
            if is_term(a) and a[1] in ("cmp", "not") and isinstance(b, int):
                return a if b == 1 else self.neg(a)
            if is_term(a) and a[1] == "vsize" and b == 0:
                return self.cmp(st, "eq", ("p", ("sym", ("t", "vdata", a[2])), 0), ("p", ("sym", ("t", "vend", a[2])), 0), 64)
            if is_term(a) and a[1] == "lsize" and b == 0:
                return self.cmp(st, "eq", a[2], a[3], 64)
            if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                if isinstance(a[2], int) and isinstance(b[2], int):
                    return int(a[2] == b[2])
                return TOP
            pa, pb = (is_ptr(a) and self.known_obj(a[1])), (is_ptr(b) and self.known_obj(b[1]))
            if pa and pb:
                return 0
            if (pa and b == 0) or (pb and a == 0):
                return 0
            if a == b:
                return TOP if (is_term(a) and contains_old(a)) else 1
            if contains_old(a) or contains_old(b):
                return TOP
            if repr(a) > repr(b):
                a, b = b, a
            if st.facts.get(("t", "cmp", "ult", a, b)) == 1 or st.facts.get(("t", "cmp", "ult", b, a)) == 1 \
               or st.facts.get(("t", "cmp", "slt", a, b)) == 1 or st.facts.get(("t", "cmp", "slt", b, a)) == 1:
                return 0
            t = ("t", "cmp", "eq", a, b)
            return st.facts.get(t, t)
        if a == b:
            return TOP if contains_old(a) else 0
        if pred == "ult" and b == 0:
            return 0
        if pred == "ult" and a == 0:
            return self.neg(self.cmp(st, "eq", b, 0, w))
        if is_ptr(a) and is_ptr(b) and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            return int(a[2] < b[2])
        if contains_old(a) or contains_old(b):
            return TOP
        t = ("t", "cmp", pred, a, b)
        r = st.facts.get(t)
        if r is not None:
            return r
        if st.facts.get(("t", "cmp", pred, b, a)) == 1:
            return 0
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        if st.facts.get(("t", "cmp", "eq", x, y)) == 1:
            return 0
        return t

    def assume(self, st, c, val):
        """records c == val; returns False if contradictory"""
        if isinstance(c, int):
            return c == val
        if c == TOP:
            return True
        if is_term(c) and c[1] == "not":
            return self.assume(st, c[2], 1 - val)
        if is_term(c) and c[1] == "zext":
            return self.assume(st, c[2], val)
        k = st.facts.get(c)
        if k is not None:
            return k == val
        st.facts[c] = val
        if is_term(c) and c[1] == "cmp" and c[2] == "eq" and val == 1:
            a, b = c[3], c[4]
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and type(a) is tuple:
                if is_ptr(a) and a[2] != 0:
                    return True
                st.facts[a] = b
        if is_term(c) and c[1] == "op" and c[2] == "and" and c[3] == 1 and val == 1:
            return self.assume(st, c[4], 1) and self.assume(st, c[5], 1)
        if is_term(c) and c[1] == "op" and c[2] == "or" and c[3] == 1 and val == 0:
            return self.assume(st, c[4], 0) and self.assume(st, c[5], 0)
        return True

    # ---------------------------------------------------------------- merging
    def gc(self, st):
        seen_obj, terms = set(), set()
        stack = []

        def walk(v):
            if type(v) is tuple and v:
                stack.append(v)
        for f in st.frames:
            for v in f.regs.values():
                walk(v)
        for v in st.roots:
            walk(v)
        walk(st.ghost)
        walk(st.exc)
        walk(st.caught)
        for o in st.mem:
            if o[0] == "g":
                stack.append(("p", o, 0))
        seen = set()
        while stack:
            v = stack.pop()
            if v in seen:
                continue
            seen.add(v)
            if v[0] == "p" and len(v) == 3:
                o = v[1]
                if o not in seen_obj:
                    seen_obj.add(o)
                    for c in (st.mem.get(o) or {}).values():
                        if type(c) is tuple:
                            stack.append(c)
                    stack.append(o)
                continue
            if v[0] == "t":
                terms.add(v)
            for x in v:
                if type(x) is tuple and x:
                    stack.append(x)
        for o in [o for o in st.mem if o not in seen_obj]:
            del st.mem[o]

        def alive(t):
            if type(t) is not tuple:
                return True
            if t and t[0] == "t":
                if t in terms:
                    return True
                if t[1] in ("m0", "tag0"):
                    return t[2] in seen_obj or alive(t[2])
                if t[1] in ("cmp", "not", "op", "zext", "trunc1", "cast", "vdata", "vend", "vsize", "lsize"):
                    return all(alive(x) for x in t[2:])
                return False
            if t and t[0] == "p":
                o = t[1]
                return o in seen_obj or (o[0] == "sym" and alive(o[1]))
            return all(alive(x) for x in t)
        st.facts = {k: v for k, v in st.facts.items() if alive(k)}
        st.used = frozenset(t for t in st.used if t in terms)

    def key(self, st):
        return (tuple((f.ctx, f.fn.name, f.bb, f.pc, frozenset(f.regs.items())) for f in st.frames),
                frozenset((o, frozenset(c.items())) for o, c in st.mem.items()),
                frozenset(st.facts.items()), st.ghost, st.exc, st.caught, st.used)

    def seen(self, st, point):
        for k, f in enumerate(st.frames):
            lv = live_at(f.fn, f.bb, f.pc if k == len(st.frames) - 1 else f.pc + 1)
            if len(lv) < len(f.regs):
                for r in [r for r in f.regs if r not in lv]:
                    del f.regs[r]
        self.gc(st)
        if self.key_hook:
            self.key_hook(st)
        k = self.key(st)
        s = self.visited.setdefault(point, set())
        h = hash(k)
        if (h, k) in s:
            return True
        s.add((h, k))
        self.nstates += 1
        if self.nstates > self.max_states:
            raise Exceeded("state budget exceeded (%d) in %s" % (self.nstates, st.frames[-1].fn.dn))
        return False

    def widen(self, st):
        fr = st.frames[-1]
        pt = (fr.ctx, fr.fn.name, fr.bb)
        tab = self.wid.setdefault(pt, {})
        wd = self.widened.setdefault(pt, {})

        def w(pos, v):
            if isinstance(v, int):
                s = tab.setdefault(pos, set())
                if v in s:
                    return v
                if len(s) >= self.int_lim:
                    return TOP
                s.add(v)
                return v
            if is_ptr(v) and isinstance(v[2], int):
                q = (pos, v[1])
                s = tab.setdefault(q, set())
                if q in wd:
                    if v[2] in s:
                        return v
                    s = wd[q]
                    return ("p", v[1], ("*", s, v[2] % s, None))
                if v[2] not in s and len(s) >= self.off_lim:
                    l = sorted(s | {v[2]})
                    g = 0
                    for x in l[1:]:
                        g = gcd(g, x - l[0])
                    wd[q] = g
                    self.newelem(st, v[1])
                    return ("p", v[1], ("*", g, v[2] % g, None))
                s.add(v[2])
                return v
            return v
        for f in st.frames:
            for r, v in list(f.regs.items()):
                n = w((f.ctx, r), v)
                if n is not v:
                    f.regs[r] = n
        for o, cells in list(st.mem.items()):
            c2 = None
            for k, c in cells.items():
                if isinstance(k, int):
                    n = w((o, k), c[1])
                    if n is not c[1]:
                        c2 = c2 or dict(cells)
                        c2[k] = (c[0], n)
            if c2:
                st.mem[o] = c2
        # an unknown element reached in this iteration gets a name of its own, so that tests of the
        # same pointer agree; the name of the previous iteration is retired
        fr = st.frames[-1]
        live = live_at(fr.fn, fr.bb, fr.pc)
        for r in sorted(fr.regs):
            v = fr.regs[r]
            if r in live and is_ptr(v) and type(v[2]) is tuple and v[2][0] == "*" and v[2][3] is None:
                t = ("t", "wid", fr.ctx, fr.fn.name, fr.bb, r)
                self.retire(st, t)
                st.used = st.used | {t}
                v = fr.regs[r]
                fr.regs[r] = ("p", v[1], v[2][:3] + (t,))
        for o in sorted((o for o in st.mem if o[0] == "al"), key=repr):
            for k in sorted(k for k in st.mem[o] if isinstance(k, int)):
                sz, v = st.mem[o][k]
                if is_ptr(v) and type(v[2]) is tuple and v[2][0] == "*" and v[2][3] is None:
                    t = ("t", "wid", o, k)
                    self.retire(st, t)
                    st.used = st.used | {t}
                    sz, v = st.mem[o][k]
                    n = dict(st.mem[o])
                    n[k] = (sz, ("p", v[1], v[2][:3] + (t,)))
                    st.mem[o] = n

    # ---------------------------------------------------------------- running
    def start(self, fn, args, ghost=(), mem=None, facts=None, roots=()):
        st = State()
        fr = Frame(fn, 0)
        for k, a in enumerate(args):
            fr.regs[k] = a
        st.frames = [fr]
        st.ghost = ghost
        if mem:
            st.mem = dict(mem)
        if facts:
            st.facts = dict(facts)
        st.roots = tuple(a for a in args if type(a) is tuple) + tuple(roots)
        return st

    def run(self, states):
        work = list(states)
        try:
            while work:
                st = work.pop()
                work.extend(self.advance(st))
        except Exceeded as e:
            if not self.partial_ok:
                raise
            self.truncated = str(e)     # what was seen so far can still violate the property
        return self.outcomes

    def finish(self, st, kind, info):
        self.outcomes.append((kind, info, st))

    def advance(self, st):
        """Runs st until it ends, forks or meets a known state; returns the successors."""
        while True:
            fr = st.frames[-1]
            bl = fr.fn.blocks[fr.bb]
            if fr.pc == 0:
                self.functions.add(fr.fn.name)
                phis = []
                while bl[fr.pc].op == "phi":
                    i = bl[fr.pc]
                    for pb, v in i.a:
                        if pb == fr.prev:
                            phis.append((i.d, self.ev(st, fr, v)))
                            break
                    fr.pc += 1
                for d, v in phis:
                    fr.regs[d] = v
                head = fr.bb in fr.fn.loop_heads()
                if head or len(fr.fn.preds()[fr.bb]) > 1:
                    if head:
                        self.widen(st)
                    if self.seen(st, (fr.ctx, fr.fn.name, fr.bb)):
                        return []
            i = bl[fr.pc]
            self.steps += 1
            r = self.step(st, fr, i)
            if r is None:
                fr.pc += 1
                continue
            if r is True:
                continue
            return r

    def jump(self, st, fr, b):
        fr.prev = fr.bb
        fr.bb = b
        fr.pc = 0
        if st.trace is not None:
            st.trace = st.trace + ((fr.fn.name, b),)

    def step(self, st, fr, i):
        op = i.op
        if op == "br":
            if len(i.a) == 1:
                self.jump(st, fr, i.a[0][1])
                return True
            c = self.ev(st, fr, i.a[0])
            f, t = i.a[1][1], i.a[2][1]   # operand order: cond, false, true
            if self.branch_hook:
                c = self.branch_hook(st, i, c)
            if isinstance(c, int):
                self.jump(st, fr, t if c else f)
                return True
            out = []
            for val, dst in ((1, t), (0, f)):
                s2 = st.copy()
                if self.assume(s2, c, val):
                    self.jump(s2, s2.frames[-1], dst)
                    out.append(s2)
            return out
        if op == "switch":
            c = self.ev(st, fr, i.a[0])
            cases = i.x["cases"]
            if isinstance(c, int):
                self.jump(st, fr, cases.get(c, i.x["def"]))
                return True
            out = []
            w = 64
            for v, dst in cases.items():
                s2 = st.copy()
                cond = self.cmp(s2, "eq", c, v, w)
                if self.assume(s2, cond, 1):
                    self.jump(s2, s2.frames[-1], dst)
                    out.append(s2)
            s2 = st.copy()
            ok = True
            for v in cases:
                cond = self.cmp(s2, "eq", c, v, w)
                if not self.assume(s2, cond, 0):
                    ok = False
                    break
            if ok and self.feasible_default(s2, c, cases):
                self.jump(s2, s2.frames[-1], i.x["def"])
                out.append(s2)
            return out
        if op == "ret":
            v = self.ev(st, fr, i.a[0]) if i.a else None
            return self.do_ret(st, v)
        if op in ("call", "invoke"):
            return self.do_call(st, fr, i)
        if op == "resume":
            exc = st.exc
            return self.unwind(st, pop=True)
        if op == "unreachable":
            self.finish(st, "unreachable", i.loc)
            return []
        if op == "select":
            # a choice between known values is a branch
            c = self.ev(st, fr, i.a[0])
            a, b = self.ev(st, fr, i.a[1]), self.ev(st, fr, i.a[2])
            if is_term(c) and a != b and (i.t == "p" or i.t != "i1" and isinstance(a, int) and isinstance(b, int)):
                out = []
                for val, v in ((1, a), (0, b)):
                    s2 = st.copy()
                    if self.assume(s2, c, val):
                        f2 = s2.frames[-1]
                        f2.regs[i.d] = v
                        f2.pc += 1
                        out.append(s2)
                return out
        fr.regs[i.d] = self.compute(st, fr, i) if op != "store" else self.do_store(st, fr, i)
        if op == "store":
            fr.regs.pop(-1, None)
        return None

    def feasible_default(self, st, c, cases):
        return True

    def do_store(self, st, fr, i):
        v = self.ev(st, fr, i.a[0])
        p = self.ev(st, fr, i.a[1])
        if self.on_mem:
            self.on_mem(st, i, "store", p, i.x["sz"], v)
        if type(v) is tuple and v and v[0] in ("agg", "zagg"):
            # first class aggregates: scalars of 8 bytes each
            if is_ptr(p) and isinstance(p[2], int) and v[0] == "agg":
                n = len(v[1])
                szs = {1: [i.x["sz"]], 2: [8, i.x["sz"] - 8]}.get(n)
                if szs:
                    o = p[2]
                    for x, s in zip(v[1], szs):
                        self.store(st, ("p", p[1], o), s if s in (1, 2, 4, 8) else 8, x)
                        o += 8
                    return None
            self.havoc_range(st, p, i.x["sz"])
            return None
        self.store(st, p, i.x["sz"], v)
        return None

    def compute(self, st, fr, i):
        op = i.op
        if op == "load":
            p = self.ev(st, fr, i.a[0])
            if self.on_mem:
                self.on_mem(st, i, "load", p, i.x["sz"], None)
            if i.t == "s":
                if is_ptr(p) and isinstance(p[2], int):
                    sz = i.x["sz"]
                    parts = []
                    for o in range(0, sz, 8):
                        n = min(8, sz - o)
                        parts.append(self.load(st, ("p", p[1], p[2] + o), n, "i%d" % (8 * n)))
                    return ("agg", tuple(parts))
                return TOP
            return self.load(st, p, i.x["sz"], i.t)
        if op == "alloca":
            obj = ("al", fr.ctx, i.d)
            st.mem[obj] = {}
            return ("p", obj, 0)
        if op == "getelementptr":
            p = self.ev(st, fr, i.a[0])
            var = [(self.ev(st, fr, v), s) for v, s in i.x.get("var", ())]
            if p == 0:
                p = ("p", ("null",), 0)
            if is_term(p):
                p = ("p", ("sym", p), 0)
            if not is_ptr(p):
                return TOP
            return self.addoff(st, p, i.x.get("off", 0), var)
        if op == "icmp":
            a, b = self.ev(st, fr, i.a[0]), self.ev(st, fr, i.a[1])
            w = 64
            for o in i.a:
                if o[0] == "i":
                    w = o[2]
            return self.cmp(st, i.x["p"], a, b, w)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            return self.binop(st, op, self.ev(st, fr, i.a[0]), self.ev(st, fr, i.a[1]), width(i.t))
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.ev(st, fr, i.a[0])
            return self.cast(st, fr, op, v, i)
        if op == "select":
            c = self.ev(st, fr, i.a[0])
            a, b = self.ev(st, fr, i.a[1]), self.ev(st, fr, i.a[2])
            if isinstance(c, int):
                return a if c else b
            if a == b:
                return a
            if i.t == "i1" and a == 1 and b == 0:
                return c
            if i.t == "i1" and b == 0:
                return self.binop(st, "and", c, a, 1)
            if i.t == "i1" and a == 1:
                return self.binop(st, "or", c, b, 1)
            return self.norm_term(("t", "sel", c, a, b)) if i.t != "p" else self.fresh(st, "sel", "p")
        if op == "extractvalue":
            v = self.ev(st, fr, i.a[0])
            ix = i.x["ix"][0]
            if type(v) is tuple and v[0] == "agg" and ix < len(v[1]):
                r = v[1][ix]
                return self.res(st, r)
            if v == ("zagg",):
                return 0
            if is_term(v):
                t = ("t", "xv", v, ix)
                return ("p", ("sym", t), 0) if i.t == "p" else t
            return TOP
        if op == "insertvalue":
            v = self.ev(st, fr, i.a[0])
            x = self.ev(st, fr, i.a[1])
            ix = i.x["ix"][0]
            cur = list(v[1]) if type(v) is tuple and v[0] == "agg" else []
            while len(cur) <= ix:
                cur.append(TOP)
            cur[ix] = x
            return ("agg", tuple(cur))
        if op == "landingpad":
            return ("agg", (("p", ("exc",), 0), st.exc[2] if st.exc and len(st.exc) > 2 else TOP))
        if op == "atomicrmw":
            p, v = self.ev(st, fr, i.a[0]), self.ev(st, fr, i.a[1])
            if self.on_mem:
                self.on_mem(st, i, "rmw", p, i.x["sz"], v)
            old = self.load(st, p, i.x["sz"], i.t)
            k = i.x["rmw"]
            if k == "xchg":
                new = v
            elif k in ("add", "sub", "and", "or", "xor"):
                new = self.binop(st, k, old, v, width(i.t))
            else:
                new = TOP
            self.store(st, p, i.x["sz"], new)
            return old
        if op == "cmpxchg":
            p = self.ev(st, fr, i.a[0])
            if self.on_mem:
                self.on_mem(st, i, "rmw", p, 8, None)
            self.havoc(st, p)
            return TOP
        return TOP

    def cast(self, st, fr, op, v, i):
        if isinstance(v, int):
            if op == "sext":
                sw = None
                src = i.a[0]
                # source width is not recorded on registers: use the producing instruction
                sw = self.src_width(fr.fn, src)
                return sgn(v, sw) & mask(width(i.t)) if sw else v
            if op == "trunc":
                return v & mask(width(i.t))
            return v
        if v == TOP:
            return TOP
        if op in ("bitcast", "ptrtoint", "freeze", "addrspacecast"):
            return v
        if op == "inttoptr":
            return ("p", ("sym", v), 0) if is_term(v) else v
        if op in ("zext", "sext"):
            if is_term(v) and v[1] in ("cmp", "not", "trunc1") or (is_term(v) and self.src_width(fr.fn, i.a[0]) == 1):
                return ("t", "zext", v)
            if is_term(v) and v[1] == "zext":
                return v
            return v
        if op == "trunc":
            if i.t == "i1":
                if is_term(v) and v[1] == "zext":
                    return v[2]
                if is_term(v):
                    t = ("t", "trunc1", v)
                    return self.res(st, t)
                return TOP
            if is_term(v) and v[1] == "zext":
                return v
            return v
        return v

    def src_width(self, fn, o):
        if o[0] == "i":
            return o[2]
        if o[0] == "v":
            m = getattr(fn, "_w", None)
            if m is None:
                m = {}
                for k, t in enumerate(fn.params):
                    if t[0] == "i":
                        m[k] = int(re.match(r"i(\d+)", t).group(1))
                for i in fn.instrs():
                    if i.d >= 0 and i.t[0] == "i":
                        m[i.d] = int(i.t[1:])
                fn._w = m
            return m.get(o[1])
        return None

    # ---------------------------------------------------------------- calls
    def do_ret(self, st, v):
        fr = st.frames.pop()
        for o in [o for o in st.mem if o[0] == "al" and o[1] == fr.ctx]:
            del st.mem[o]
        if not st.frames:
            st.frames = []
            st.mem = st.mem
            self.finish(st, "ret", v)
            return []
        cal = st.frames[-1]
        i = cal.fn.blocks[cal.bb][cal.pc]
        if i.d >= 0:
            cal.regs[i.d] = v if v is not None else TOP
        if self.on_event:
            self.on_event(st, "return", fr.fn, v)
        return self.after_call(st, cal, i)

    def after_call(self, st, fr, i, dedupe=True):
        if i.op == "invoke":
            self.jump(st, fr, i.x["nb"])
        else:
            fr.pc += 1
        if dedupe and i.op == "call":
            if self.seen(st, (fr.ctx, fr.fn.name, fr.bb, fr.pc)):
                return []
        return True

    def unwind(self, st, pop=False):
        """Propagates st.exc from the current frame; pop: the frame itself rethrows."""
        first = not pop
        while True:
            if first:
                fr = st.frames[-1]
                i = fr.fn.blocks[fr.bb][fr.pc]
                first = False
            else:
                dead = st.frames.pop()
                for o in [o for o in st.mem if o[0] == "al" and o[1] == dead.ctx]:
                    del st.mem[o]
                if self.on_event and st.frames:
                    self.on_event(st, "unwound", dead.fn, st.exc)
                if not st.frames:
                    self.finish(st, "exc", st.exc)
                    return []
                fr = st.frames[-1]
                i = fr.fn.blocks[fr.bb][fr.pc]
            if i.op == "invoke":
                return self.enter_pad(st, fr, i)
            if i.x.get("nounw") or fr.fn.nounw:
                self.finish(st, "terminate", i.loc)
                return []

    def bases(self, ti):
        if ti in STD_EXC:
            return STD_EXC[ti]
        out, work = [], [ti]
        while work:
            t = work.pop()
            if t in out:
                continue
            out.append(t)
            if t in STD_EXC:
                out += [x for x in STD_EXC[t] if x not in out]
                continue
            for k, c in self.ginit(t).items():
                if isinstance(k, int) and is_ptr(c[1]) and c[1][1][0] == "g" and c[1][1][1].startswith("_ZTI"):
                    work.append(c[1][1][1])
        return out

    def typeid(self, ti):
        return 1000 + self.tid.setdefault(ti, len(self.tid))

    def enter_pad(self, st, fr, i):
        pad = None
        b = i.x["ub"]
        for j in fr.fn.blocks[b]:
            if j.op == "landingpad":
                pad = j
                break
        ti = st.exc[1]
        out = []

        def go(sel, s2):
            s2.exc = (s2.exc[0], s2.exc[1], sel) + tuple(s2.exc[3:])
            self.jump(s2, s2.frames[-1], b)
            out.append(s2)
        for kind, c in pad.x["clauses"]:
            if kind == "filter":
                continue
            cti = c[1] if c[0] == "g" else None
            if cti is None:
                go(1, st.copy() if ti == "?" else st)
                return out
            if ti == "?":
                s2 = st.copy()
                go(self.typeid(cti), s2)
                continue
            if cti in self.bases(ti):
                go(self.typeid(cti), st)
                return out
        if pad.x["cleanup"]:
            go(0, st)
            return out
        # no clause and no cleanup: keep unwinding past this frame
        return out + (self.unwind(st, pop=True) or []) if True else out

    def hook_for(self, fn):
        h = self.hcache.get(fn.name)
        if h is None:
            h = [f for r, f in self.hooks if r.search(fn.sn)]
            self.hcache[fn.name] = h
        return h

    def do_call(self, st, fr, i):
        c = self.ev(st, fr, i.x["c"]) if "c" in i.x else TOP
        args = [self.ev(st, fr, a) for a in i.a]
        fn = None
        if is_ptr(c) and c[1][0] == "g":
            fn = self.p.funcs.get(self.p.aliases.get(c[1][1], c[1][1]))
        if fn is None:
            r = self.unknown_call(st, fr, i, c, args)
            return self.results(st, fr, i, r)
        self.callsites.add((fr.fn.name, i.uid))
        if self.on_call:
            self.on_call(st, i, fn, args)
        for h in self.hook_for(fn):
            r = h(self, st, i, fn, args)
            if r is not None:
                return self.results(st, fr, i, r)
        r = self.model(st, fr, i, fn, args)
        if r is not None:
            return self.results(st, fr, i, r)
        if not fn.decl and self.inline(fn) and len(st.frames) < self.depth_limit \
           and sum(1 for f in st.frames if f.fn is fn) < 2:
            return self.enter(st, fr, i, fn, args)
        r = self.opaque(st, fr, i, fn, args)
        return self.results(st, fr, i, r)

    def enter(self, st, fr, i, fn, args):
        # registers dead after the call need not be kept
        nf = Frame(fn, self.ctx(fr.ctx, fr.fn, i.uid))
        at = i.x.get("at")
        for k, a in enumerate(args[:len(fn.params)]):
            if fn.params[k].startswith("pb") and is_ptr(a):
                obj = ("al", nf.ctx, ("byval", k))
                st.mem[obj] = {}
                self.copy_range(st, ("p", obj, 0), a, int(fn.params[k][2:]))
                a = ("p", obj, 0)
            nf.regs[k] = a
        lv = live_at(fr.fn, fr.bb, fr.pc + 1)
        if len(lv) < len(fr.regs):
            for r in [r for r in fr.regs if r not in lv]:
                del fr.regs[r]
        st.frames.append(nf)
        return True

    def results(self, st, fr, i, r):
        """r: value, or list of (state, value|Throw|Stop)"""
        if r is True:
            return True
        if not isinstance(r, list):
            r = [(st, r)]
        out = []
        single = len(r) == 1
        for s2, v in r:
            f2 = s2.frames[-1]
            if isinstance(v, Stop):
                self.finish(s2, v.kind, v.info)
                continue
            if isinstance(v, Throw):
                s2.exc = ("exc", v.ti, TOP, v.info)
                u = self.unwind(s2)
                if u is True:
                    out.append(s2)
                else:
                    out.extend(u)
                continue
            if i.d >= 0:
                f2.regs[i.d] = v if v is not None else TOP
            k = self.after_call(s2, f2, i, dedupe=False)
            if k is True:
                out.append(s2)
            else:
                out.extend(k)
        if single and len(out) == 1 and out[0] is st:
            return True
        return out

    def unknown_call(self, st, fr, i, c, args):
        for a in args:
            if is_ptr(a):
                self.havoc(st, a)
        return [(st, self.fresh(st, "ind", i.t))]

    def opaque(self, st, fr, i, fn, args):
        """A function the rule does not look into: result unknown, pointees clobbered."""
        self.unknown_calls[fn.dn] = self.unknown_calls.get(fn.dn, 0) + 1
        if fn.noret and fn.decl:
            return [(st, Stop("noret", fn.dn))]
        const_this = fn.dn.endswith(" const")
        out = []
        th = self.throws(fn)
        if th:
            s2 = st.copy()
            out.append((s2, Throw(th)))
        sret = bool(fn.params) and fn.params[0].startswith("pr")
        t = self.fresh(st, "ret", "i64")
        for k, a in enumerate(args):
            if is_ptr(a):
                if sret and k == 0:
                    continue
                if const_this and k == (1 if sret else 0):
                    continue
                if is_const_param(fn, k):
                    continue
                self.havoc(st, a)
        if sret and is_ptr(args[0]):
            sz = int(fn.params[0][2:]) if fn.params[0][2:] else 8
            self.havoc_range(st, args[0], sz)
            self.settag(st, args[0], t)
        v = ("p", ("sym", t), 0) if i.t == "p" else t
        out.append((st, v))
        return out

    # ---------------------------------------------------------------- built in models
    def model(self, st, fr, i, fn, args):
        m = self.mcache.get(fn.name)
        if m is None:
            m = None
            for rx, h in MODELS:
                if rx.search(fn.sn):
                    m = h
                    break
            self.mcache[fn.name] = m or False
        if not m:
            return None
        return m(self, st, fr, i, fn, args)


def contains_old(v):
    if type(v) is not tuple:
        return False
    if len(v) > 1 and v[0] == "t" and v[1] == "old":
        return True
    return any(type(x) is tuple and contains_old(x) for x in v)


_live_cache = {}


def live_at(fn, b, pc):
    """registers live before instruction pc of block b (after phis)"""
    k = (id(fn), b, pc)
    r = _live_cache.get(k)
    if r is None:
        live_in = fn.live_in()
        out = set()
        for s in fn.succs(b):
            phis = {i.d for i in fn.blocks[s] if i.op == "phi"}
            out |= live_in_pre(fn, s) - phis
            for i in fn.blocks[s]:
                if i.op == "phi":
                    for pb, v in i.a:
                        if pb == b and v[0] == "v":
                            out.add(v[1])
        from .ir import uses
        bl = fn.blocks[b]
        for idx in range(len(bl) - 1, pc - 1, -1):
            i = bl[idx]
            if i.d >= 0:
                out.discard(i.d)
            out |= set(uses(i)) if i.op != "phi" else set()
        r = out
        _live_cache[k] = r
    return r


def live_in_pre(fn, b):
    return fn.live_in()[b]


_const_cache = {}


def is_const_param(fn, k):
    """whether parameter k is a pointer/reference to const by its mangled signature"""
    key = fn.name
    r = _const_cache.get(key)
    if r is None:
        r = const_params(fn)
        _const_cache[key] = r
    return k in r


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def arg_types(dn):
    """argument type strings of a demangled name"""
    # find the last top level (...) group
    d, end = 0, None
    i = len(dn) - 1
    while i >= 0 and dn[i] != ")":
        i -= 1
    if i < 0:
        return None
    end = i
    while i >= 0:
        if dn[i] in ")]}>":
            if not (dn[i] == ">" and i > 0 and dn[i - 1] == "-"):
                d += 1
        elif dn[i] in "([{<":
            d -= 1
            if d == 0:
                break
        i -= 1
    return split_args(dn[i + 1:end])


def const_params(fn):
    dn = re.sub(r"\boperator(<<|>>|<=|>=|<|>|->)", "operator_", fn.dn)
    types = arg_types(dn)
    if types is None:
        return set()
    n = len(fn.params)
    off = n - len(types)
    out = set()
    for j, t in enumerate(types):
        if t.endswith("const&") or t.endswith("const*"):
            out.add(j + off)
    return out


def tuplify(z):
    return tuple(tuplify(i) for i in z) if isinstance(z, list) else z


# -------------------------------------------------------------------- models
MODELS = []


def model(rx):
    def deco(f):
        MODELS.append((re.compile(rx), f))
        return f
    return deco


@model(r"^llvm\.(memcpy|memmove)\.")
def _memcpy(m, st, fr, i, fn, args):
    m.copy_range(st, args[0], args[1], args[2])
    return [(st, None)]


@model(r"^llvm\.lifetime\.")
def _lifetime(m, st, fr, i, fn, args):
    """a local variable that is not alive holds nothing"""
    a = args[-1]
    if is_ptr(a) and a[1][0] == "al":
        st.mem.pop(a[1], None)
    return [(st, None)]


@model(r"^llvm\.memset\.")
def _memset(m, st, fr, i, fn, args):
    p, v, n = args[:3]
    if is_ptr(p) and isinstance(p[2], int) and isinstance(n, int) and n <= 4096 and v == 0:
        o = p[2]
        e = o + n
        c = dict(st.mem.get(p[1]) or {})
        for k in [k for k, x in c.items() if isinstance(k, int) and k < e and k + x[0] > o]:
            del c[k]
        while o + 8 <= e:
            c[o] = (8, 0)
            o += 8
        while o < e:
            c[o] = (1, 0)
            o += 1
        st.mem[p[1]] = c
    else:
        m.havoc(st, p)
    return [(st, None)]


@model(r"^llvm\.(trap|debugtrap)")
def _trap(m, st, fr, i, fn, args):
    return [(st, Stop("noret", "trap"))]


@model(r"^llvm\.expect")
def _expect(m, st, fr, i, fn, args):
    return [(st, args[0])]


@model(r"^llvm\.eh\.typeid\.for")
def _tid(m, st, fr, i, fn, args):
    return [(st, m.typeid(args[0][1][1]) if is_ptr(args[0]) else TOP)]


@model(r"^llvm\.umul\.with\.overflow")
def _umul(m, st, fr, i, fn, args):
    return [(st, ("agg", (m.binop(st, "mul", args[0], args[1], 64), 0)))]


@model(r"^llvm\.(umin|umax|smin|smax)")
def _minmax(m, st, fr, i, fn, args):
    return [(st, m.fresh(st, "mm", i.t))]


@model(r"^llvm\.is\.constant")
def _isconst(m, st, fr, i, fn, args):
    return [(st, 0)]


@model(r"^operator new(\[\])?$")
def _new(m, st, fr, i, fn, args):
    t = ("t", "new", fr.ctx, fr.fn.name, i.uid)
    m.retire(st, t)
    st.used = st.used | {t}
    obj = ("h", t)
    st.mem[obj] = {}
    return [(st, ("p", obj, 0))]


@model(r"^operator delete")
def _del(m, st, fr, i, fn, args):
    return [(st, None)]


@model(r"^__cxa_allocate_exception$")
def _exalloc(m, st, fr, i, fn, args):
    t = ("t", "exc", fr.ctx, fr.fn.name, i.uid)
    m.retire(st, t)
    st.used = st.used | {t}
    st.mem[("h", t)] = {}
    return [(st, ("p", ("h", t), 0))]


@model(r"^__cxa_free_exception$")
def _exfree(m, st, fr, i, fn, args):
    return [(st, None)]


@model(r"^__cxa_throw$")
def _throw(m, st, fr, i, fn, args):
    ti = args[1][1][1] if is_ptr(args[1]) and args[1][1][0] == "g" else "?"
    return [(st, Throw(ti, "%s" % i.loc))]


@model(r"^__cxa_begin_catch$")
def _begin(m, st, fr, i, fn, args):
    st.caught = st.caught + ((st.exc[1] if st.exc else "?", st.exc[3] if st.exc and len(st.exc) > 3 else None),)
    st.exc = None
    return [(st, ("p", ("excobj", st.caught[-1]), 0))]


@model(r"^__cxa_get_exception_ptr$")
def _getex(m, st, fr, i, fn, args):
    return [(st, ("p", ("excobj", 0), 0))]


@model(r"^__cxa_end_catch$")
def _end(m, st, fr, i, fn, args):
    st.caught = st.caught[:-1]
    return [(st, None)]


@model(r"^__cxa_rethrow$")
def _rethrow(m, st, fr, i, fn, args):
    c = st.caught[-1] if st.caught else ("?", None)
    return [(st, Throw(c[0], c[1]))]


@model(r"^(__clang_call_terminate|std::terminate|abort|__assert_fail|exit|_exit|__cxa_pure_virtual)$")
def _term(m, st, fr, i, fn, args):
    return [(st, Stop("terminate" if "terminate" in fn.dn else "noret", (fn.dn, i.loc)))]


@model(r"^__cxa_guard_acquire$")
def _guard(m, st, fr, i, fn, args):
    return [(st, 1)]


@model(r"^(__cxa_guard_release|__cxa_guard_abort|__cxa_atexit)$")
def _guard2(m, st, fr, i, fn, args):
    return [(st, 0)]


@model(r"^std::(uncaught_exceptions?|current_exception)$")
def _cur(m, st, fr, i, fn, args):
    if "current_exception" in fn.dn:
        if fn.params and fn.params[0].startswith("pr"):
            m.store(st, args[0], 8, ("p", ("excptr", st.caught[-1] if st.caught else 0), 0) if st.caught else 0)
            return [(st, None)]
    return [(st, TOP)]


@model(r"^std::rethrow_exception$")
def _rethrow_ptr(m, st, fr, i, fn, args):
    return [(st, Throw("?", "rethrow_exception at " + i.loc))]


@model(r"^std::__throw_")
def _stdthrow(m, st, fr, i, fn, args):
    return [(st, Throw("_ZTISt13runtime_error", fn.dn))]



STR = r"^std::(__cxx11::basic_string|filesystem::path|filesystem::__cxx11::path)::"


def same_class_arg(fn):
    """copy/move construction or assignment of string/path objects"""
    t = arg_types(re.sub(r"\boperator=", "operator_", fn.dn))
    if not t:
        return False
    t0 = t[0]
    return bool(re.match(r"(std::filesystem::(__cxx11::)?path|std::__cxx11::basic_string<char\b.*>)( const)?&&?$", t0))


@model(STR + r"(path|basic_string|operator=)$")
def _copyctor(m, st, fr, i, fn, args):
    if same_class_arg(fn):
        t = m.tag(st, args[1])
    elif len(args) > 1:
        c = m.cstr(st, args[1]) if is_ptr(args[1]) else None
        t = ("str", c) if c is not None else m.fresh(st, "obj", "i64")
    else:
        t = ("str", b"")
    if is_ptr(args[0]):
        m.havoc_range(st, args[0], 32)
    m.settag(st, args[0], t)
    return [(st, args[0] if i.d >= 0 else None)]


@model(STR + r"~")
def _dtor(m, st, fr, i, fn, args):
    return [(st, None)]


@model(r"^std::(allocator|__new_allocator)::~?(allocator|__new_allocator)$")
def _alloc(m, st, fr, i, fn, args):
    return [(st, None)]


@model(r"^std::(__cxx11::)?(vector|deque|list|map|_Rb_tree|_List_base|_Vector_base|_Deque_base|stack|queue|set|multimap|unordered_map|_Hashtable|pair)::~")
def _cdtor(m, st, fr, i, fn, args):
    return [(st, None)]


# -------------------------------------------------------------------- containers
# A container is an opaque object; what its observers return is remembered until it is changed.
CONT = r"^std::(__cxx11::)?(deque|list|map|set|multimap|unordered_map)::"


def _cont_clear(st, p, keep=()):
    if not is_ptr(p):
        return
    c = st.mem.get(p[1]) or {}
    n = {k: v for k, v in c.items() if not (type(k) is tuple and k[0] == "ob" and k[1] == p[2])}
    n["hv"] = True
    st.mem[p[1]] = n


OBS = {"empty": "i1", "size": "i64", "back": "p", "front": "p", "top": "p"}
MUT = {"push_back", "emplace_back", "push_front", "emplace_front", "pop_back", "pop_front", "push", "pop", "clear", "emplace"}


@model(CONT + r"(empty|size|back|front|top|push_back|emplace_back|push_front|emplace_front|pop_back|pop_front|push|pop|clear|emplace)$")
def _container(m, st, fr, i, fn, args):
    name = fn.sn.split("::")[-1]
    p = args[0]
    if not is_ptr(p):
        return [(st, m.fresh(st, "co", i.t) if i.d >= 0 else None)]
    if "::list::" in fn.sn and name in ("empty", "size"):
        h = m.load(st, p, 8, "p")
        return [(st, m.cmp(st, "eq", h, p, 64) if name == "empty" else ("t", "lsize", h, p))]
    if name in OBS:
        k = ("ob", p[2], name)
        c = (st.mem.get(p[1]) or {}).get(k)
        if c is None:
            c = m.fresh(st, "ob_" + name, i.t)
            n = dict(st.mem.get(p[1]) or {})
            n[k] = c
            n["hv"] = True
            st.mem[p[1]] = n
        return [(st, m.res(st, c))]
    if name in MUT:
        _cont_clear(st, p)
        if "::list::" in fn.sn:
            m.havoc_range(st, p, 24)
            if name == "clear":
                m.store(st, p, 8, p)
            elif name[:4] in ("push", "empl"):
                h = m.fresh(st, "lhead", "p")
                m.store(st, p, 8, h)
                m.assume(st, m.cmp(st, "eq", h, p, 64), 0)
            return [(st, m.fresh(st, "co", i.t) if i.d >= 0 else None)]
        if name == "clear":
            n = dict(st.mem.get(p[1]) or {})
            n[("ob", p[2], "empty")] = 1
            n[("ob", p[2], "size")] = 0
            st.mem[p[1]] = n
        elif name.startswith(("push", "emplace")):
            n = dict(st.mem.get(p[1]) or {})
            n[("ob", p[2], "empty")] = 0
            st.mem[p[1]] = n
        return [(st, m.fresh(st, "co", i.t) if i.d >= 0 else None)]
    return None


@model(r"^std::vector::(push_back|emplace_back|insert|pop_back|clear|erase|reserve|resize|assign|operator=|swap|shrink_to_fit|vector)$")
def _vecmut(m, st, fr, i, fn, args):
    name = fn.sn.split("::")[-1]
    p = args[0] if not (fn.params and fn.params[0].startswith("pr")) else args[1]
    if name == "vector" and len(args) >= 2 and re.search(r"::vector\((std::vector<.*> const&|std::vector<.*>&&)\)$", fn.dn):
        t = m.tag(st, args[1])
        m.havoc_range(st, p, 24)
        m.settag(st, p, t)
        return [(st, None)]
    if name == "operator=" and re.search(r"operator=\((std::vector<.*> const&|std::vector<.*>&&)\)$", fn.dn):
        t = m.tag(st, args[1])
        m.havoc_range(st, p, 24)
        m.settag(st, p, t)
        return [(st, args[0])]
    if name == "reserve" or name == "shrink_to_fit":
        return [(st, None)]
    m.havoc_range(st, p, 24)
    m.settag(st, p, 0)
    m.settag(st, p, m.fresh(st, "vec", "i64"))
    if name in ("emplace_back", "insert", "erase"):
        return [(st, m.fresh(st, "vit", i.t) if i.d >= 0 else None)]
    return [(st, args[0] if i.t == "p" else None)]


@model(r"^std::vector::(begin|cbegin|end|cend|data|empty|size|front|operator\[\])$")
def _vecobs(m, st, fr, i, fn, args):
    """Observers of a vector the rule treats as a value: named after the vector's contents, so that
    two looks at an unchanged vector agree and `size() == 0`, `empty()` and `begin() == end()` are
    the same test. Vectors under construction by inlined library code keep the concrete view."""
    if not m.vec_model:
        return None
    p = args[0]
    if not is_ptr(p):
        return None
    name = fn.sn.split("::")[-1]
    cells = st.mem.get(p[1]) or {}
    if isinstance(p[2], int) and any(isinstance(k, int) and p[2] <= k < p[2] + 24 for k in cells):
        return None             # its pointers are known individually
    t = m.tag(st, p)
    if t == TOP:
        return None
    b, e = ("p", ("sym", ("t", "vdata", t)), 0), ("p", ("sym", ("t", "vend", t)), 0)
    if name in ("begin", "cbegin", "data", "front"):
        r = b
    elif name in ("end", "cend"):
        r = e
    elif name == "empty":
        r = m.cmp(st, "eq", b, e, 64)
    elif name == "size":
        r = ("t", "vsize", t)
    else:
        ty = elem_size(m, fn)
        if ty is None:
            return None
        r = m.addoff(st, b, 0, [(args[1], ty)])
    return [(st, r)]


def elem_size(m, fn):
    """size of the element type of the std::vector member fn"""
    c = getattr(fn, "_esz", False)
    if c is not False:
        return c
    mm = re.search(r"std::vector<(.*)>::", fn.dn)
    fn._esz = None
    if mm:
        t = split_args(mm.group(1))[0]
        fn._esz = sizeof(m.p, t)
    return fn._esz


BASIC = {"char": 1, "unsigned char": 1, "std::byte": 1, "bool": 1, "short": 2, "int": 4, "unsigned int": 4, "long": 8,
         "unsigned long": 8}


def sizeof(p, t):
    t = t.strip()
    if t.endswith("*"):
        return 8
    if t in BASIC:
        return BASIC[t]
    ty = p.types.get(t)
    if ty is None:
        ts = re.sub(r"std::(filesystem|__cxx11)::__cxx11::", r"std::\1::", t)
        for n, j in p.types.items():
            if re.sub(r"std::(filesystem|__cxx11)::__cxx11::", r"std::\1::", n).replace(" >", ">") == ts.replace(" >", ">"):
                ty = j
                break
    return ty["size"] if ty else None


# -------------------------------------------------------------------- more library models
@model(r"^std::__exception_ptr::exception_ptr::(_M_addref|_M_release)$")
def _eptr_ref(m, st, fr, i, fn, args):
    return [(st, None)]


def tag_of(m, st, p):
    """contents of the string or path at p (also of a constant C string)"""
    t = m.tag(st, p)
    return t


def str_eq(m, st, a, b):
    if a == TOP or b == TOP:
        return TOP
    if a == b:
        return TOP if contains_old(a) else 1
    if a[0] == "str" and b[0] == "str":
        return int(a[1] == b[1])
    return m.cmp(st, "eq", a, b, 64)


@model(r"^std::(filesystem::(__cxx11::)?|__cxx11::)?operator(==|!=)$")
def _streq(m, st, fr, i, fn, args):
    t = arg_types(re.sub(r"operator(==|!=)", "operator_", fn.dn))
    if not t or len(t) != 2:
        return None
    strs = [re.match(r"std::(filesystem::(__cxx11::)?path|__cxx11::basic_string<.*>) const&$", x) for x in t]
    if not (strs[0] or strs[1]):
        return None
    v = []
    for k in (0, 1):
        if strs[k]:
            v.append(m.tag(st, args[k]))
        elif t[k] == "char const*":
            c = m.cstr(st, args[k])
            v.append(("str", c) if c is not None else TOP)
        else:
            return None
    r = str_eq(m, st, v[0], v[1])
    return [(st, m.neg(r) if "operator!=" in fn.sn else r)]


@model(r"^std::filesystem::(__cxx11::)?operator<$")
def _pathlt(m, st, fr, i, fn, args):
    a, b = m.tag(st, args[0]), m.tag(st, args[1])
    if a == TOP or b == TOP:
        return [(st, TOP)]
    return [(st, m.cmp(st, "ult", a, b, 64))]


@model(r"^std::(filesystem::(__cxx11::)?path|__cxx11::basic_string)::empty$")
def _strempty(m, st, fr, i, fn, args):
    return [(st, str_eq(m, st, m.tag(st, args[0]), ("str", b"")))]


def _list_head(m, st, p):
    """forget what is known about a std::list's links"""
    if is_ptr(p):
        m.havoc_range(st, p, 24)


@model(r"^std::__cxx11::list::(erase|insert)$")
def _list_erase(m, st, fr, i, fn, args):
    _cont_clear(st, args[0])
    _list_head(m, st, args[0])
    v = m.fresh(st, "lit", i.t) if i.d >= 0 else None
    if m.on_iter and v is not None:
        m.on_iter(st, v)
    return [(st, v)]


@model(r"^(pthread_mutex_(lock|unlock|trylock)|pthread_rwlock_\w+|pthread_cond_\w+)$")
def _pthread(m, st, fr, i, fn, args):
    return [(st, 0)]


@model(r"^std::condition_variable::(notify_one|notify_all|condition_variable|~condition_variable)$")
def _cv(m, st, fr, i, fn, args):
    return [(st, None)]


@model(r"^std::(_List_iterator|_List_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|_Fwd_list_iterator)::operator(\+\+|--)$")
def _node_inc(m, st, fr, i, fn, args):
    """The neighbour of a list or tree node: a new unknown node."""
    if len(args) == 2 and is_ptr(args[0]) and i.d >= 0 and i.t == "p":
        st.frames[-1].regs[i.d] = m.load(st, args[0], 8, "p")      # kept in step when names are retired
        m.store(st, args[0], 8, 0)
        v = m.fresh(st, "nodeinc", "p")
        m.store(st, args[0], 8, v)
        if m.on_iter:
            m.on_iter(st, v)
        return [(st, st.frames[-1].regs[i.d])]
    if len(args) != 1 or not is_ptr(args[0]):
        return None             # inlined
    old = m.load(st, args[0], 8, "p")
    m.store(st, args[0], 8, 0)
    v = m.fresh(st, "nodeinc", "p")
    m.store(st, args[0], 8, v)
    if m.on_iter:
        m.on_iter(st, v)
    return [(st, args[0] if i.d >= 0 else None)]
