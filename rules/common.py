"""Helpers shared by the rules."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import TOP, is_ptr, is_term, contains, Throw, Stop


def contains_kind(v, *kinds):
    if type(v) is not tuple:
        return False
    if len(v) > 1 and v[0] == "t" and v[1] in kinds:
        return True
    return any(contains_kind(x, *kinds) for x in v if type(x) is tuple)


def find_term(v, kind):
    """the first sub term of the given kind"""
    if type(v) is not tuple:
        return None
    if len(v) > 1 and v[0] == "t" and v[1] == kind:
        return v
    for x in v:
        if type(x) is tuple:
            r = find_term(x, kind)
            if r is not None:
                return r
    return None


def rename(p, fn, *pats):
    pass


def field(p, type_name, pred, what):
    """offset of the only member of a class whose (name, type) satisfies pred"""
    t = p.types.get(type_name)
    if t is None:
        raise AnalysisBroken("class %s vanished" % type_name)
    c = [m for m in t["m"] if pred(m[0], m[2])]
    if len(c) != 1:
        raise AnalysisBroken("%s: %d members qualify as %s" % (type_name, len(c), what))
    return c[0][1]


def elem_of(p):
    """(contents tag, offset, from the back) if p points into a vector known by its contents"""
    if is_ptr(p) and p[1][0] == "sym" and is_term(p[1][1]):
        if p[1][1][1] == "vdata":
            return p[1][1][2], p[2], False
        if p[1][1][1] == "vend":
            return p[1][1][2], p[2], True
    return None


class Cover:
    """Which elements of a vector have been visited: a prefix (or suffix) length, or 'many'.

    cov is a tuple of (tag, front count, back count) entries kept in the ghost state."""

    def __init__(self, m, esize):
        self.m = m
        self.es = esize

    def get(self, cov, tag):
        for e in cov:
            if e[0] == tag:
                return e
        return (tag, 0, 0)

    def put(self, cov, e):
        return tuple(sorted([x for x in cov if x[0] != e[0]] + [e], key=repr))

    def visit(self, cov, p):
        """returns the new coverage, or None if p is no element of a known vector"""
        el = elem_of(p)
        if el is None:
            return None
        tag, off, back = el
        t, f, b = self.get(cov, tag)
        if isinstance(off, int):
            if back:
                k = -off // self.es - 1
                if off < 0 and off % self.es == 0 and isinstance(b, int) and k == b:
                    b += 1
            else:
                k = off // self.es
                if off % self.es == 0 and isinstance(f, int) and k == f:
                    f += 1
        elif type(off) is tuple and off[0] == "*" and off[1] in (self.es, 0):
            if off[3] is None or is_term(off[3]) and off[3][1] == "wid":
                if back and b not in (0, 1):
                    b = "many"
                elif not back and f not in (0, 1):
                    f = "many"
        return self.put(cov, (t, f, b))

    def complete(self, st, cov, vec, empty_ok=True):
        """1: every element was visited, 0: not known, with 'many' taken as complete"""
        m = self.m
        tag = m.tag(st, vec)
        t, f, b = self.get(cov, tag)
        if f == "many" or b == "many" or f > 2 or b > 2:
            return True
        data, end = m.vec_range(st, vec)
        for n, back in ((f, False), (b, True)):
            if back:
                p, q = data, ("p", end[1], -n * self.es)
            else:
                p, q = ("p", data[1], n * self.es), end
            if m.cmp(st, "eq", p, q, 64) == 1:
                return True
            if m.cmp(st, "ult", n, ("t", "vsize", tag), 64) == 0 or m.cmp(st, "eq", n, ("t", "vsize", tag), 64) == 1:
                return True
        return False


def once(lst):
    out = []
    for x in lst:
        if x not in out:
            out.append(x)
    return out


def split(m, outcomes):
    """outcomes with an undecided boolean result, one for each value it can have"""
    out = []
    for kind, v, st in outcomes:
        if kind == "ret" and type(v) is tuple:
            v = m.res(st, v) if is_term(v) else v
            if is_term(v):
                for b in (0, 1):
                    s2 = st.copy()
                    if m.assume(s2, v, b):
                        out.append((kind, b, s2))
                continue
        out.append((kind, v, st))
    return out


class MapWalk:
    """Iteration over std::map objects. Ghost part (kept by the rule): tuple of (map, current element, processed) entries.

    get/put access that tuple in the ghost state; leave(st, map, element, processed) is called when an iterator moves on."""

    def __init__(self, m, get, put, leave=None):
        self.m, self.get, self.put, self.leave = m, get, put, leave
        self.n = 0

    def hooks(self):
        return [(re.compile(r"^std::map::c?begin$"), self.h_begin), (re.compile(r"^std::map::c?end$"), self.h_end),
                (re.compile(r"^std::_Rb_tree_(const_)?iterator::operator\+\+$"), self.h_inc)]

    @staticmethod
    def end(mp):
        return ("p", ("sym", ("t", "mend", mp)), 0)

    @staticmethod
    def first(mp):
        return ("p", ("sym", ("t", "mfirst", mp)), 0)

    def h_begin(self, m, st, i, fn, args):
        mp = args[0]
        if not is_ptr(mp):
            return None
        w = tuple(x for x in self.get(st) if x[0] != mp) + ((mp, self.first(mp), 0),)
        self.put(st, tuple(sorted(w, key=repr)))
        return [(st, self.first(mp))]

    def h_end(self, m, st, i, fn, args):
        return [(st, self.end(args[0]))] if is_ptr(args[0]) else None

    def h_inc(self, m, st, i, fn, args):
        if not is_ptr(args[0]):
            return None
        old = m.load(st, args[0], 8, "p")
        for k, (mp, cur, done) in enumerate(self.get(st)):
            if cur == old:
                if self.leave:
                    self.leave(st, mp, cur, done, i)
                post = len(args) == 2 and i.d >= 0 and i.t == "p"
                if post:
                    st.frames[-1].regs[i.d] = old
                m.store(st, args[0], 8, 0)
                w = list(self.get(st))
                w[k] = (w[k][0], 0, 0)
                self.put(st, tuple(w))
                v = m.fresh(st, "mnode", "p")
                m.store(st, args[0], 8, v)
                w = list(self.get(st))
                w[k] = (w[k][0], v, 0)
                self.put(st, tuple(w))
                return [(st, st.frames[-1].regs[i.d] if post else args[0] if i.d >= 0 else None)]
        return None

    def current(self, st, ptr):
        """the map a pointer to (a part of) the current element belongs to"""
        for mp, cur, done in self.get(st):
            if is_ptr(ptr) and is_ptr(cur) and ptr[1] == cur[1]:
                return mp, cur, done
        return None

    def mark(self, st, ptr, v=1):
        w = []
        hit = False
        for mp, cur, done in self.get(st):
            if is_ptr(ptr) and is_ptr(cur) and ptr[1] == cur[1]:
                done, hit = v, True
            w.append((mp, cur, done))
        self.put(st, tuple(w))
        return hit

    def finished(self, st, mp):
        """the walk over the map has reached its end"""
        for q, cur, done in self.get(st):
            if q == mp:
                return self.m.cmp(st, "eq", cur, self.end(mp), 64) == 1
        return False


def task_closure(p, add):
    """the user's call operator that a task submitted through this instance of addTask runs"""
    out = []
    a = add.dn.split("addTask", 1)[1]
    k = depth = 0
    for j, ch in enumerate(a):
        if ch == "<":
            depth += 1
        elif ch == ">" and a[j - 1] != "-":
            depth -= 1
            if depth == 0:
                k = j + 1
                break
    for c in p.funcs.values():
        if not c.decl and c.sn.endswith("::operator()") and c.sn.startswith("Maike::Sched::ThreadPool::addTask") and len(c.params) == 1 and \
           c.dn.split("addTask", 1)[1].startswith(a[:k]):
            for b in c.blocks:
                for i in b:
                    g = p.callee(i)
                    if g is not None and not g.decl and g.sn.endswith("::operator()") and g not in out:
                        out.append(g)
    return out[0] if len(out) == 1 else None
