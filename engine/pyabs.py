"""Path-enumerating abstract interpreter for the Python of the recipes.

Nothing is run: the syntax tree is evaluated over known values, opaque symbols and texts made of
known pieces and symbols. A test of a symbol is a choice, remembered for the path; every tool that
is started and every file that is written may succeed or fail, which is a choice too. All paths are
enumerated by replaying the choices depth first.
"""
import ast
import builtins
import os
import string

from .build_ir import AnalysisBroken

MAX_PATHS = 60000
MAX_STEPS = 400000


class Sym:
    """a value nothing is known of, except which one it is"""
    __slots__ = ("key",)

    def __init__(self, *key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Sym) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __lt__(self, o):
        return repr(self) < repr(o)

    def __repr__(self):
        return "<%s>" % ":".join(str(k) for k in self.key)


class Str:
    """a text of known pieces and symbols"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return isinstance(o, Str) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def __lt__(self, o):
        return repr(self) < repr(o)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)


def text(*parts):
    out = []
    for p in parts:
        for q in (p.parts if isinstance(p, Str) else (p,)):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Str(out)


def symbolic(v):
    return isinstance(v, (Sym, Str))


class Obj:
    def __init__(self, kind, **attrs):
        self.kind = kind
        self.attrs = attrs

    def __repr__(self):
        return "<%s>" % self.kind


class Ext:
    """something outside the analysed files, by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Bound:
    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return "%r.%s" % (self.recv, self.name)


def val(v):
    """an attribute of a symbol, as a value"""
    return Sym("attr", repr(v.recv), v.name) if isinstance(v, Bound) and isinstance(v.recv, (Sym, Obj)) else v


class Func:
    def __init__(self, node, env, mod, recv=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.recv = recv


class Cls:
    def __init__(self, name, bases, ns):
        self.name = name
        self.bases = bases
        self.ns = ns


class Module:
    def __init__(self, name, env):
        self.name = name
        self.env = env


class Raised(Exception):
    def __init__(self, names, value=None):
        self.names = names      # class names, most derived first
        self.value = value


class Ended(Exception):
    def __init__(self, code):
        self.code = code


class Returned(Exception):
    def __init__(self, value):
        self.value = value


class Broke(Exception):
    pass


class Continued(Exception):
    pass


class TooLong(Exception):
    pass


def exc(name, value=None):
    c = getattr(builtins, name.split(".")[-1], None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return Raised([k.__name__ for k in c.__mro__ if issubclass(k, BaseException)], value)
    if name.endswith("CalledProcessError") or name.endswith("TimeoutExpired"):
        return Raised([name.split(".")[-1], "SubprocessError", "Exception", "BaseException"], value)
    return Raised([name.split(".")[-1], "Exception", "BaseException"], value)


FAILING = (3, -9)               # ends with an error of its own, or killed by a signal
SIG = {"IOError": "OSError", "EnvironmentError": "OSError"}


class Env(dict):
    def __init__(self, parent=None):
        super().__init__()
        self.parent = parent
        self.globals_ = set()

    def look(self, n):
        e = self
        while e is not None:
            if n in e:
                return e[n]
            e = e.parent
        raise KeyError(n)

    def put(self, n, v):
        if n in self.globals_:
            e = self
            while e.parent is not None:
                e = e.parent
            e[n] = v
        else:
            self[n] = v


class Path:
    """one way through a script"""

    def __init__(self, world, choices):
        self.w = world
        self.given = choices
        self.taken = []         # (index, number of options)
        self.memo = {}
        self.events = []
        self.steps = 0
        self.fresh = 0
        self.modules = {}
        self.functions = set()
        self.sites = set()
        self.code = None
        self.unknown = []
        self.where = []

    # -- choices
    def choose(self, n, key=None):
        if key is not None and key in self.memo:
            return self.memo[key]
        k = len(self.taken)
        c = self.given[k] if k < len(self.given) else 0
        self.taken.append((c, n))
        if key is not None:
            self.memo[key] = c
        return c

    def new(self, what):
        self.fresh += 1
        return Sym(what, self.fresh)

    def dontknow(self, what):
        self.unknown.append(what)
        return self.new("unknown")

    # -- truth and comparison
    def truth(self, v):
        v = val(v)
        if isinstance(v, Sym):
            return self.choose(2, ("truth", v)) == 0
        if isinstance(v, Str):
            if any(isinstance(p, str) for p in v.parts):
                return True
            return self.choose(2, ("truth", v)) == 0
        if isinstance(v, (Obj, Ext, Func, Bound, Module, Cls)):
            return True
        return bool(v)

    def equal(self, a, b):
        a, b = val(a), val(b)
        if a == b and not isinstance(a, float):
            return True
        if symbolic(a) or symbolic(b):
            if a is None or b is None:
                o = b if a is None else a
                if isinstance(o, Str):
                    return False
                if isinstance(o, Sym) and o.key and o.key[0] == "data":
                    return False
            if isinstance(a, (list, dict, set, tuple, Obj)) or isinstance(b, (list, dict, set, tuple, Obj)):
                return False
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Str) and isinstance(y, str):
                    if isinstance(x.parts[0], str) and not y.startswith(x.parts[0]):
                        return False
                    if isinstance(x.parts[-1], str) and not y.endswith(x.parts[-1]):
                        return False
            if symbolic(a) and symbolic(b):
                return False        # different symbols stand for different texts; that two are the same is a case of its own
            k = ("eq",) + tuple(sorted((repr(a), repr(b))))
            return self.choose(2, k) == 1
        if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
            return all(self.equal(x, y) for x, y in zip(a, b))
        return a == b

    def contains(self, item, cont):
        item, cont = val(item), val(cont)
        if isinstance(cont, (list, tuple, set, frozenset)):
            return any(self.equal(item, x) for x in list(cont))
        if isinstance(cont, dict):
            return any(self.equal(item, x) for x in list(cont))
        if isinstance(cont, str) and isinstance(item, str):
            return item in cont
        return self.choose(2, ("in", repr(item), repr(cont))) == 1

    def compare(self, op, a, b):
        t = type(op).__name__
        if t == "Eq":
            return self.equal(a, b)
        if t == "NotEq":
            return not self.equal(a, b)
        if t in ("Is", "IsNot"):
            if symbolic(a) or symbolic(b):
                r = self.equal(a, b)
            else:
                r = a is b or (isinstance(a, (int, str, type(None))) and type(a) is type(b) and a == b)
            return r if t == "Is" else not r
        if t == "In":
            return self.contains(a, b)
        if t == "NotIn":
            return not self.contains(a, b)
        if symbolic(a) or symbolic(b) or isinstance(a, Obj) or isinstance(b, Obj):
            return self.choose(2, (t, repr(a), repr(b))) == 0
        try:
            return {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[t]()
        except TypeError:
            raise exc("TypeError")

    # -- iteration
    def items(self, v):
        v = val(v)
        if isinstance(v, (list, tuple, set, frozenset, range, str)):
            return list(v) if not isinstance(v, (set, frozenset)) else sorted(v, key=repr)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Obj) and v.kind == "file":
            v = Sym("lines", repr(v.attrs.get("path")))
        if isinstance(v, (Sym, Str)):
            n = self.choose(2, ("len", repr(v)))
            return [Sym("item", repr(v), k) for k in range(n)]
        if v is None or isinstance(v, (int, bool)):
            raise exc("TypeError")
        return [self.dontknow("iteration")] if self.choose(2) else []

    # -- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.w.max_steps:
            raise TooLong()
        self.where.append(s.lineno)
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.dontknow("statement " + type(s).__name__)
                return
            m(s, env)
        finally:
            self.where.pop()

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        pass

    def s_FunctionDef(self, s, env):
        env.put(s.name, Func(s, env, env.look("__module__")))

    def s_ClassDef(self, s, env):
        ns = Env(env)
        self.block(s.body, ns)
        env.put(s.name, Cls(s.name, [self.ev(b, env) for b in s.bases], ns))

    def s_Return(self, s, env):
        raise Returned(self.ev(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Broke()

    def s_Continue(self, s, env):
        raise Continued()

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        load = ast.copy_location(type(s.target)(**{**dict(ast.iter_fields(s.target)), "ctx": ast.Load()}), s.target)
        a, b = self.ev(load, env), self.ev(s.value, env)
        if isinstance(a, list) and isinstance(s.op, ast.Add):
            a.extend(self.items(b))
            self.assign(s.target, a, env)
        elif isinstance(a, set) and isinstance(s.op, ast.BitOr) and isinstance(b, set):
            a |= b
        elif isinstance(a, dict) and isinstance(s.op, ast.BitOr) and isinstance(b, dict):
            a.update(b)
        else:
            self.assign(s.target, self.binop(s.op, a, b), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.put(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if symbolic(v) or isinstance(v, Obj):
                vals = [Sym("part", repr(v), k) for k in range(len(t.elts))]
            else:
                vals = self.items(v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                rest = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise exc("ValueError")
                vals = vals[:k] + [vals[k:len(vals) - rest]] + vals[len(vals) - rest:]
            if len(vals) != len(t.elts):
                raise exc("ValueError")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                if isinstance(o, list):
                    lo, up = (self.ev(x, env) if x else None for x in (t.slice.lower, t.slice.upper))
                    o[lo:up] = self.items(v)
                return
            k = self.ev(t.slice, env)
            if isinstance(o, dict):
                o[self.hashable(k)] = v
            elif isinstance(o, list) and isinstance(k, int):
                try:
                    o[k] = v
                except IndexError:
                    raise exc("IndexError")
            else:
                self.memo[("item", repr(o), repr(k))] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            elif isinstance(o, Module):
                o.env[t.attr] = v
            else:
                self.dontknow("attribute set")
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def hashable(self, k):
        try:
            hash(k)
            return k
        except TypeError:
            raise exc("TypeError")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), None if isinstance(t.slice, ast.Slice) else self.ev(t.slice, env)
                if isinstance(o, (dict, list)) and k is not None:
                    try:
                        del o[k]
                    except KeyError:
                        raise exc("KeyError")
                    except IndexError:
                        raise exc("IndexError")
                elif isinstance(o, list):
                    lo, up = (self.ev(x, env) if x else None for x in (t.slice.lower, t.slice.upper))
                    del o[lo:up]
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_For(self, s, env):
        src = self.ev(s.iter, env)
        k = 0
        live = isinstance(src, list)
        vals = None if live else self.items(src)
        while k < (len(src) if live else len(vals)):
            self.assign(s.target, (src if live else vals)[k], env)
            k += 1
            try:
                self.block(s.body, env)
            except Broke:
                return
            except Continued:
                pass
        self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 200:
                raise TooLong()
            try:
                self.block(s.body, env)
            except Broke:
                return
            except Continued:
                pass
            self.steps += 1
        self.block(s.orelse, env)

    def s_With(self, s, env):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        swallow = [v.attrs["names"] for v in opened if isinstance(v, Obj) and v.kind == "suppress"]
        try:
            self.block(s.body, env)
        except Raised as r:
            if any(n in names for names in swallow for n in r.names):
                return
            raise
        finally:
            for v in opened:
                if isinstance(v, Obj) and v.kind == "tool":
                    self.wait(v)

    def handler(self, h, r, env):
        if h.type is None:
            return True
        names = self.exc_names(self.ev(h.type, env))
        return any(SIG.get(n, n) in r.names for n in names)

    def exc_names(self, v):
        if isinstance(v, (tuple, list)):
            return [n for x in v for n in self.exc_names(x)]
        if isinstance(v, Cls):
            return [v.name]
        return [repr(v).split(".")[-1]]

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as r:
                for h in s.handlers:
                    if self.handler(h, r, env):
                        if h.name:
                            env.put(h.name, Obj("exception", exc=r, args=[r.value]))
                        self.current = r
                        self.block(h.body, env)
                        break
                else:
                    raise
            except Ended as e:
                for h in s.handlers:
                    if h.type is None or "SystemExit" in self.exc_names(self.ev(h.type, env)) \
                            or "BaseException" in self.exc_names(self.ev(h.type, env)):
                        if h.name:
                            env.put(h.name, Obj("exception", exc=None, code=e.code, args=[e.code]))
                        self.current = e
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise getattr(self, "current", None) or exc("RuntimeError")
        v = self.ev(s.exc, env)
        if isinstance(v, Obj) and v.kind == "exception":
            if v.attrs.get("exc") is None:
                raise Ended(v.attrs.get("code"))
            raise v.attrs["exc"]
        if isinstance(v, Ext):
            if v.name == "SystemExit":
                raise Ended(None)
            raise exc(v.name)
        if isinstance(v, Cls):
            raise Raised(self.mro(v))
        raise exc("TypeError")      # e.g. raise 'text'

    def mro(self, c):
        out = [c.name]
        for b in c.bases:
            out += self.mro(b) if isinstance(b, Cls) else exc(b.name).names if isinstance(b, Ext) else []
        return out

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise exc("AssertionError")

    def s_Import(self, s, env):
        for a in s.names:
            m = self.module(a.name)
            env.put(a.asname or a.name.split(".")[0], m if a.asname or "." not in a.name else self.module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        m = self.module(s.module or "")
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Module):
                    for k, v in m.env.items():
                        env.put(k, v)
                continue
            env.put(a.asname or a.name, self.attr(m, a.name))

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.w.dir, name + ".py")
        if name and os.path.exists(path):
            env = Env()
            m = Module(name, env)
            self.modules[name] = m
            env["__module__"] = name
            env["__name__"] = name
            env["__file__"] = Sym("data", "file", name)
            self.block(self.w.tree(path).body, env)
            return m
        return Ext(name)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def pattern(self, p, v, env):
        t = type(p).__name__
        if t == "MatchValue":
            return self.equal(v, self.ev(p.value, env))
        if t == "MatchSingleton":
            return v is p.value
        if t == "MatchOr":
            return any(self.pattern(q, v, env) for q in p.patterns)
        if t == "MatchAs":
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                env.put(p.name, v)
            return True
        self.dontknow("pattern")
        return self.choose(2) == 0

    # -- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.w.max_steps:
            raise TooLong()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.dontknow("expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.look(e.id)
        except KeyError:
            return Ext(e.id) if hasattr(builtins, e.id) else self.undefined(e.id)

    def undefined(self, n):
        raise exc("NameError")

    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, Module):
            if n in o.env:
                return o.env[n]
            raise exc("AttributeError")
        if isinstance(o, Ext):
            full = o.name + "." + n
            if full == "sys.argv":
                return self.w.argv
            if full == "sys.stdout" or full == "sys.stderr" or full == "sys.stdin":
                return Obj("stream", path=full)
            if full == "os.environ":
                return Sym("environ")
            if full in ("os.sep", "os.path.sep"):
                return "/"
            if full == "os.linesep":
                return "\n"
            if full == "os.devnull":
                return "/dev/null"
            if full == "os.EX_OK":
                return 0
            return Ext(full)
        if isinstance(o, Obj):
            if o.kind == "tool" and n == "returncode":
                return o.attrs["code"] if o.attrs["done"] else None
            if n in o.attrs:
                return o.attrs[n]
            if o.kind == "instance":
                for c in self.classes(o.attrs["__class__"]):
                    if n in c.ns:
                        v = c.ns[n]
                        return Func(v.node, v.env, v.mod, o) if isinstance(v, Func) else v
                raise exc("AttributeError")
            return Bound(o, n)
        if isinstance(o, Cls):
            for c in self.classes(o):
                if n in c.ns:
                    return c.ns[n]
        if isinstance(o, Sym):
            return Bound(o, n)
        if isinstance(o, Bound):
            return Bound(Sym("attr", repr(o.recv), o.name), n)
        if isinstance(o, (str, Str, list, dict, set, tuple, bytes)):
            return Bound(o, n)
        if o is None or isinstance(o, (int, float)):
            raise exc("AttributeError")
        return self.dontknow("attribute " + n)

    def classes(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls):
                out += self.classes(b)
        return out

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo, up, st = (self.ev(x, env) if x else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
            if isinstance(o, (list, tuple, str, bytes)) and not any(symbolic(x) for x in (lo, up, st)):
                return o[lo:up:st]
            if isinstance(o, Str) and st is None and lo in (None, 0) and isinstance(up, int) and up < 0 and isinstance(o.parts[-1], str) \
                    and len(o.parts[-1]) >= -up:
                return text(*o.parts[:-1], o.parts[-1][:up])
            return Sym("slice", repr(o), repr(lo), repr(up), repr(st))
        k = self.ev(e.slice, env)
        return self.item(o, k)

    def item(self, o, k):
        o, k = val(o), val(k)
        if isinstance(o, dict):
            try:
                return o[k]
            except KeyError:
                if symbolic(k):
                    return Sym("item", repr(o), repr(k))
                raise exc("KeyError")
            except TypeError:
                raise exc("TypeError")
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise exc("IndexError")
            if symbolic(k):
                return Sym("item", repr(o), repr(k))
            raise exc("TypeError")
        if isinstance(o, Bound):
            return Sym("item", repr(o.recv), o.name, repr(k))
        if ("item", repr(o), repr(k)) in self.memo:
            return self.memo[("item", repr(o), repr(k))]
        if o is None:
            raise exc("TypeError")
        return Sym("item", repr(o), repr(k))

    def e_Starred(self, e, env):
        return self.dontknow("starred")

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return self.seq(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.seq(e.elts, env))

    def e_Set(self, e, env):
        return set(self.seq(e.elts, env))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, dict):
                    d.update(x)
                else:
                    self.dontknow("dict unpacking")
            else:
                d[self.hashable(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else ~v if isinstance(e.op, ast.Invert) else v
        return Sym(type(e.op).__name__, repr(v))

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env)
            if not self.compare(op, a, b):
                return False
            a = b
        return True

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return Func(e, env, env.look("__module__"))

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.tostr(self.ev(v.value, env)))
        return text(*parts)

    def tostr(self, v):
        v = val(v)
        if isinstance(v, (str, Str)):
            return v
        if isinstance(v, Sym):
            return Str((v,))
        if isinstance(v, (int, float, type(None), bytes)):
            return str(v)
        return Str((Sym("str", repr(v)),))

    def comp(self, gens, env, emit):
        def go(k, env):
            if k == len(gens):
                emit(env)
                return
            g = gens[k]
            for v in self.items(self.ev(g.iter, env)):
                inner = Env(env)
                self.assign(g.target, v, inner)
                if all(self.truth(self.ev(c, inner)) for c in g.ifs):
                    go(k + 1, inner)
        go(0, Env(env))

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.ev(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}
        self.comp(e.generators, env, lambda en: out.__setitem__(self.hashable(self.ev(e.key, en)), self.ev(e.value, en)))
        return out

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        a, b = val(a), val(b)
        t = type(op).__name__
        if t == "Mod" and isinstance(a, (str, Str)):
            return self.percent(a, b)
        if t == "Add" and (isinstance(a, (str, Str)) or isinstance(b, (str, Str)) or (isinstance(a, Sym) and isinstance(b, Sym))):
            for x in (a, b):
                if not isinstance(x, (str, Str, Sym)):
                    raise exc("TypeError")
            return text(a, b)
        if t == "Div" and (symbolic(a) or symbolic(b)) and not isinstance(a, (int, float)) and not isinstance(b, (int, float)):
            return text(a, "/", b)
        if symbolic(a) or symbolic(b) or isinstance(a, (Obj, Ext)) or isinstance(b, (Obj, Ext)):
            return Sym(t, repr(a), repr(b))
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b,
                    "Mod": lambda: a % b, "Pow": lambda: a ** b, "BitOr": lambda: a | b, "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b,
                    "LShift": lambda: a << b, "RShift": lambda: a >> b}[t]()
        except TypeError:
            raise exc("TypeError")
        except ZeroDivisionError:
            raise exc("ZeroDivisionError")
        except (KeyError, OverflowError, ValueError):
            return self.dontknow("operator " + t)

    def percent(self, a, b):
        args = list(b) if isinstance(b, tuple) else [b]
        whole = b
        out, k = [], 0
        for p in (a.parts if isinstance(a, Str) else (a,)):
            if not isinstance(p, str):
                out.append(p)
                continue
            j = 0
            while j < len(p):
                if p[j] != "%":
                    out.append(p[j])
                    j += 1
                    continue
                m = j + 1
                key = None
                if p[m:m + 1] == "(":
                    z = p.index(")", m)
                    key, m = p[m + 1:z], z + 1
                while m < len(p) and p[m] in "0123456789.-+ #":
                    m += 1
                if m >= len(p):
                    raise exc("ValueError")
                if p[m] == "%":
                    out.append("%")
                elif p[m] in "sdrixfgeuXoc":
                    if key is not None:
                        if not isinstance(whole, dict) or key not in whole:
                            raise exc("KeyError")
                        v = whole[key]
                    else:
                        if k >= len(args):
                            raise exc("TypeError")
                        v = args[k]
                        k += 1
                    if p[m] in "dixuXo" and isinstance(v, (str, Str, list, dict, type(None))):
                        raise exc("TypeError")
                    spec = p[j:m + 1]
                    out.append(spec % v if isinstance(v, (int, float, str)) and key is None else self.tostr(v))
                else:
                    raise exc("ValueError")
                j = m + 1
        if not isinstance(whole, dict) and k < len(args):
            raise exc("TypeError")
        return text(*out)

    # -- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.seq(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update(v)
                else:
                    self.dontknow("keyword unpacking")
            else:
                kw[k.arg] = v
        self.sites.add((env.look("__module__"), e.lineno))
        return self.call(f, args, kw, env)

    def call(self, f, args, kw, env=None):
        try:
            return self.call1(f, args, kw)
        except (IndexError, KeyError, AttributeError, ValueError, TypeError) as e:
            raise exc("TypeError", "%s" % e)

    def call1(self, f, args, kw):
        if isinstance(f, Func):
            return self.enter(f, args, kw)
        if isinstance(f, Bound):
            return self.method(f.recv, f.name, args, kw)
        if isinstance(f, Ext):
            return self.external(f.name, args, kw)
        if isinstance(f, Cls):
            if any("Exception" in n or "Error" in n for n in self.mro(f)):
                return Obj("exception", exc=Raised(self.mro(f), args), args=args)
            o = Obj("instance", __class__=f)
            for c in self.classes(f):
                if "__init__" in c.ns:
                    i = c.ns["__init__"]
                    self.enter(Func(i.node, i.env, i.mod, o), args, kw)
                    break
            return o
        if isinstance(f, Obj) and f.kind == "partial":
            return self.call(f.attrs["func"], f.attrs["args"] + args, {**f.attrs["kw"], **kw})
        if f is None or isinstance(f, (int, str, list, dict, tuple)):
            raise exc("TypeError")
        return self.dontknow("call of " + repr(f)[:40])

    def enter(self, f, args, kw):
        a = f.node.args
        if f.recv is not None:
            args = [f.recv] + list(args)
        env = Env(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and a.vararg is None:
            raise exc("TypeError")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kw)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise exc("TypeError")
        for n, d in zip(reversed(names), reversed(a.defaults)):
            if n not in env:
                env[n] = self.ev(d, f.env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, f.env)
        if any(n not in env for n in names):
            raise exc("TypeError")
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        self.functions.add((f.mod, f.node.name))
        depth = getattr(self, "depth", 0)
        if depth > 60:
            raise TooLong()
        self.depth = depth + 1
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if gen:
            env["__yields__"] = []
        try:
            self.block(f.node.body, env)
        except Returned as r:
            return env["__yields__"] if gen else r.value
        finally:
            self.depth = depth
        return env["__yields__"] if gen else None

    def e_Yield(self, e, env):
        env.look("__yields__").append(self.ev(e.value, env) if e.value else None)
        return None

    def e_YieldFrom(self, e, env):
        env.look("__yields__").extend(self.items(self.ev(e.value, env)))
        return None

    # -- tools and files
    def event(self, kind, **kw):
        self.events.append(dict(kind=kind, line=self.where[-1] if self.where else 0, **kw))
        return self.events[-1]

    def tool(self, argv, statuses=FAILING):
        if isinstance(argv, (str, Str)) or isinstance(argv, Sym):
            argv = [argv]
        argv = list(argv) if isinstance(argv, (list, tuple)) else [argv]
        code = self.w.outcome(argv)
        if code is None:
            c = self.choose(2 + len(statuses))
            if c > len(statuses):
                if statuses is not FAILING:
                    code = 127 << 8         # the shell did not find it
                else:
                    self.event("tool", argv=argv, code=127)
                    raise exc("FileNotFoundError")
            else:
                code = 0 if c == 0 else statuses[c - 1]
        e = self.event("tool", argv=argv, code=code)
        return e, code

    def wait(self, o):
        o.attrs["done"] = True
        return o.attrs["code"]

    def run(self, name, args, kw):
        argv = args[0] if args else kw.get("args")
        short = name.split(".")[-1]
        if isinstance(argv, list) and any(isinstance(x, (list, dict, type(None))) for x in argv):
            raise exc("TypeError")
        if name in ("os.system",):
            return self.tool(argv, (768, 9))[1]
        if short == "getstatusoutput":
            return (self.tool(argv)[1], self.new("output"))
        if short in ("getoutput",):
            self.tool(argv)
            return self.new("output")
        e, code = self.tool(argv)
        if short == "call":
            return code
        if short == "check_call":
            if code:
                raise exc("CalledProcessError", code)
            return 0
        if short == "check_output":
            if code:
                raise exc("CalledProcessError", code)
            return self.new("output")
        out = self.w.stdout(argv, code)
        o = Obj("tool", code=code, done=short == "run", stdout=self.new("output") if out is None else out, stderr=self.new("output"), args=argv)
        e["stdout"] = o.attrs["stdout"]
        if short == "run" and self.truth(kw.get("check", False)) and code:
            raise exc("CalledProcessError", code)
        return o

    def attempt(self, kind, errors, **kw):
        """something done to the file system, which may fail"""
        c = self.choose(1 + len(errors))
        ok = c == 0
        self.event(kind, ok=ok, error=None if ok else errors[c - 1], **kw)
        if not ok:
            raise exc(errors[c - 1])

    def external(self, n, args, kw):
        if n in ("subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "os.system",
                 "subprocess.getoutput", "subprocess.getstatusoutput"):
            return self.run(n, args, kw)
        if n in ("os.spawnvp", "os.spawnv"):
            return self.tool(args[2])[1]
        if n in ("sys.exit", "exit", "quit", "os._exit"):
            raise Ended(args[0] if args else None)
        if n == "SystemExit":
            return Obj("exception", exc=None, code=args[0] if args else None, args=args)
        if n == "open" or n in ("io.open", "codecs.open"):
            mode = args[1] if len(args) > 1 else kw.get("mode", "r")
            if not isinstance(mode, str) or any(c in mode for c in "wax+"):
                self.attempt("write", ["PermissionError"], path=args[0])
                return Obj("file", path=args[0], mode=mode)
            return Obj("file", path=args[0], mode="r")
        if n in ("shutil.copyfile", "shutil.copy", "shutil.copy2", "os.rename", "os.replace", "shutil.move", "os.link", "os.symlink"):
            dst = args[1] if len(args) > 1 else kw.get("dst")
            self.attempt("write", ["PermissionError"], path=dst, src=args[0] if args else kw.get("src"))
            return dst
        if n in ("os.mkdir",):
            self.attempt("mkdir", ["PermissionError", "FileExistsError", "FileNotFoundError"], path=args[0])
            return None
        if n in ("os.makedirs",):
            ok = kw.get("exist_ok", args[2] if len(args) > 2 else False)
            self.attempt("mkdir", ["PermissionError"] + ([] if ok else ["FileExistsError"]), path=args[0])
            return None
        if n in ("os.remove", "os.unlink"):
            return None
        if n == "contextlib.suppress":
            return Obj("suppress", names=[SIG.get(x, x) for x in self.exc_names(list(args))])
        if n == "functools.partial":
            return Obj("partial", func=args[0], args=list(args[1:]), kw=kw)
        if n == "json.loads":
            return self.w.decode(args[0])
        if n == "json.load":
            return Sym("json", repr(args[0].attrs.get("path")) if isinstance(args[0], Obj) else repr(args[0]))
        if n == "json.dumps":
            self.event("dumps", value=args[0])
            return Str((Sym("dumps", repr(args[0])),))
        if n == "json.dump":
            if isinstance(args[1], Obj) and args[1].kind == "file":
                self.attempt("write", ["OSError"], path=args[1].attrs["path"])
            return None
        if n == "print":
            self.event("print", args=args, to=kw.get("file"))
            return None
        if n == "string.Template":
            return Obj("template", template=args[0])
        if n in ("copy.copy", "copy.deepcopy"):
            return self.deep(args[0])
        if n == "os.getcwd":
            return Sym("data", "cwd")
        if n in ("os.getenv", "os.environ.get"):
            return self.method(Sym("environ"), "get", args, kw)
        if n in ("os.path.dirname", "os.path.basename", "os.path.relpath", "os.path.abspath", "os.path.normpath", "os.path.realpath"):
            if all(isinstance(a, str) for a in args) and n.split(".")[-1] in ("dirname", "basename", "normpath"):
                return getattr(os.path, n.split(".")[-1])(*args)
            return Sym(n.split(".")[-1], *[repr(a) for a in args])
        if n == "os.path.join":
            return text(*[x for k, a in enumerate(args) for x in (("/", a) if k else (a,))])
        if n == "os.path.splitext":
            a = args[0]
            if isinstance(a, str):
                return os.path.splitext(a)
            if isinstance(a, Str) and isinstance(a.parts[-1], str) and "." in a.parts[-1] and "/" not in a.parts[-1].rpartition(".")[2]:
                b, _, x = a.parts[-1].rpartition(".")
                return (text(*a.parts[:-1], b), "." + x)
            return (Sym("stem", repr(a)), Sym("ext", repr(a)))
        return self.builtin(n, args, kw)

    def deep(self, v):
        if isinstance(v, list):
            return [self.deep(x) for x in v]
        if isinstance(v, dict):
            return {k: self.deep(x) for k, x in v.items()}
        return v

    def builtin(self, n, args, kw):
        a = args[0] if args else None
        if n in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "any", "all", "sum", "min", "max", "map", "filter",
                 "itertools.chain", "itertools.chain.from_iterable", "iter", "collections.deque"):
            if n in ("min", "max", "sum") and len(args) == 1 and symbolic(a):
                return Sym(n, repr(a))
            if n == "itertools.chain":
                return [x for v in args for x in self.items(v)]
            if n == "itertools.chain.from_iterable":
                return [x for v in self.items(a) for x in self.items(v)]
            if n == "map":
                return [self.call(a, list(t), {}) for t in zip(*[self.items(v) for v in args[1:]])]
            if n == "filter":
                return [x for x in self.items(args[1]) if self.truth(x if a is None else self.call(a, [x], {}))]
            if n == "zip":
                return list(zip(*[self.items(v) for v in args]))
            if n in ("min", "max") and len(args) > 1:
                vals = list(args)
            else:
                vals = self.items(a) if args else []
            if n in ("list", "iter", "collections.deque"):
                return vals
            if n == "tuple":
                return tuple(vals)
            if n in ("set", "frozenset"):
                for v in vals:
                    self.hashable(v)
                return set(vals)
            if n == "reversed":
                return vals[::-1]
            if n == "enumerate":
                return list(enumerate(vals, kw.get("start", args[1] if len(args) > 1 else 0)))
            if n == "any":
                return any([self.truth(v) for v in vals])
            if n == "all":
                return all([self.truth(v) for v in vals])
            if n == "sorted":
                return self.sort(vals, kw)
            if any(symbolic(v) for v in vals):
                return Sym(n, repr(vals))
            if n == "sum":
                r = args[1] if len(args) > 1 else 0
                for v in vals:
                    r = self.binop(ast.Add(), r, v)
                return r
            try:
                key = kw.get("key")
                return (min if n == "min" else max)(vals, key=(lambda x: self.call(key, [x], {})) if key else None)
            except ValueError:
                if "default" in kw:
                    return kw["default"]
                raise exc("ValueError")
            except TypeError:
                return self.dontknow(n)
        if n == "functools.reduce":
            vals = self.items(args[1])
            r = args[2] if len(args) > 2 else vals.pop(0)
            for v in vals:
                r = self.call(a, [r, v], {})
            return r
        if n == "dict" or n in ("collections.OrderedDict", "collections.defaultdict"):
            d = {}
            if args and isinstance(a, dict):
                d.update(a)
            elif args and n != "collections.defaultdict":
                for p in self.items(a):
                    p = self.items(p)
                    d[self.hashable(p[0])] = p[1]
            d.update(kw)
            return d
        if n in ("dict.fromkeys", "collections.OrderedDict.fromkeys"):
            return dict.fromkeys(self.items(a), args[1] if len(args) > 1 else None)
        if n == "len":
            if isinstance(a, (list, tuple, dict, set, str, bytes)):
                return len(a)
            return Sym("len", repr(a))
        if n == "range":
            if all(isinstance(x, int) for x in args):
                return range(*args)
            return Sym("range", repr(args))
        if n == "str":
            return self.tostr(a) if args else ""
        if n == "repr":
            return Str((Sym("repr", repr(a)),))
        if n in ("int", "float", "bool", "abs"):
            if n == "bool":
                return self.truth(a) if args else False
            if isinstance(a, (int, float, str)):
                try:
                    return getattr(builtins, n)(a)
                except (ValueError, TypeError):
                    raise exc("ValueError")
            if not args:
                return 0
            return Sym(n, repr(a))
        if n == "isinstance":
            return self.choose(2, ("isinstance", repr(a), repr(args[1]))) == 0 if symbolic(a) else self.isinst(a, args[1])
        if n in ("hasattr",):
            return self.choose(2, (n, repr(args))) == 0
        if n == "getattr":
            return self.attr(a, args[1])
        if n == "next":
            v = self.items(a)
            if v:
                return v[0]
            if len(args) > 1:
                return args[1]
            raise exc("StopIteration")
        if n == "filter":
            return self.dontknow(n)
        c = getattr(builtins, n.split(".")[-1], None)
        if isinstance(c, type) and issubclass(c, BaseException) or n.endswith("Error") or n.endswith("Exception"):
            return Obj("exception", exc=exc(n, args), args=args)
        if n.startswith("sys.stdout") or n.startswith("sys.stderr"):
            return None
        # a function of another module: a value determined by its arguments
        self.event("call", name=n, args=list(args) + list(kw.values()))
        return Sym("call", n, repr(args), repr(sorted(kw.items(), key=repr)))

    def isinst(self, v, c):
        names = [x.name if isinstance(x, Ext) else repr(x) for x in (c if isinstance(c, tuple) else (c,))]
        return any(k.__name__ in names for k in type(v).__mro__) or (isinstance(v, Str) and "str" in names)

    def sort(self, vals, kw):
        key = kw.get("key")
        keys = [self.call(key, [v], {}) if key else v for v in vals]
        try:
            order = sorted(range(len(vals)), key=lambda k: keys[k], reverse=bool(kw.get("reverse", False)))
        except TypeError:
            self.dontknow("sort")
            return vals
        return [vals[k] for k in order]

    def method(self, o, n, args, kw):
        if isinstance(o, Obj):
            return self.omethod(o, n, args, kw)
        if isinstance(o, list):
            if n == "sort":
                o[:] = self.sort(list(o), kw)
                return None
            if n == "extend":
                o.extend(self.items(args[0]))
                return None
            if n == "append":
                o.append(args[0])
                return None
            if n == "appendleft":
                o.insert(0, args[0])
                return None
            if n == "popleft":
                n, args = "pop", [0]
            if n in ("insert", "reverse", "pop", "index", "copy", "count", "clear", "remove"):
                return self.native(o, n, args, kw)
        if isinstance(o, dict):
            if n in ("items", "keys", "values"):
                return [tuple(x) if n == "items" else x for x in getattr(o, n)()]
            if n in ("get", "setdefault", "pop", "update", "copy", "clear"):
                return self.native(o, n, args, kw)
        if isinstance(o, (set, frozenset)):
            if n in ("update", "union", "difference", "intersection", "issubset", "isdisjoint"):
                args = [set(self.items(a)) for a in args]
            return self.native(o, n, args, kw)
        if isinstance(o, (str, Str)) and n == "join":
            parts = []
            for k, v in enumerate(self.items(args[0])):
                if not isinstance(v, (str, Sym, Str)):
                    raise exc("TypeError")
                parts += ([o] if k else []) + [v]
            return text(*parts)
        if isinstance(o, str) and n == "format":
            return self.format(o, args, kw)
        if isinstance(o, str) and not any(symbolic(a) for a in args):
            if n in ("startswith", "endswith") and args and isinstance(args[0], list):
                raise exc("TypeError")
            return self.native(o, n, args, kw)
        if isinstance(o, (tuple, bytes)):
            return self.native(o, n, args, kw)
        if isinstance(o, Str):
            if n in ("lower", "upper", "casefold"):
                return text(*[p.lower() if isinstance(p, str) and n != "upper" else p.upper() if isinstance(p, str) else Sym(n, *p.key) for p in o.parts])
            if n == "endswith" and args and isinstance(args[0], (str, tuple)) and isinstance(o.parts[-1], str):
                c = args[0] if isinstance(args[0], tuple) else (args[0],)
                if any(o.parts[-1].endswith(x) for x in c):
                    return True
                if all(len(x) <= len(o.parts[-1]) or not x.endswith(o.parts[-1]) for x in c):
                    return False
            if n == "startswith" and args and isinstance(args[0], str) and isinstance(o.parts[0], str):
                if o.parts[0].startswith(args[0]):
                    return True
                if len(args[0]) <= len(o.parts[0]):
                    return False
            if n in ("rpartition", "rsplit", "partition", "split") and args and args[0] == "." and isinstance(o.parts[-1], str) \
                    and o.parts[-1].count(".") == 1 and n in ("rpartition",):
                b, d, x = o.parts[-1].rpartition(".")
                return (text(*o.parts[:-1], b), d, x)
        if isinstance(o, Sym):
            if o.key == ("environ",) and n == "get":
                d = args[1] if len(args) > 1 else kw.get("default")
                return Sym("item", repr(o), repr(args[0])) if self.contains(args[0], o) else d
            if n in ("get", "setdefault") and len(args) > 1:
                return self.item(o, args[0]) if self.contains(args[0], o) else args[1]
            if n in ("lower", "upper", "casefold") and not args:
                return Sym(n, *o.key)
        if n in ("startswith", "endswith", "isdigit", "isalpha"):
            return self.choose(2, (n, repr(o), repr(args))) == 1
        self.event("call", name=n, args=list(args) + list(kw.values()))
        return Sym("method", repr(o), n, repr(args), repr(sorted(kw.items(), key=repr)))

    def native(self, o, n, args, kw):
        try:
            return getattr(o, n)(*args, **kw)
        except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
            raise exc(type(e).__name__)

    def format(self, o, args, kw):
        out, auto = [], 0
        try:
            pieces = list(string.Formatter().parse(o))
        except ValueError:
            raise exc("ValueError")
        for lit, field, spec, conv in pieces:
            out.append(lit)
            if field is None:
                continue
            if field == "":
                k, auto = auto, auto + 1
            else:
                k = int(field) if field.isdigit() else field
            try:
                v = args[k] if isinstance(k, int) else kw[k]
            except IndexError:
                raise exc("IndexError")
            except KeyError:
                v = self.dontknow("format field")
            out.append(self.tostr(v))
        return text(*out)

    def omethod(self, o, n, args, kw):
        if o.kind == "tool":
            if n == "communicate":
                self.wait(o)
                return (o.attrs["stdout"], o.attrs["stderr"])
            if n in ("wait", "poll"):
                return self.wait(o)
            if n == "check_returncode":
                if o.attrs["code"]:
                    raise exc("CalledProcessError", o.attrs["code"])
                return None
            if n == "__enter__":
                return o
        if o.kind == "file":
            if n in ("write", "writelines"):
                self.attempt("write", ["OSError"], path=o.attrs["path"])
                return None
            if n in ("read", "readlines"):
                return Sym("content", repr(o.attrs["path"]))
            return None
        if o.kind == "stream":
            return None
        if o.kind == "template":
            return self.template(o.attrs["template"], args[0] if args else {}, kw, n)
        return Sym("method", repr(o), n, repr(args))

    def template(self, t, d, kw, n):
        if not isinstance(t, str):
            return Sym("subst", repr(t), repr(d), repr(kw))
        out, k = [], 0
        for m in string.Template.pattern.finditer(t):
            out.append(t[k:m.start()])
            k = m.end()
            name = m.group("named") or m.group("braced")
            if name:
                if name in kw:
                    out.append(self.tostr(kw[name]))
                elif isinstance(d, dict) and name in d:
                    out.append(self.tostr(d[name]))
                elif symbolic(d):
                    out.append(self.tostr(self.item(d, name)))
                elif n == "safe_substitute":
                    out.append(m.group(0))
                else:
                    raise exc("KeyError")
            elif m.group("escaped") is not None:
                out.append("$")
            else:
                raise exc("ValueError")
        return text(*out, t[k:])


class World:
    """one script, started with given arguments"""

    def __init__(self, script, argv, decode, assume=None, max_steps=MAX_STEPS):
        self.script = script
        self.dir = os.path.dirname(script)
        self.argv0 = argv
        self.decode0 = decode
        self.assume = assume or {}
        self.max_steps = max_steps
        self.trees = {}

    def tree(self, path):
        if path not in self.trees:
            try:
                self.trees[path] = ast.parse(open(path, encoding="utf-8").read(), path)
            except (OSError, SyntaxError, ValueError) as e:
                raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        return self.trees[path]

    def decode(self, v):
        return self.decode0(v)

    def stdout(self, argv, code):
        """what a tool prints, where the rule supplies it"""
        return None

    def outcome(self, argv):
        """how a tool ends, where the rule supplies it"""
        return None

    def paths(self):
        tree = self.tree(self.script)
        choices, n = [], 0
        while True:
            n += 1
            if n > MAX_PATHS:
                raise AnalysisBroken("%s: more than %d paths" % (os.path.basename(self.script), MAX_PATHS))
            p = Path(self, choices)
            p.memo.update(self.assume)
            self.argv = list(self.argv0)
            env = Env()
            name = os.path.basename(self.script)[:-3]
            env["__module__"] = name
            env["__name__"] = "__main__"
            env["__file__"] = Sym("data", "file", name)
            try:
                p.block(tree.body, env)
                p.code = 0
            except Ended as e:
                p.code = self.status(p, e.code)
            except Raised as r:
                p.code = 1
                p.raised = r.names[0]
            except (Returned, Broke, Continued):
                p.code = None
            except TooLong:
                p.code = None
                p.unknown.append("too long")
            except RecursionError:
                p.code = None
                p.unknown.append("too deep")
            yield p
            t = p.taken
            while t and t[-1][0] + 1 >= t[-1][1]:
                t.pop()
            if not t:
                return
            choices = [c for c, _ in t[:-1]] + [t[-1][0] + 1]

    def status(self, p, c):
        if c is None:
            return 0
        if isinstance(c, bool):
            return int(c)
        if isinstance(c, int):
            return c & 0xff
        if isinstance(c, Sym):
            return None             # not decided
        return 1
