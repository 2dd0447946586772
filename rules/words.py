"""Strings with known contents: the standard string operations, as far as the program uses them, on constant texts."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import is_ptr, is_term, Throw

STR = r"^std::(__cxx11::)?basic_string::"
PATH = r"^std::filesystem::(__cxx11::)?path::"


def params_of(fn):
    """types of the parameters, from the demangled name"""
    s = fn.dn
    s = re.sub(r"\[abi:cxx11\]", "", s)
    if s.endswith(" const"):
        s = s[:-6]
    if not s.endswith(")"):
        return []
    depth, k = 0, len(s) - 1
    while k >= 0:
        depth += s[k] == ")"
        depth -= s[k] == "("
        if depth == 0:
            break
        k -= 1
    body, out, cur, d = s[k + 1:-1], [], "", 0
    for c in body:
        d += c in "<(" 
        d -= c in ">)"
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Words:
    """contents of the string objects, in the ghost component 'strs': (memory, offset) -> bytes"""

    def __init__(self, g, num=None):
        self.g = g
        self.num = num

    # -- contents
    def get(self, st, q):
        if not is_ptr(q):
            return None
        return dict(self.g.get(st, "strs")).get((q[1], q[2]))

    def put(self, st, q, v):
        d = dict(self.g.get(st, "strs"))
        if v is None:
            d.pop((q[1], q[2]), None)
        else:
            d[(q[1], q[2])] = v
        self.g.put(st, strs=tuple(sorted(d.items(), key=repr)))

    def data(self, m, st, v):
        o = ("chars", v)
        if o not in st.mem:
            st.mem[o] = {}
            for k, c in enumerate(v + b"\0"):
                m.store(st, ("p", o, k), 1, c)
        return ("p", o, 0)

    def text(self, m, st, q, ty):
        """the text an argument of the given type stands for"""
        if ty.startswith(("std::__cxx11::basic_string", "std::basic_string<", "std::filesystem")):
            v = self.get(st, q)
        elif ty in ("char", "char const&", "char&&", "char&"):
            if isinstance(q, int):
                v = bytes([q & 255])
            elif is_ptr(q):
                c = m.load(st, q, 1, "i8", peek=True)
                v = bytes([c & 255]) if isinstance(c, int) else None
            else:
                v = None
        elif re.match(r"char( const)?\*( const)?&", ty):
            v = m.cstr(st, m.load(st, q, 8, "p", peek=True))
        elif ty.startswith("char"):
            v = m.cstr(st, q)
        else:
            v = None
        if v is None:
            raise AnalysisBroken("the contents of a string are unknown: %s %s" % (ty, q))
        return v

    def span(self, m, st, a, b):
        if is_ptr(a) and is_ptr(b) and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
            v = m.rdbytes(st, a, b[2] - a[2])
            if v is not None:
                return v
        raise AnalysisBroken("the contents of a string are unknown: %s" % ty)

    def value(self, m, st, fn, args, ps):
        """what constructors and appending functions take"""
        ps = [x for x in ps if not x.startswith("std::allocator") and "::format" not in x]
        if not ps:
            return b""
        if len(ps) == 1:
            if "string_view" in ps[0] or "basic_string_view" in ps[0]:
                v = m.rdbytes(st, args[1], args[0])
                if v is None:
                    raise AnalysisBroken("the contents of a string are unknown: %s" % ty)
                return v
            if "initializer_list" in ps[0]:
                v = m.rdbytes(st, args[0], args[1])
                if v is None:
                    raise AnalysisBroken("the contents of a string are unknown: %s" % ty)
                return v
            return self.text(m, st, args[0], ps[0])
        if ps[0].startswith("unsigned long") and ps[1].startswith("char"):
            if isinstance(args[0], int):
                return self.text(m, st, args[1], "char") * args[0]
        if ps[0].startswith("char") and ps[1].startswith("unsigned long"):
            v = m.rdbytes(st, args[0], args[1])
            if v is not None:
                return v
        if ps[0] == ps[1] or "iterator" in ps[0]:
            return self.span(m, st, args[0], args[1])
        if ps[0].startswith("std::__cxx11::basic_string") and len(ps) >= 2 and isinstance(args[1], int):
            v = self.text(m, st, args[0], ps[0])
            return v[args[1]:] if len(ps) == 2 or not isinstance(args[2], int) or args[2] > len(v) else v[args[1]:args[1] + args[2]]
        raise AnalysisBroken("the contents of a string are unknown: %s" % fn.dn[:160])

    # -- hooks
    def hooks(self):
        W = self

        def h_str(m, st, i, fn, args):
            if "::operator std::basic_string_view" in fn.sn or "::operator basic_string_view" in fn.sn:
                v = W.get(st, args[0])
                if v is None:
                    raise AnalysisBroken("the contents of a string are unknown: %s" % fn.dn[:120])
                return [(st, ("agg", (len(v), W.data(m, st, v))))]
            name = fn.sn.rsplit("::", 1)[1]
            sret = bool(fn.params) and fn.params[0].startswith("pr")
            ps = params_of(fn)
            if name in ("basic_string", "path"):
                W.put(st, args[0], W.value(m, st, fn, args[1:], ps))
                return [(st, None)]
            if name.startswith("~"):
                W.put(st, args[0], None)
                return [(st, None)]
            this = args[1] if sret else args[0]
            v = W.get(st, this)
            if v is None:
                raise AnalysisBroken("the contents of a string are unknown: %s" % fn.dn[:120])
            if name in ("operator+=", "append", "push_back"):
                if name == "append" and len(ps) == 3 and ps[0].startswith("std::__cxx11"):
                    add = W.value(m, st, fn, args[1:], ps)
                else:
                    add = W.value(m, st, fn, args[1:], ps)
                W.put(st, this, v + add)
                return [(st, this)]
            if name in ("operator=", "assign"):
                W.put(st, this, W.value(m, st, fn, args[1:], ps))
                return [(st, this)]
            if name in ("size", "length"):
                return [(st, len(v))]
            if name == "empty":
                return [(st, int(not v))]
            if name in ("data", "c_str", "begin", "cbegin"):
                return [(st, W.data(m, st, v))]
            if name in ("end", "cend"):
                return [(st, ("p", W.data(m, st, v)[1], len(v)))]
            if name in ("operator[]", "at") and isinstance(args[1], int):
                return [(st, ("p", W.data(m, st, v)[1], args[1]))]
            if name in ("front", "back"):
                return [(st, ("p", W.data(m, st, v)[1], 0 if name == "front" else len(v) - 1))]
            if name in ("reserve", "shrink_to_fit"):
                return [(st, None)]
            if name == "clear":
                W.put(st, this, b"")
                return [(st, None)]
            if name == "pop_back":
                W.put(st, this, v[:-1])
                return [(st, None)]
            if name in ("native", "string") and not sret:
                return [(st, this)]
            if name in ("string", "u8string", "generic_string", "substr"):
                if name == "substr":
                    v = v[args[2]:] if args[3] == (1 << 64) - 1 else v[args[2]:args[2] + args[3]]
                W.put(st, args[0], v)
                return [(st, None)]
            if name in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
                t = W.text(m, st, args[1], ps[0])
                npos = (1 << 64) - 1
                k0 = args[2] if len(args) > 2 and isinstance(args[2], int) else 0 if "last" not in name and name != "rfind" else npos
                if name == "find":
                    r = v.find(t, k0)
                elif name == "rfind":
                    r = v.rfind(t) if k0 == npos else v.rfind(t, 0, k0 + len(t))
                else:
                    inn = "not" not in name
                    ks = [k for k in range(len(v)) if (v[k] in t) == inn and (k <= k0 if "last" in name else k >= k0)]
                    r = (ks[-1] if "last" in name else ks[0]) if ks else -1
                return [(st, r & ((1 << 64) - 1))]
            if name.startswith("operator ") and sret:
                W.put(st, args[0], v)
                return [(st, None)]
            if name == "compare":
                if ps and ps[0] == "unsigned long" and len(ps) in (3, 4):
                    a, k = v[args[1]:args[1] + args[2]], 3
                elif len(ps) == 1:
                    a, k = v, 1
                else:
                    raise AnalysisBroken("an operation on strings is not known: %s" % fn.dn[:120])
                t = m.rdbytes(st, args[3], args[4]) if len(ps) == 4 else W.text(m, st, args[k], ps[-1])
                if t is None:
                    raise AnalysisBroken("the contents of a string are unknown")
                return [(st, 0 if a == t else 1 if a > t else 0xffffffff)]
            raise AnalysisBroken("an operation on strings is not known: %s" % fn.dn[:120])

        def h_plus(m, st, i, fn, args):
            ps = params_of(fn)
            if len(args) != 3 or not any("basic_string" in x for x in ps):
                return None
            W.put(st, args[0], W.text(m, st, args[1], ps[0]) + W.text(m, st, args[2], ps[1]))
            return [(st, None)]

        def h_eq(m, st, i, fn, args):
            ps = params_of(fn)
            if len(args) != 2 or not any("basic_string<" in x or "path" in x for x in ps) or any("view" in x or "iterator" in x for x in ps):
                return None
            a, b = (W.text(m, st, q, t) for q, t in zip(args, ps))
            return [(st, int((a == b) == fn.sn.endswith("==")))]

        def h_num(m, st, i, fn, args):
            W.put(st, args[0], W.num(args[1]) if W.num else str(args[1]).encode())
            return [(st, None)]
        # on constant texts
        def h_c(m, st, i, fn, args):
            if fn.sn in ("memcmp", "bcmp"):
                a, b = (m.rdbytes(st, q, args[2]) if isinstance(args[2], int) and is_ptr(q) else None for q in args[:2])
                return None if a is None or b is None else [(st, 0 if a == b else 1 if a > b else 0xffffffff)]
            a = m.cstr(st, args[0])
            if a is None:
                return None
            if fn.sn == "strlen":
                return [(st, len(a))]
            b = m.cstr(st, args[1])
            if b is None:
                return None
            if fn.sn == "strncmp":
                k = args[2]
                if not isinstance(k, int):
                    return None
                a, b = (a + b"\0")[:k], (b + b"\0")[:k]
            return [(st, 0 if a == b else 1 if a > b else 0xffffffff)]

        def h_atoi(m, st, i, fn, args):
            a = m.cstr(st, args[0])
            if a is None:
                return None
            sn = fn.sn.replace("__isoc23_", "")
            if sn.startswith("strto"):
                base = args[2]
                mt = re.match(rb"\s*[+-]?(0[xX][0-9a-fA-F]+|[0-9]+)" if base in (0, 16) else rb"\s*[+-]?[0-9]+", a)
                s = mt.group(0) if mt else b""
                if is_ptr(args[1]) and args[1][1] != ("null",):
                    m.store(st, args[1], 8, ("p", args[0][1], args[0][2] + len(s)))
                s = s.strip().lower()
                neg, d = s.startswith(b"-"), s.lstrip(b"+-")
                v = 0 if not d else int(d, 16) if d.startswith(b"0x") or base == 16 else int(d, 8) if base == 0 and d.startswith(b"0") and len(d) > 1 and set(d) <= set(b"01234567") else int(d)
                v = -v if neg else v
                lim = 63 if not sn.startswith("strtou") else 64
                over = not -(1 << 63) <= v < 1 << lim
                if over:
                    v = (1 << 63) - 1 if v > 0 else -(1 << 63)
                    W.overflow(m, st)
                return [(st, v & ((1 << 64) - 1))]
            mt = re.match(rb"\s*([+-]?[0-9]+)", a)
            v = int(mt.group(1)) if mt else 0
            return [(st, v & 0xffffffff)]
        return [(re.compile(STR), h_str), (re.compile(PATH), h_str), (re.compile(r"^std::operator\+$"), h_plus), (re.compile(r"^std::operator(==|!=)$"), h_eq), (re.compile(r"path::operator(==|!=)$"), h_eq),
                (re.compile(r"^std::(__cxx11::)?to_string$"), h_num), (re.compile(r"^(strlen|strcmp|strncmp|memcmp|bcmp)$"), h_c), (re.compile(r"^(__isoc23_)?(atoi|atol|strtol|strtoll|strtoul|strtoull)$"), h_atoi)]

    def overflow(self, m, st):
        """errno becomes ERANGE"""
        if ("errno",) in st.mem:
            m.store(st, ("p", ("errno",), 0), 4, 34)


def chars(m, st, name, text):
    """a constant text in memory"""
    st.mem[(name,)] = {}
    for k, c in enumerate(text + b"\0"):
        m.store(st, ("p", (name,), k), 1, c)
    return ("p", (name,), 0)
