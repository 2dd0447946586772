"""The IR as Python objects: functions, blocks, instructions; liveness, loop headers, call graph."""
import json
import re
from .build_ir import AnalysisBroken


class Instr:
    __slots__ = ("op", "d", "t", "a", "l", "lf", "x", "uid", "fn")

    def __init__(self, j, uid, fn):
        self.op = j["o"]
        self.d = j.get("d", -1)
        self.t = j.get("t", "v")
        self.a = [tuplify(z) for z in j.get("a", ())]
        self.l = j.get("l", 0)
        self.lf = j.get("lf")
        self.x = j
        self.uid = uid
        self.fn = fn
        if "c" in j:
            j["c"] = tuplify(j["c"])
        if "var" in j:
            j["var"] = [(tuplify(v), s) for v, s in j["var"]]
        if "cases" in j:
            j["cases"] = {v: b for v, b in j["cases"]}
        if "clauses" in j:
            j["clauses"] = [(k, tuplify(c)) for k, c in j["clauses"]]

    @property
    def loc(self):
        return "%s:%d" % (self.lf or self.fn.file, self.l)

    def callee(self):
        c = self.x.get("c")
        return c[1] if c and c[0] == "g" else None


def tuplify(z):
    return tuple(tuplify(i) for i in z) if isinstance(z, list) else z


_OPS = re.compile(r"operator(<<=|>>=|<=>|->\*|<<|>>|<=|>=|->|\(\)|<|>)")


def short_name(dn):
    """Qualified name without return type, template arguments and parameter lists."""
    s = dn.replace("(anonymous namespace)", "{anon}").replace(" [clone", "[clone")
    s = re.sub(r"\[abi:\w+\]", "", s)
    ops = []

    def keep(m):
        ops.append(m.group(0))
        return "operator@%d@" % (len(ops) - 1)
    s = _OPS.sub(keep, s)
    out, d = [], 0
    for k, ch in enumerate(s):
        if ch in "<(" :
            d += 1
        elif ch in ">)" and not (ch == ">" and s[k - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    s = re.sub(r"( const| volatile| ?&&| ?&| noexcept)+$", "", s.strip()).strip()
    s = re.sub(r" const(?=::)", "", s)
    m = re.search(r"(?:^|[ ])((?:[^ ]*::)?operator(?: .*|\S*))$", s)
    if m and "operator" in s:
        r = m.group(1)
    else:
        r = s.split(" ")[-1]
    r = re.sub(r"operator@(\d+)@", lambda m: ops[int(m.group(1))], r)
    return r


class Func:
    def __init__(self, j):
        self.j = j
        self.name = j["n"]
        self.dn = j["dn"]
        self.qn = j.get("qn", "")
        if self.dn.startswith("_Z") and self.qn:
            self.dn = self.qn.replace("()::", "::")
        self.sn = short_name(self.dn)
        self.decl = j.get("decl", False)
        self.file = j.get("file", "")
        if self.file.startswith("./"):
            self.file = self.file[2:]
        self.file = self.file.replace("/./", "/")
        self.line = j.get("line", 0)
        self.params = j["params"]
        self.ret = j["ret"]
        self.noret = j["noret"]
        self.nounw = j["nounw"]
        self._blocks = None
        self._live = None
        self._heads = None
        self._preds = None
        self._last = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = []
            n = 0
            for b in self.j.get("b", ()):
                bl = []
                for i in b:
                    bl.append(Instr(i, n, self))
                    n += 1
                self._blocks.append(bl)
            self.j["b"] = None
        return self._blocks

    @property
    def in_repo(self):
        return bool(self.file) and not self.file.startswith("/")

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return [a[1] for a in t.a if a[0] == "b"]
        if t.op == "switch":
            return [t.x["def"]] + list(t.x["cases"].values())
        if t.op == "invoke":
            return [t.x["nb"], t.x["ub"]]
        return []

    def preds(self):
        if self._preds is None:
            self._preds = [[] for _ in self.blocks]
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    self._preds[s].append(b)
        return self._preds

    def last_use(self):
        """per block: for every value its last use index in the block (for precise pruning)"""
        return None

    def live_in(self):
        if self._live is None:
            n = len(self.blocks)
            use, de, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], [dict() for _ in range(n)]
            for b, bl in enumerate(self.blocks):
                for i in bl:
                    if i.op == "phi":
                        for pb, v in i.a:
                            if v[0] == "v":
                                phiuse[b].setdefault(pb, set()).add(v[1])
                        de[b].add(i.d)
                        continue
                    for v in uses(i):
                        if v not in de[b]:
                            use[b].add(v)
                    if i.d >= 0:
                        de[b].add(i.d)
            live = [set(u) for u in use]
            changed = True
            while changed:
                changed = False
                for b in range(n - 1, -1, -1):
                    out = set()
                    for s in self.succs(b):
                        out |= live[s] - {i.d for i in self.blocks[s] if i.op == "phi"}
                        out |= phiuse[s].get(b, set())
                    new = use[b] | (out - de[b])
                    if not new <= live[b]:
                        live[b] |= new
                        changed = True
            # live after the phis of a block
            self._live = []
            for b in range(n):
                phis = {i.d for i in self.blocks[b] if i.op == "phi"}
                out = set()
                for s in self.succs(b):
                    out |= live[s] - {i.d for i in self.blocks[s] if i.op == "phi"}
                    out |= phiuse[s].get(b, set())
                usedphi = set()
                for i in self.blocks[b]:
                    if i.op != "phi":
                        usedphi |= set(uses(i))
                self._live.append((live[b] | (phis & (out | usedphi))))
        return self._live

    def loop_heads(self):
        if self._heads is None:
            heads, color = set(), {}
            stack = [(0, iter(self.succs(0)))] if self.blocks else []
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if color.get(s) == 1:
                        heads.add(s)
                    elif s not in color:
                        color[s] = 1
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads = heads
        return self._heads

    def __repr__(self):
        return "<%s>" % self.dn


def op_vals(o, out):
    if o and o[0] == "v":
        out.append(o[1])
    elif o and o[0] == "a":
        pass


def uses(i):
    out = []
    for a in i.a:
        op_vals(a, out)
    if "c" in i.x:
        op_vals(i.x["c"], out)
    for v, _ in i.x.get("var", ()):
        op_vals(v, out)
    return out


class Program:
    def __init__(self, path, units=0):
        self.funcs, self.globals, self.types, self.enums = {}, {}, {}, {}
        self.aliases = {}
        self.units = units
        for line in open(path):
            j = json.loads(line)
            k = j["k"]
            if k == "f":
                self.funcs[j["n"]] = Func(j)
            elif k == "g":
                self.globals[j["n"]] = j
            elif k == "type":
                self.types.setdefault(j["n"], j)
            elif k == "enum":
                self.enums.setdefault(j["n"], dict((a, b) for a, b in j["items"]))
            elif k == "alias":
                self.aliases[j["n"]] = tuplify(j["to"])[1]
        self.by_dn = {}
        for f in self.funcs.values():
            self.by_dn.setdefault(f.dn, []).append(f)

    def callee(self, i):
        """the function an instruction calls directly, or None"""
        if i.op not in ("call", "invoke"):
            return None
        c = i.x.get("c")
        return self.funcs.get(self.aliases.get(c[1], c[1])) if type(c) is tuple and c[0] == "g" else None

    def repo_funcs(self):
        return [f for f in self.funcs.values() if not f.decl and f.in_repo]

    def find(self, rx, defined=True, file=None):
        r = re.compile(rx)
        return [f for f in self.funcs.values() if (r.search(f.sn) or "(" in rx and r.search(f.dn)) and (not defined or not f.decl)
                and (file is None or f.file.endswith(file))]

    def one(self, rx, pred=None, file=None):
        fs = [f for f in self.find(rx, file=file) if pred is None or pred(f)]
        # C1/C2, D1/D2 variants of one constructor or destructor demangle alike
        names = {f.dn for f in fs}
        if len(names) != 1:
            raise AnalysisBroken("anchor /%s/ matches %d functions: %s" % (rx, len(names), sorted(names)[:6]))
        fs.sort(key=lambda f: ("C2E" in f.name or "D2E" in f.name, f.name))
        return fs[0]

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken("enum %s vanished" % name)
        return self.enums[name]
