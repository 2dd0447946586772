"""Text on its way through the program: buffers, pipes between parts of the program, and readers."""
import re

from engine.build_ir import AnalysisBroken
from engine.absint import Throw, Stop, TOP, is_ptr, is_term
from engine.rule import floc
from .recipes import P
from .sources import G, quiet
from .tasks import report, THIS


def byte(k):
    return (37 * k + 200) & 255


class Run:
    """operations on one object, one after the other; what an operation does is found by abstract interpretation of it"""

    def __init__(self, ctx, hooks, g, mem, budget=20000):
        self.ctx, self.hooks, self.g = ctx, hooks, g
        self.states = [(dict(mem), g.init, ())]
        self.budget = budget

    def do(self, fn, args, op=None):
        """runs fn in every state reached; keeps the states in which it returns; results is extended by the value returned"""
        out = []
        for mem, gh, res in self.states:
            m = self.ctx.machine(max_states=self.budget)
            m.int_lim = 1 << 20
            m.count_lim = 10000
            m.off_lim = 10000
            m.hooks = self.hooks
            m.run([m.start(fn, args, ghost=gh, mem={o: dict(c) for o, c in mem.items()}, roots=[("p", o, 0) for o in mem])])
            self.ctx.absorb(m)
            if m.truncated:
                raise AnalysisBroken(m.truncated)
            for kind, v, st in m.outcomes:
                if kind == "ret":
                    keep = {o: dict(st.mem.get(o) or c) for o, c in mem.items()}
                    keep.update({o: dict(c) for o, c in st.mem.items() if o not in keep and o[0].startswith(("Node", "Block"))})
                    out.append((keep, st.ghost, res + ((v,) if op else ())))
        if not out:
            raise AnalysisBroken("%s does not return" % fn.sn)
        self.states = out
        return self

    def shift(self, old, d):
        """the position in the buffer is moved forward: whatever the previous operation moved by one"""
        new = []
        for (mem, gh, res), (mem0, _, _) in zip(self.states, old):
            k = []
            for o, c in mem.items():
                for off, cell in c.items():
                    b = (mem0.get(o) or {}).get(off)
                    if off == "hv" or b is None or b == cell:
                        continue
                    v, w = cell[-1], b[-1]
                    if isinstance(v, int) and isinstance(w, int) and v == w + 1 and cell[0] == b[0] and cell[0] > 1:
                        k.append((o, off, cell[:-1] + (v + d,)))
                    elif is_ptr(v) and is_ptr(w) and v[1] == w[1] and isinstance(v[2], int) and isinstance(w[2], int) and v[2] == w[2] + 1:
                        k.append((o, off, cell[:-1] + (("p", v[1], v[2] + d),)))
            if len(k) != 1:
                raise AnalysisBroken("the position in a buffer was not found")
            mem = {o: dict(c) for o, c in mem.items()}
            mem[k[0][0]][k[0][1]] = k[0][2]
            new.append((mem, gh, res))
        self.states = new
        return self


def pointer_in(q, obj, size):
    return is_ptr(q) and q[1] == obj and isinstance(q[2], int) and 0 <= q[2] < size


def input_buffer(ctx):
    """InputBuffer: the bytes of its source, one by one, then the end"""
    p = ctx.prog
    bad = []
    n = 0
    for f in p.find(r"^Maike::Io::InputBuffer::getchar$"):
        cls = re.match(r".*?(Maike::Io::InputBuffer<.*>)::getchar", f.dn).group(1)
        ctor = [c for c in p.find(r"^Maike::Io::InputBuffer::InputBuffer$") if c.dn.startswith(cls + "::")]
        tn = next((t for t in p.types if t.replace("UL>", "ul>") == cls), None)
        if not ctor or tn is None:
            raise AnalysisBroken("the layout of an input buffer is unknown")
        size = p.types[tn]["size"]
        n += 1
        # chunk sizes delivered by the source; the stream is everything delivered, in order
        for chunks in ((3, 1, 0, 0), (0, 0), (2, "full", 1, 0), ("full", "full", 0), (1, -1)):
            g = G(left=chunks, pos=0)

            def h_read(m, st, i, fn, args):
                left = g.get(st, "left")
                buf, cap = args[-2:]
                if not left:
                    return [(st, Stop("noret", "source"))]
                if not pointer_in(buf, ("This",), size) or not isinstance(cap, int) or cap < 1 or buf[2] + cap > size:
                    bad.append(("overrun", i.loc, "more is asked for than fits in the buffer"))
                    return []
                k = left[0]
                k = cap if k == "full" else min(k, cap)
                if k > 0:
                    for j in sorted({0, 1, 2, k - 3, k - 2, k - 1}):
                        if 0 <= j < k:
                            m.store(st, ("p", buf[1], buf[2] + j), 1, byte(g.get(st, "pos") + j))
                g.put(st, left=left[1:], pos=g.get(st, "pos") + max(k, 0))
                return [(st, k & ((1 << 64) - 1))]
            hooks = [(re.compile(r"^Maike::Io::(Reader::)?read$"), h_read), (re.compile(r"^Maike::Io::Reader::~?Reader$"), lambda m, st, i, fn, args: [(st, None)])]
            r = Run(ctx, hooks, g, {("This",): {"hv": True}})
            r.do(ctor[0], [THIS, P("Src")])
            want, pos = [], 0
            plan = []
            cap = None
            for k in chunks:
                if k == "full":
                    plan += [("get", pos), ("get", pos + 1), ("jump", None)]
                    plan += [("last", 1), ("last", 2), ("last", 3)]
                elif k > 0:
                    plan += [("get", pos + j) for j in range(k)]
                    pos += k
                else:
                    plan += [("end", None)]
                if k == "full":
                    pos = ("full", pos)
                    break
            full = pos if isinstance(pos, tuple) else None
            done = 0
            base = 0
            skip = 0
            for what, k in plan:
                if what == "jump":
                    if not r.states:
                        break
                    # two bytes of the chunk were taken, three are left
                    cap = g_pos(g, r) - base_of(full)
                    r.shift(prev, cap - 5)
                    continue
                prev = r.states
                r.do(f, [THIS], op=what)
                v = {x[2][-1] for x in r.states}
                if what == "get":
                    exp = byte(k)
                elif what == "last":
                    exp = byte(base_of(full) + cap - 4 + k)
                else:
                    exp = 0xffffffff
                if v != {exp}:
                    bad.append(("byte" if what != "end" else "end", floc(f), "a byte of the input is lost or changed" if what != "end" else "the end of the input is not seen"))
                    break
            if full and not bad:
                # the next chunk, and the end
                r.do(f, [THIS], op="next")
                if {x[2][-1] for x in r.states} != {byte(base_of(full) + cap)}:
                    bad.append(("next", floc(f), "a byte of the input is lost or changed where the buffer is filled again"))
    ctx.need("input buffers", n, 1)
    for x in ("every byte once, in order", "end", "buffer bounds"):
        ctx.oblige("input buffer: " + x, True)
    report(ctx, "input buffer", bad, "core/io/input_buffer.hpp")


def base_of(full):
    return full[1]


def g_pos(g, r):
    i = g.names.index("pos")
    return r.states[0][1][i]


def output_buffer(ctx):
    """OutputBuffer: everything put in comes out, in order, at the latest when it ends"""
    p = ctx.prog
    bad = []
    n = 0
    groups = {}
    for f in p.find(r"^Maike::Io::OutputBuffer::"):
        if f.sn.endswith("::putchar"):
            groups.setdefault(re.match(r".*?(Maike::Io::OutputBuffer<.*>)::putchar", f.dn).group(1), []).append(f)
    for cls, puts in sorted(groups.items()):
        ctor = [c for c in p.find(r"^Maike::Io::OutputBuffer::OutputBuffer$") if c.dn.startswith(cls + "::")]
        dtor = [c for c in p.find(r"^Maike::Io::OutputBuffer::~OutputBuffer$") if c.dn.startswith(cls + "::")]
        if not ctor or not dtor:
            raise AnalysisBroken("an output buffer cannot be made")
        tn = next((t for t in p.types if t.replace("UL>", "ul>").startswith(cls[:60])), None)
        cap = int(re.search(r"(\d+)ul>$", cls).group(1))
        n += 1
        for put in puts:
            for plan in ((), (1, 2, 3), (1, 2, ("jump", cap - 4), 3, 4, 5, 6, 7), (1, 2, ("jump", cap - 2), 3), (1, 2, ("jump", cap - 3), 3)):
                g = G(out=(), n=0)

                def h_write(m, st, i, fn, args):
                    q, k = args[-2:]
                    if not is_ptr(q) or q[1] != ("This",) or not isinstance(k, int) or not isinstance(q[2], int):
                        raise AnalysisBroken("what is written from the buffer is unknown")
                    at = g.get(st, "n")
                    kn = []
                    for j in sorted(set(range(min(k, 8))) | set(range(max(0, k - 8), k))):
                        v = m.load(st, ("p", q[1], q[2] + j), 1, "i8", peek=True)
                        kn.append((at + j, v & 255 if isinstance(v, int) else None))
                    g.put(st, out=g.get(st, "out") + tuple(kn), n=at + k)
                    return [(st, None)]
                hooks = [(re.compile(r"^Maike::Io::(Writer::)?write$"), h_write)]
                r = Run(ctx, hooks, g, {("This",): {"hv": True}})
                r.do(ctor[0], [THIS] + [P("Sink%d" % j) for j in range(len(ctor[0].params) - 1)])
                want, at = {}, 0
                prev = r.states
                for x in plan:
                    if isinstance(x, tuple):
                        r.shift(prev, x[1])
                        at += x[1]
                        continue
                    prev = r.states
                    r.do(put, [THIS, 0x80 + x])
                    want[at] = 0x80 + x
                    at += 1
                r.do(dtor[0], [THIS])
                for mem, gh, res in r.states:
                    d = dict(zip(g.names, gh))
                    got = dict(d["out"])
                    if d["n"] != at:
                        bad.append(("count", floc(dtor[0]), "bytes put into an output buffer are lost" if d["n"] < at else "bytes come out of an output buffer that were not put into it"))
                    elif any(k in got and got[k] != v for k, v in want.items()):
                        bad.append(("bytes", floc(put), "a byte put into an output buffer comes out changed or at another place"))
    ctx.need("output buffers", n, 1)
    for x in ("every byte once, in order", "nothing else"):
        ctx.oblige("output buffer: " + x, True)
    report(ctx, "output buffer", bad, "core/io/output_buffer.hpp")


def fifo(ctx):
    """Fifo: what is written comes out in order, in pieces of any size; its end is seen once everything was read"""
    p = ctx.prog
    bad = []
    n = 0
    for rd in p.find(r"^Maike::Io::Fifo::read$"):
        cls = re.match(r".*?(Maike::Io::Fifo<.*>)::read", rd.dn).group(1)
        one = lambda name, k: p.one(r"^Maike::Io::Fifo::%s$" % name, lambda f: f.dn.split("(")[0].endswith(cls + "::" + name) and len(f.params) == k)
        wr, stop, ctor = one("write", 3), one("stop", 1), one("Fifo", 1)
        n += 1
        # ("w", k): k elements written, ("s",): ended, ("r", k): up to k elements read
        for plan in ((("w", 3), ("w", 5), ("s",), ("r", 2), ("r", 2), ("r", 4), ("r", 4), ("r", 4)),
                     (("w", 1), ("s",), ("r", 1), ("r", 1)), (("s",), ("r", 3)), (("w", 4), ("r", 4), ("w", 2), ("r", 1), ("s",), ("r", 9), ("r", 9)),
                     (("r", 1), ("w", 1)), (("w", 4096), ("w", 4096), ("s",), ("r", 4096), ("r", 4096), ("r", 4096))):
            # q: blocks queued (size, memory); cont: what memory holds (memory, offset, source, source offset, size); out: what was read
            g = G(q=(), cont=(), out=(), k=0, free=())

            def h_new(m, st, i, fn, args):
                k = g.get(st, "k")
                g.put(st, k=k + 1)
                q = P("Block%d" % k)
                st.mem[q[1]] = {"hv": True}
                st.roots = tuple(st.roots) + (q,)
                if "make_unique" in fn.sn:
                    m.store(st, args[0], 8, q)
                    return [(st, None)]
                return [(st, q)]

            def h_delete(m, st, i, fn, args):
                if is_ptr(args[0]) and args[0][1][0].startswith("Block"):
                    g.put(st, free=tuple(sorted(set(g.get(st, "free")) | {args[0][1]})))
                return [(st, None)]

            def copied(st, dst, src, k, loc):
                if k == 0:
                    return
                if not is_ptr(dst) or not is_ptr(src) or not isinstance(k, int):
                    raise AnalysisBroken("what is copied is unknown")
                if src[1] in g.get(st, "free"):
                    bad.append(("freed", loc, "an element is read after its memory was released"))
                c = g.get(st, "cont")
                if dst[1] == ("Buf",):
                    g.put(st, out=g.get(st, "out") + ((src[1], src[2], dst[2], k),))
                else:
                    g.put(st, cont=c + ((dst[1], dst[2], src[1], src[2], k),))

            def h_copy(m, st, i, fn, args):
                a, b, d = args[-3:]
                if is_ptr(a) and is_ptr(b) and a[1] == b[1] and isinstance(a[2], int) and isinstance(b[2], int):
                    copied(st, d, a, b[2] - a[2], i.loc)
                    return [(st, ("p", d[1], d[2] + b[2] - a[2]))]
                null = lambda q: q == 0 or is_ptr(q) and q[1] == ("null",) and q[2] == 0
                if a == b or null(a) and null(b):
                    return [(st, d)]
                raise AnalysisBroken("what is copied is unknown")

            def h_copy_n(m, st, i, fn, args):
                copied(st, args[-1], args[-3], args[-2], i.loc)
                return [(st, args[-1])]

            def h_mem(m, st, i, fn, args):
                d, s, k = args[:3]
                if is_ptr(d) and (d[1] == ("Buf",) or d[1][0].startswith("Block")) and isinstance(k, int):
                    copied(st, d, s, k, i.loc)
                    return [(st, d)]
                return None

            def h_list(m, st, i, fn, args):
                nme = fn.sn.rsplit("::", 1)[1]
                q = g.get(st, "q")
                if nme in ("push_back", "emplace_back", "push_front"):
                    if len(args) == 2:
                        a, b = m.load(st, args[1], 8, "i64"), m.load(st, ("p", args[1][1], args[1][2] + 8), 8, "p")
                        m.store(st, ("p", args[1][1], args[1][2] + 8), 8, 0)
                    else:
                        a, b = (m.load(st, x, 8, t) for x, t in zip(args[1:3], ("i64", "p")))
                        m.store(st, args[2], 8, 0)
                    if not isinstance(a, int) or not is_ptr(b):
                        raise AnalysisBroken("what is queued is unknown")
                    k = g.get(st, "k")
                    g.put(st, k=k + 1)
                    e = ("Node%d" % k,)
                    st.mem[e] = {}
                    m.store(st, ("p", e, 0), 8, a)
                    m.store(st, ("p", e, 8), 8, b)
                    g.put(st, q=((e,) + q if nme == "push_front" else q + (e,)))
                    st.roots = tuple(st.roots) + (("p", e, 0),)
                    return [(st, ("p", e, 0))]
                if nme in ("size", "empty"):
                    return [(st, len(q) if nme == "size" else int(not q))]
                if nme in ("front", "back", "pop_front", "pop_back"):
                    if not q:
                        bad.append(("empty", i.loc, "an element is taken from an empty queue"))
                        return []
                    e = q[0 if nme.endswith("front") else -1]
                    if nme in ("front", "back"):
                        return [(st, ("p", e, 0))]
                    b = m.load(st, ("p", e, 8), 8, "p", peek=True)
                    g.put(st, q=q[1:] if nme == "pop_front" else q[:-1])
                    if is_ptr(b):
                        g.put(st, free=tuple(sorted(set(g.get(st, "free")) | {b[1]})))
                    return [(st, None)]
                if nme in ("list", "~list"):
                    return [(st, None)]
                return None

            def h_wait(m, st, i, fn, args):
                return [(st, Stop("noret", "blocks"))] if len(fn.params) == 2 else None
            quietly = lambda m, st, i, fn, args: [(st, None)]
            hooks = [(re.compile(r"^std::make_unique(_for_overwrite)?$|^operator new(\[\])?$"), h_new), (re.compile(r"^operator delete(\[\])?$"), h_delete),
                     (re.compile(r"^std::copy$"), h_copy), (re.compile(r"^std::copy_n$"), h_copy_n), (re.compile(r"^(memcpy|memmove|llvm\.memcpy.*|llvm\.memmove.*)$"), h_mem),
                     (re.compile(r"^std::(__cxx11::)?(list|deque)::"), h_list), (re.compile(r"condition_variable::wait$"), h_wait),
                     (re.compile(r"condition_variable::(notify_|~?condition)|^std::(unique_lock|lock_guard|scoped_lock|mutex)::"), quietly)]
            r = Run(ctx, hooks, g, {("This",): {"hv": True}, ("Buf",): {"hv": True}})
            r.do(ctor, [THIS])
            src, taken, w = [], 0, 0
            ended = False
            for op in plan:
                if op[0] == "w":
                    r.do(wr, [THIS, P("Src%d" % w), op[1]])
                    src += [(("Src%d" % w,), j) for j in range(op[1])]
                    w += 1
                elif op[0] == "s":
                    r.do(stop, [THIS])
                    ended = True
                else:
                    if taken == len(src) and not ended:
                        try:
                            r.do(rd, [THIS, P("Buf"), op[1]], op="r")
                            bad.append(("early", floc(rd), "the end of the text is seen although more may be written"))
                        except AnalysisBroken:
                            pass
                        break
                    try:
                        r.do(rd, [THIS, P("Buf"), op[1]], op="r")
                    except AnalysisBroken as e:
                        if "does not return" not in str(e):
                            raise
                        bad.append(("block", floc(rd), "reading blocks although there is something to read, or nothing more will be written"))
                        break
                    for mem, gh, res in r.states:
                        d = dict(zip(g.names, gh))
                        k = res[-1]
                        if not isinstance(k, int):
                            raise AnalysisBroken("how much is read is unknown")
                        if k > op[1]:
                            bad.append(("overrun", floc(rd), "more is read than fits"))
                            continue
                        got = [None] * k
                        for (o, off, at, m2) in d["out"]:
                            for j in range(m2):
                                if at + j < k:
                                    # where the memory read was filled from
                                    s = [(c[2], c[3] + off + j - c[1]) for c in d["cont"] if c[0] == o and c[1] <= off + j < c[1] + c[4]]
                                    got[at + j] = s[-1] if s else (o, off + j)
                        if k == 0 and taken < len(src):
                            bad.append(("end", floc(rd), "the end is seen before everything was read"))
                        elif got != src[taken:taken + k]:
                            bad.append(("order", floc(rd), "text is lost, doubled or in another order when it is read"))
                        elif k and taken == len(src):
                            bad.append(("more", floc(rd), "more is read than was written"))
                    k = max([x[2][-1] for x in r.states])
                    taken += k
                    r.states = [(mem, tuple(() if nm == "out" else v for nm, v in zip(g.names, gh)), res) for mem, gh, res in r.states]
                    if bad:
                        break
            if bad:
                break
    ctx.need("pipes between parts of the program", n, 1)
    for x in ("everything, in order", "its end", "bounds"):
        ctx.oblige("pipe: " + x, True)
    report(ctx, "pipe", bad, "core/io/fifo.hpp")


def g_set(g, gh, **kw):
    gh = list(gh)
    for k, v in kw.items():
        gh[g.names.index(k)] = v
    return tuple(gh)


def plain_tags(ctx):
    """build rules that are a file of their own: the whole file is the tags"""
    p = ctx.prog
    f = p.one(r"^Maikerule::SourceFileLoader::filterInput$")
    bad = []
    tags = P("Par4")
    if len(f.params) != 6:
        raise AnalysisBroken("the outputs of the loader are unknown")
    for chunks in ((3, "full", 1, 0), (0,), ("full", "full", 0), (2, -1)):
        # at: (memory, offset) -> where in the file its content is from
        g = G(left=chunks, pos=0, at=(), out=0)

        def h_read(m, st, i, fn, args):
            left = g.get(st, "left")
            buf, cap = args[-2:]
            if not left:
                return [(st, Stop("noret", "read after the end"))]
            if not is_ptr(buf) or not isinstance(cap, int) or not isinstance(buf[2], int):
                raise AnalysisBroken("where the file is read to is unknown")
            k = cap if left[0] == "full" else min(left[0], cap)
            pos = g.get(st, "pos")
            at = tuple(x for x in g.get(st, "at") if x[0] != buf[1])
            if k > 0:
                at += ((buf[1], buf[2], pos, k),)
            g.put(st, left=left[1:], pos=pos + max(k, 0), at=at)
            return [(st, k & ((1 << 64) - 1))]

        def h_write(m, st, i, fn, args):
            src, k = args[-2:]
            if not is_ptr(src) or not isinstance(k, int) or not isinstance(src[2], int):
                raise AnalysisBroken("what is written to the tags is unknown")
            if k == 0 or args[0] != tags:
                return [(st, None)]
            x = [a for a in g.get(st, "at") if a[0] == src[1] and a[1] <= src[2] and src[2] + k <= a[1] + a[3]]
            if not x:
                bad.append(("bytes", i.loc, "what is not in the file becomes part of its tags"))
            elif x[0][2] + src[2] - x[0][1] != g.get(st, "out"):
                bad.append(("order", i.loc, "part of a file of tags is left out, or comes twice"))
            g.put(st, out=g.get(st, "out") + k)
            return [(st, None)]
        m = ctx.machine(max_states=20000)
        m.int_lim, m.count_lim, m.off_lim = 1 << 20, 10000, 10000
        m.hooks = [(re.compile(r"^Maike::Io::(Reader::)?read$"), h_read), (re.compile(r"^Maike::Io::Reader::~?Reader$"), lambda m, st, i, fn, args: [(st, None)]),
                   (re.compile(r"^Maike::Io::(Writer::)?write$"), h_write)]
        m.run([m.start(f, [P("Par%d" % k) for k in range(len(f.params))], ghost=g.init)])
        ctx.absorb(m)
        rets = [st for k, v, st in m.outcomes if k == "ret"]
        if not rets:
            bad.append(("end", floc(f), "reading a file of tags does not end where the file ends"))
        for st in rets:
            if g.get(st, "left") and not bad:
                bad.append(("early", floc(f), "reading a file of tags ends before the end of the file"))
            elif g.get(st, "out") != g.get(st, "pos") and not bad:
                bad.append(("lost", floc(f), "part of a file of tags is left out"))
    ctx.oblige("file of tags: all of it, in order", True)
    report(ctx, "file of tags", bad, "core/source_file_info_loaders/maikerule/source_file_loader.cpp")

