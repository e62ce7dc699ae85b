"""Path-sensitive abstract interpretation of one (inlined) function over finite constants.

Values: int | "T" (unknown) | ("p", root, offset|None) address | ("s", name) opaque but equal to itself |
("f", symbol) function address | ("agg", (..)).  Memory cells are (root, byte offset) -> (size, value).
Unknown branches fork; loops end because a state that was seen before is not explored again and values that
keep changing at a block are widened to "T".
"""
from collections import deque

MASK = {"i1": 1, "i8": 0xff, "i16": 0xffff, "i32": 0xffffffff, "i64": 0xffffffffffffffff}


class Limit(Exception):
    pass


class E:
    """effect of a call: ret value, new client state, cells to write, roots to forget, die = path ends here"""

    def __init__(self, ret="T", st=None, mem=None, forget=(), die=False, pure=True):
        self.ret, self.st, self.mem, self.forget, self.die, self.pure = ret, st, mem or {}, forget, die, pure


def signed(v, ty):
    n = int(ty[1:])
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class AbsInt:
    WIDEN = 40
    WIDEN_MEM = None
    MAX = 60000

    def __init__(self, fn, st0=(), params=None, mem=None, eh=False):
        self.fn, self.st0, self.params, self.mem0, self.eh = fn, st0, params or {}, mem or {}, eh
        self.exits = []          # (ins, retval, st, mem, facts)
        self.live = _liveness(fn)
        self.visits = {}
        self.i1 = {i.id for b in fn.blocks for i in b if i.op == "phi" and i.ty == "i1"}
        self.nstates = 0

    # ---- hooks
    distinct = None     # names of objects known to be different objects

    def call(self, ins, av, s):
        return None

    def load(self, ins, ptr, s):
        """value of a load whose cell is unknown; None = opaque symbol"""
        return None

    def branch(self, ins, taken, s):
        """client state after a branch edge"""
        return s.st

    def stored(self, ins, ptr, val, s):
        """client state after a store; None = unchanged"""
        return None

    # ---- values
    def val(self, v, s):
        if v.startswith("%"):
            return s.env.get(int(v[1:]), "T")
        if v.startswith("#"):
            return int(v[1:])
        if v[0] == "a" and v[1:].isdigit():
            k = int(v[1:])
            if k in self.params:
                return self.params[k]
            return ("p", v, 0) if self.fn.params[k][1] == "ptr" else ("s", v)
        if v in ("null", "zero"):
            return 0
        if v.startswith("@"):
            n = v[1:].split("/")[0]
            if "/" not in v and n not in self.fn.mod.globals and (n in self.fn.mod.byname or n in self.fn.mod.demangle and "(" in self.fn.mod.demangle[n]):
                return ("f", n)
            if v in self.fn.mod.cgep:
                return ("p", "@" + n, self.fn.mod.cgep[v])
            return ("p", v, 0)
        if v.startswith("g:"):
            return ("agg", tuple(int(x) if x.isdigit() else "T" for x in v[2:].split(",")))
        if v.startswith(("s:", "f:")):
            return ("s", v) if v[0] == "f" else ("p", v, 0)
        return "T"

    def run(self):
        s = _S({}, dict(self.mem0), frozenset(), self.st0)
        wl = deque([(0, None, s)])
        seen = set()
        while wl:
            b, prev, s = wl.popleft()
            s = s.copy()
            self.enter(b, prev, s)
            live = self.live[b]
            phis = [i.id for i in self.fn.blocks[b] if i.op == "phi"]
            s.env = {k: v for k, v in s.env.items() if k in live or k in phis}
            key = (b, frozenset(s.env.items()), frozenset(s.mem.items()), s.facts, s.st)
            if key in seen:
                continue
            vk = (b, s.st)
            self.visits[vk] = self.visits.get(vk, 0) + 1
            if self.visits[vk] > self.WIDEN:
                for i in phis:
                    if isinstance(s.env.get(i), int) and i not in self.i1 or isinstance(s.env.get(i), tuple) and s.env[i][0] == "p":
                        s.env[i] = "T"
                s.facts = frozenset()
                if self.visits[vk] > (self.WIDEN_MEM or 3 * self.WIDEN):
                    s.mem = {k: v if self.mem0.get(k) == v else (v[0], "T") for k, v in s.mem.items()}
                key = (b, frozenset(s.env.items()), frozenset(s.mem.items()), s.facts, s.st)
                if key in seen:
                    continue
            seen.add(key)
            self.nstates += 1
            if self.nstates > self.MAX:
                raise Limit("state limit in %s" % self.fn.qname)
            for nb, ns in self.block(b, s):
                wl.append((nb, b, ns))
        return self

    def enter(self, b, prev, s):
        new = {}
        for i in self.fn.blocks[b]:
            if i.op != "phi":
                break
            for v, pb in zip(i.a, i.x):
                if pb == prev:
                    new[i.id] = self.val(v, s)
                    break
        s.env.update(new)

    def block(self, b, s):
        """list of (successor, state)"""
        states = [s]
        ins = self.fn.blocks[b]
        for n, i in enumerate(ins):
            if i.op == "phi":
                continue
            nxt = []
            for s in states:
                if i.is_call:
                    nxt += self.do_call(i, s)
                elif i.op in ("br", "switch", "ret", "resume", "unreachable"):
                    nxt.append(s)
                else:
                    self.eval(i, s)
                    nxt.append(s)
            states = nxt
            if not states:
                return []
        t = ins[-1]
        out = []
        for s in states:
            if t.op == "ret":
                self.exits.append((t, self.val(t.a[0], s) if t.a else None, s.st, s.mem, s.facts))
            elif t.op in ("resume", "unreachable"):
                self.exits.append((t, None, s.st, s.mem, s.facts))
            elif t.op == "br" and len(t.x) == 1:
                out.append((t.x[0], s))
            elif t.op == "br":
                c = self.val(t.a[0], s)
                k = None
                if not isinstance(c, int) and c != "T":
                    k = _cond(c)
                    for f, o in s.facts:
                        if f == k[0]:
                            c = int(o == k[1])
                for idx, nb in enumerate(t.x):
                    if isinstance(c, int) and (c & 1) != (1 if idx == 0 else 0):
                        continue
                    ns = s.copy()
                    if not isinstance(c, int):
                        if k:
                            ns.facts = ns.facts | {(k[0], (idx == 0) == k[1])}
                        if t.a[0].startswith("%"):
                            ns.env[int(t.a[0][1:])] = 1 if idx == 0 else 0
                    ns.st = self.branch(t, idx == 0, ns)
                    out.append((nb, ns))
            elif t.op == "switch":
                c = self.val(t.a[0], s)
                cases = [(None, t.x[0])] + [(x[0], x[1]) for x in t.x[1:]]
                if isinstance(c, int):
                    hit = [x for x in cases if x[0] is not None and (int(x[0]) & 0xffffffffffffffff) == (c & 0xffffffffffffffff)]
                    hit = hit or [x for x in cases if x[0] is not None and (int(x[0]) ^ c) & 0xffffffff == 0 and abs(int(x[0])) < 1 << 32 and abs(c) < 1 << 32]
                    cases = hit or cases[:1]
                for v, nb in cases:
                    ns = s.copy()
                    if v is not None and t.a[0].startswith("%"):
                        ns.env[int(t.a[0][1:])] = int(v)
                    ns.st = self.branch(t, v, ns)
                    out.append((nb, ns))
            elif t.op == "invoke":
                # normal edge carries the effect of the call; exceptional edge too
                out.append((t.x[0], s))
                if self.eh:
                    out.append((t.x[1], s.copy()))
        return out

    # ---- instructions
    def eval(self, i, s):
        r = self.eval_(i, s)
        if r is not None:
            self.define(i, r, s)

    def define(self, i, r, s):
        s.env[i.id] = r

    def sym(self, i, s):
        """a fresh opaque value for instruction i"""
        n = "%%%d" % i.id
        s.facts = frozenset(f for f in s.facts if n not in _syms(f[0]))
        for k in [k for k, v in s.mem.items() if n in k[0].replace("(", " ").replace(")", " ").replace("*", " ").split()]:
            del s.mem[k]
        for k, v in list(s.mem.items()):
            if isinstance(v[1], tuple) and n in _syms(v[1]):
                s.mem[k] = (v[0], "T")
        for k, v in list(s.env.items()):
            if isinstance(v, tuple) and n in _syms(v) and k != i.id:
                s.env[k] = "T"
        return ("p", n, 0) if i.ty == "ptr" else ("s", n)

    def eval_(self, i, s):
        op = i.op
        A = lambda k: self.val(i.a[k], s)
        if op == "alloca":
            return ("p", "alloca%d" % i.id, 0)
        if op == "getelementptr":
            b = A(0)
            if isinstance(b, tuple) and b[0] == "p" and i.y is not None:
                off = b[2]
                if off is None:
                    return ("p", b[1], None)
                off += i.y[0]
                for v, sc in i.y[1:]:
                    x = self.val(v, s)
                    if not isinstance(x, int):
                        return ("p", b[1], None)
                    off += signed(x, "i64") * sc
                return ("p", b[1], off)
            return "T"
        if op == "load":
            return self.do_load(i, A(0), s)
        if op == "store":
            v, p = A(0), A(1)
            self.write(p, i.y or 8, v, s)
            r = self.stored(i, p, v, s)
            if r is not None:
                s.st = r
            return None
        if op.startswith("atomicrmw"):
            p = A(0)
            old = self.do_load(i, p, s)
            v = A(1)
            new = "T"
            if isinstance(old, int) and isinstance(v, int):
                new = {"add": old + v, "sub": old - v, "xchg": v, "and": old & v, "or": old | v}.get(op.split(".")[1], "T")
            elif op.endswith("xchg"):
                new = v
            self.write(p, {"i8": 1, "i16": 2, "i32": 4}.get(i.ty, 8), new, s)
            return old
        if op == "cmpxchg":
            p = A(0)
            self.write(p, 8, "T", s)
            return "T"
        if op in ("zext", "trunc", "sext", "bitcast", "freeze", "addrspacecast", "ptrtoint", "inttoptr"):
            v = A(0)
            if isinstance(v, int):
                if op == "trunc":
                    return v & MASK.get(i.ty, -1)
                if op == "sext" and i.y:
                    return signed(v, "i%d" % i.y) & MASK.get(i.ty, -1)
                if op == "zext" and i.y:
                    return v & ((1 << i.y) - 1)
                return v
            if isinstance(v, tuple) and v[0] == "b":
                return v
            if op in ("trunc", "zext", "sext") and isinstance(v, tuple) and v[0] == "s":
                # widening then narrowing gives the value back; comparisons with constants stay meaningful for zext
                return v if op != "trunc" else ("s", v[1]) if i.ty != "i1" else ("s", "lsb " + v[1])
            return v
        if op == "extractvalue":
            v = A(0)
            for k in i.x or []:
                v = v[1][k] if isinstance(v, tuple) and v[0] == "agg" and k < len(v[1]) else "T"
            return v
        if op == "insertvalue":
            v, n, k = A(0), A(1), i.x
            if len(k) == 1:
                t = list(v[1]) if isinstance(v, tuple) and v[0] == "agg" else []
                while len(t) <= k[0]:
                    t.append("T")
                t[k[0]] = n
                return ("agg", tuple(t))
            return "T"
        if op in ("xor", "and", "or", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem") and len(i.a) == 2:
            return self.arith(op, A(0), A(1), i)
        if op.startswith("icmp."):
            r = self.icmp(i, A(0), A(1), s)
            if not isinstance(r, int):
                k = self.fn.live(i.ref if hasattr(i, "ref") else "%%%d" % i.id)
                r = r if k is None else k
            return r
        if op == "select":
            c = A(0)
            if isinstance(c, int):
                return A(1) if c & 1 else A(2)
            return A(1) if A(1) == A(2) else "T"
        if op == "phi":
            return None
        if i.ty == "void":
            return None
        if op.startswith("fcmp."):
            a, b = A(0), A(1)
            return ("s", "%s %s %s" % (op, a, b)) if a != "T" and b != "T" else "T"
        return "T"

    def arith(self, op, a, b, i):
        m = MASK.get(i.ty, -1)
        if op == "and" and (a == 0 or b == 0) or op == "mul" and (a == 0 or b == 0):
            return 0
        if isinstance(a, int) and isinstance(b, int):
            a &= m
            b &= m
            if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
                return "T"
            if op in ("sdiv", "srem", "ashr"):
                sa, sb = signed(a, i.ty), signed(b, i.ty)
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1) if sb else 0
                return {"sdiv": lambda: q, "srem": lambda: sa - q * sb, "ashr": lambda: sa >> b}[op]() & m
            return {"xor": lambda: a ^ b, "and": lambda: a & b, "or": lambda: a | b, "add": lambda: a + b, "sub": lambda: a - b,
                    "mul": lambda: a * b, "shl": lambda: a << b if b < 64 else 0, "lshr": lambda: a >> b, "udiv": lambda: a // b,
                    "urem": lambda: a % b}[op]() & m
        if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr"):
            return a
        if a == 0 and op in ("add", "or", "xor"):
            return b
        if op == "xor" and i.ty == "i1" and b == 1 and isinstance(a, tuple):
            k, pol = _cond(a)
            return ("b", k, not pol)
        if isinstance(a, tuple) and isinstance(b, (int, tuple)) or isinstance(b, tuple):
            if a == b and op in ("sub", "xor"):
                return 0
            if a != "T" and b != "T":
                return ("s", "%s(%s,%s)" % (op, _nm(a), _nm(b)))
        return "T"

    def icmp(self, i, a, b, s):
        p, ty = i.op[5:], i.x
        r = None
        if a == "T" or b == "T":
            return "T"
        if isinstance(a, tuple) and a[0] == "p" and b == 0 and not a[1].startswith(("%", "*", "a")) or isinstance(a, tuple) and a[0] == "f" and b == 0:
            return int(p == "ne")
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "p" and b[0] == "p":
            if a[2] is None or b[2] is None:
                return "T"
            if a[1] == b[1]:
                a, b = a[2], b[2]
            elif a[1].startswith("alloca") and b[1].startswith("alloca"):
                return int(p == "ne")
            elif p in ("eq", "ne") and self.distinct and self.distinct(a[1]) and self.distinct(b[1]):
                return int(p == "ne")
        if isinstance(a, int) and isinstance(b, int):
            m = MASK.get(ty, -1) if isinstance(ty, str) else -1
            ua, ub = a & m, b & m
            if m > 0 and isinstance(ty, str) and ty.startswith("i"):
                sa, sb = signed(ua, ty), signed(ub, ty)
            else:
                sa, sb = a, b
            r = {"eq": ua == ub, "ne": ua != ub, "slt": sa < sb, "sgt": sa > sb, "sle": sa <= sb, "sge": sa >= sb,
                 "ult": ua < ub, "ugt": ua > ub, "ule": ua <= ub, "uge": ua >= ub}[p]
            return int(r)
        if a == b:
            return int(p in ("eq", "sle", "sge", "ule", "uge"))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "b" and y == 0 and p in ("eq", "ne"):
                return x if p == "ne" else ("b", x[1], not x[2])
        # canonical symbolic comparison
        pol = True
        if p in ("ne", "uge", "ule", "sge", "sle"):
            p, pol = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}[p], False
        if p == "eq" and repr(a) > repr(b):
            a, b = b, a
        if p in ("ugt", "sgt"):
            p, a, b = {"ugt": "ult", "sgt": "slt"}[p], b, a
        v = ("c", p, a, b)
        for f, o in s.facts:
            if f == v:
                return int(o == pol)
            if p == "eq" and f[0] == "c" and f[1] == "eq" and o and isinstance(b, int) != isinstance(a, int):
                # known equal to another constant
                x, c = (a, b) if isinstance(b, int) else (b, a)
                y, d = (f[2], f[3]) if isinstance(f[3], int) else (f[3], f[2])
                if x == y and isinstance(d, int) and isinstance(c, int) and c != d:
                    return int(not pol)
        return ("b", v, pol)

    # ---- memory
    def do_load(self, i, p, s):
        if not (isinstance(p, tuple) and p[0] == "p"):
            r = self.load(i, p, s)
            return "T" if r is None else r
        root, off = p[1], p[2]
        if off is not None and (root, off) in s.mem:
            sz, v = s.mem[(root, off)]
            if not i.y or not sz or i.y == sz:
                return v
            if isinstance(v, int) and i.y < sz:
                return v & ((1 << (8 * i.y)) - 1)
            return "T"
        r = self.load(i, p, s)
        if r is None:
            if off is None:
                return "T"
            if any(k[0] == root and k[1] < off + (i.y or 8) and off < k[1] + (v[0] or 8) for k, v in s.mem.items()):
                return "T"
            n = "*(%s+%d)" % (root, off)
            r = ("p", n, 0) if i.ty == "ptr" else ("s", n)
            s.mem[(root, off)] = (i.y or 8, r)
        return r

    def write(self, p, size, v, s):
        if not (isinstance(p, tuple) and p[0] == "p"):
            for k in [k for k in s.mem if not k[0].startswith("alloca")]:
                s.mem[k] = (s.mem[k][0], "T")
            return
        root, off = p[1], p[2]
        for k in [k for k, c in s.mem.items() if k[0] == root and (off is None or k[1] < off + size and off < k[1] + (c[0] or 8))]:
            del s.mem[k]
        if off is not None:
            s.mem[(root, off)] = (size, v)

    def forget(self, roots, s):
        """everything reachable from the given roots may have changed"""
        todo, done = list(roots), set()
        while todo:
            r = todo.pop()
            if r in done:
                continue
            done.add(r)
            for k in [k for k in s.mem if k[0] == r]:
                v = s.mem[k][1]
                if isinstance(v, tuple) and v[0] == "p":
                    todo.append(v[1])
                s.mem[k] = (s.mem[k][0], "T")

    def heap(self, s):
        return {k[0] for k in s.mem if not k[0].startswith("alloca")}

    def do_call(self, i, s):
        c = i.callee or ""
        av = [self.val(a, s) for a in i.args]
        if c.startswith(("llvm.memcpy", "llvm.memmove")):
            d, src, n = av[0], av[1], av[2]
            if isinstance(d, tuple) and d[0] == "p" and d[2] is not None and isinstance(src, tuple) and src[0] == "p" and src[2] is not None and isinstance(n, int):
                cells = [(k[1] - src[2], v) for k, v in s.mem.items() if k[0] == src[1] and src[2] <= k[1] < src[2] + n]
                for k in [k for k in s.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + n]:
                    del s.mem[k]
                for o, v in cells:
                    s.mem[(d[1], d[2] + o)] = v
                # words of the source without known content keep their identity
                got = {o for o, v in cells}
                for o in range(0, n - n % 8, 8):
                    if not any(o <= g < o + 8 for g in got):
                        s.mem[(d[1], d[2] + o)] = (8, ("s", "*(%s+%d)" % (src[1], src[2] + o)))
            elif isinstance(d, tuple) and d[0] == "p":
                self.forget([d[1]], s)
            else:
                self.forget(self.heap(s), s)
            return [s]
        if c.startswith("llvm.memset"):
            d, v, n = av[0], av[1], av[2]
            if isinstance(d, tuple) and d[0] == "p" and d[2] is not None and isinstance(n, int):
                for k in [k for k in s.mem if k[0] == d[1] and d[2] <= k[1] < d[2] + n]:
                    del s.mem[k]
                o = 0
                while v == 0 and o < n and n < 4096:
                    w = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                    s.mem[(d[1], d[2] + o)] = (w, 0)
                    o += w
            elif isinstance(d, tuple) and d[0] == "p":
                self.forget([d[1]], s)
            return [s]
        if c.startswith("llvm.") and not c.startswith("llvm.va"):
            if i.ty != "void":
                s.env[i.id] = self.intrinsic(c, av, i)
            return [s]
        r = self.call(i, av, s)
        if r is None:
            r = E(pure=False, ret=None)
        out = []
        for e in (r if isinstance(r, list) else [r]):
            if e.die:
                continue
            ns = s.copy() if isinstance(r, list) else s
            if not e.pure:
                self.forget({v[1] for v in av if isinstance(v, tuple) and v[0] == "p"} | self.heap(ns), ns)
            self.forget(e.forget, ns)
            for k, v in e.mem.items():
                self.write(("p",) + k, v[0] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) else 8,
                           v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) else v, ns)
            if i.ty != "void":
                ns.env[i.id] = self.sym(i, ns) if e.ret is None else e.ret
            if e.st is not None:
                ns.st = e.st
            out.append(ns)
        return out

    def intrinsic(self, c, av, i):
        if all(isinstance(v, int) for v in av[:2]) and len(av) >= 2:
            a, b = av[:2]
            m = c.split(".")[1]
            if m in ("umin", "smin"):
                return min(a, b)
            if m in ("umax", "smax"):
                return max(a, b)
        if c.startswith("llvm.expect"):
            return av[0]
        return "T"


class _S:
    __slots__ = ("env", "mem", "facts", "st")

    def __init__(self, env, mem, facts, st):
        self.env, self.mem, self.facts, self.st = env, mem, facts, st

    def copy(self):
        return _S(dict(self.env), dict(self.mem), self.facts, self.st)


def _cond(c):
    """(fact key, polarity) of a symbolic condition"""
    if isinstance(c, tuple) and c[0] == "b":
        return c[1], c[2]
    return ("v", c), True


def _nm(v):
    return str(v) if isinstance(v, int) else v[1] if v[0] in ("s", "f") else "&%s+%s" % (v[1], v[2]) if v[0] == "p" else repr(v)


def _syms(v):
    """names of instructions inside a symbolic value"""
    import re
    return set(re.findall(r"%\d+", repr(v)))


def _liveness(fn):
    use, df = [], []
    for b in fn.blocks:
        u, d = set(), set()
        for i in b:
            if i.op != "phi":
                for a in list(i.a) + [y[0] for y in (i.y[1:] if isinstance(i.y, list) else [])]:
                    if a.startswith("%"):
                        k = int(a[1:])
                        if k not in d:
                            u.add(k)
            d.add(i.id)
        use.append(u)
        df.append(d)
    n = len(fn.blocks)
    phiuse = [set() for _ in range(n)]
    for bi, b in enumerate(fn.blocks):
        for i in b:
            if i.op == "phi":
                for v, pb in zip(i.a, i.x):
                    if v.startswith("%"):
                        phiuse[pb].add(int(v[1:]))
    inn = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set(phiuse[b])
            for t in fn.succ[b]:
                o |= inn[t]
            new = use[b] | (o - df[b])
            if new != inn[b]:
                inn[b] = new
                ch = True
    return inn
