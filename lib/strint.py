"""Abstract interpretation of text-handling code over symbolic bytes.

A text is a sequence of cells, each a constant byte or a symbol that stands for every byte of a class; the classes
partition all 256 bytes, so a verdict for the classes holds for every byte.  std::string, iterators into it,
vectors of strings and std::equal are modelled cell by cell; numbers read from symbolic digits are kept as linear
expressions over the digits.  A comparison that does not have the same outcome for every byte of a class forks."""
import re
from absint import AbsInt, E, signed
from emit import Emit, VEC, dem

SPECIAL = {0x0a, 0x5c, 0x2c, 0x3d, 0x22}
CLASSES = {
    "digit": set(range(48, 58)),
    "plain": {b for b in range(0x20, 0x80) if b not in SPECIAL},
    "high": set(range(0x80, 0x100)),
    "ctrl": {b for b in range(0, 0x20) if b != 0x0a},
}
CTRL_SPLIT = {"nul": {0}, "ctrl1": {b for b in range(1, 0x20) if b != 0x0a}}
CLASSES.update(CTRL_SPLIT)


def ch(cls, n=0):
    return ("s", "<%s#%d>" % (cls, n))


def cls(v):
    """(byte class, extension) of a symbolic byte"""
    if isinstance(v, tuple) and v[0] == "s":
        m = re.match(r"^<(\w+)#\d+>(sx|zx)?$", v[1])
        if m and m.group(1) in CLASSES:
            return CLASSES[m.group(1)], m.group(2) or ""
    return None


def show(cells):
    return "".join(c[1] if isinstance(c, tuple) else "?" if not isinstance(c, int) else
                   chr(c) if 32 <= c < 127 else "\\x%02x" % (c & 255) for c in cells)


def lin(v):
    """(terms, constant) of a linear expression"""
    if isinstance(v, int):
        return {}, v
    if isinstance(v, tuple) and v[0] == "lin":
        return dict(v[1]), v[2]
    if isinstance(v, tuple) and v[0] == "s":
        return {v[1].replace("sx", "").replace("zx", ""): 1}, 0
    return None


def mklin(t, c):
    t = {k: x for k, x in t.items() if x}
    return ("lin", tuple(sorted(t.items())), c) if t else c


S = "std::__cxx11::basic_string<char"
SF = re.compile(r"^(?:[\w:<>,&\*\s]*? )?" + re.escape(S) + r", std::char_traits<char>, std::allocator<char>>::([\w~]+|operator[=+\[\]]+)(?:<.*>)?\((.*)\)(?: const)?$")
CI = re.compile(r"__normal_iterator<char(?: const)?\*, " + re.escape(S))


class StrInt(Emit):
    MAX = 20000

    # ---- values
    def eval_(self, i, s):
        if i.op in ("sext", "zext") and i.y:
            v = self.val(i.a[0], s)
            k = cls(v)
            if k and not k[1] and i.y == 8:
                return ("s", v[1] + ("sx" if i.op == "sext" else "zx"))
        if i.op == "trunc":
            v = self.val(i.a[0], s)
            if cls(v) and i.ty == "i8":
                return ("s", v[1].replace("sx", "").replace("zx", ""))
        return AbsInt.eval_(self, i, s)

    def arith(self, op, a, b, i):
        la, lb = lin(a), lin(b)
        if la and lb and (la[0] or lb[0]) and self.islin(a) and self.islin(b):
            sg = lambda c: signed(c, "i64") if abs(c) >= 1 << 31 else c
            la, lb = (la[0], sg(la[1])), (lb[0], sg(lb[1]))
            if i.ty == "i32":
                la, lb = [(t, signed(c, "i32") if 0 <= c < 1 << 32 and c >> 31 else c) for t, c in (la, lb)]
            if op in ("add", "sub"):
                g = 1 if op == "add" else -1
                t = dict(la[0])
                for k, x in lb[0].items():
                    t[k] = t.get(k, 0) + g * x
                return mklin(t, la[1] + g * lb[1])
            if op == "mul" and (not la[0] or not lb[0]):
                (t, c), k = (la, lb[1]) if la[0] else (lb, la[1])
                return mklin({x: y * k for x, y in t.items()}, c * k)
            if op == "shl" and not lb[0]:
                return mklin({x: y << lb[1] for x, y in la[0].items()}, la[1] << lb[1])
        return AbsInt.arith(self, op, a, b, i)

    def islin(self, v):
        return isinstance(v, int) or isinstance(v, tuple) and (v[0] == "lin" or cls(v) is not None)

    def icmp(self, i, a, b, s):
        for x, y, sw in ((a, b, False), (b, a, True)):
            k = cls(x)
            if k and isinstance(y, int):
                p = i.op[5:]
                w = {"i8": 8, "i32": 32, "i64": 64}.get(i.x if isinstance(i.x, str) else "i32", 32)
                res = set()
                for c in k[0]:
                    v = signed(c, "i8") & ((1 << w) - 1) if k[1] == "sx" else c
                    u, z = v, y & ((1 << w) - 1)
                    if sw:
                        u, z = z, u
                    su, sz = signed(u, "i%d" % w), signed(z, "i%d" % w)
                    res.add({"eq": u == z, "ne": u != z, "slt": su < sz, "sgt": su > sz, "sle": su <= sz, "sge": su >= sz,
                             "ult": u < z, "ugt": u > z, "ule": u <= z, "uge": u >= z}[p])
                if len(res) == 1:
                    return int(res.pop())
                return "T"
        if cls(a) and cls(b):
            return "T"
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == "lin" and isinstance(y, int) and i.op[5:] in ("eq", "ne"):
                lo = hi = x[2]
                for k, c in x[1]:
                    q = cls(("s", k))
                    if not q:
                        return "T"
                    lo += c * (min(q[0]) if c > 0 else max(q[0]))
                    hi += c * (max(q[0]) if c > 0 else min(q[0]))
                if not lo <= signed(y, "i64") <= hi:
                    return int(i.op[5:] == "ne")
                return "T"
        return AbsInt.icmp(self, i, a, b, s)

    # ---- texts
    def sname(self, v):
        return "str:%s+%s" % (v[1], v[2]) if isinstance(v, tuple) and v[0] == "p" and v[2] is not None else None

    def text(self, v, s):
        """cells of the std::string at address v, or None"""
        n = self.sname(v)
        l = s.mem.get((n, -8)) if n else None
        if not l or not isinstance(l[1], int):
            return None
        return [s.mem.get((n, k), (1, "T"))[1] for k in range(l[1])]

    def settext(self, v, cells, s):
        n = self.sname(v)
        if not n:
            return
        for k in [k for k in s.mem if k[0] == n]:
            del s.mem[k]
        if cells is None:
            s.mem[(n, -8)] = (8, "T")
            return
        s.mem[(n, -8)] = (8, len(cells))
        for k, c in enumerate(cells):
            s.mem[(n, k)] = (1, c)

    def lit(self, v, s, n=None):
        """cells of the C string at address v"""
        if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("s:") and v[2] is not None:
            b = [ord(c) & 255 for c in v[1][2 + v[2]:]]
            return b[:n] if n is not None else b
        if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("str:") and v[2] is not None:
            l = s.mem.get((v[1], -8))
            if l and isinstance(l[1], int):
                b = [s.mem.get((v[1], k), (1, "T"))[1] for k in range(v[2], l[1])]
                return b[:n] if n is not None else b
        return None

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1].startswith("s:") and ptr[2] is not None and i.ty == "i8":
            b = [ord(c) & 255 for c in ptr[1][2:]] + [0]
            if 0 <= ptr[2] < len(b):
                return b[ptr[2]]
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1].startswith("str:") and ptr[2] is not None and i.ty == "i8":
            l = s.mem.get((ptr[1], -8))
            if l and l[1] == ptr[2]:
                return 0
        return None

    def elsize(self, d):
        return 1 if CI.search(d) else Emit.elsize(self, d)

    def ld(self, p, s):
        if isinstance(p, tuple) and p[0] == "p" and p[1].startswith(("str:", "s:")):
            return p    # an iterator passed by value
        return Emit.ld(self, p, s)

    def mine(self, i, d, av, s):
        m = SF.match(d)
        if m and av and isinstance(av[0], tuple) and av[0][0] == "p":
            return self.string(i, m.group(1), m.group(2), d, av, s)
        if CI.search(d) and "operator" in d or d.startswith("bool std::equal<"):
            return self.iter(i, d, av, s)
        if d.startswith("strlen") or d == "strlen":
            t = self.lit(av[0], s)
            return E(ret=len(t)) if t is not None else None
        m = re.match(r"^std::vector<.*>::(operator=)\(", d)
        m = m or re.match(r"^[^(]*& std::vector<.*>::(emplace_back)<", d) or (VEC.match(d) if "basic_string" in d and "::push_back(" in d else None)
        if m:
            n, t = self.vecname(av[0]), self.vecname(av[1])
            if m.group(1) == "operator=" and n and t:
                self.copyvec("vec:" + t, "vec:" + n, s)
                return E(ret=av[0])
            if n and "basic_string" in d:
                n = "vec:" + n
                l = s.mem.get((n, -8), (8, "T"))[1]
                if isinstance(l, int):
                    self.settext(("p", n, 32 * l), self.text(av[1], s), s)
                s.mem[(n, -8)] = (8, l + 1 if isinstance(l, int) else "T")
                return E(ret=None)
            if n and m.group(1) == "emplace_back":
                return self.vector(i, "emplace_back", d, av, s)
        return self.mine2(i, d, av, s)

    def mine2(self, i, d, av, s):
        return None

    def copyvec(self, a, b, s):
        for k in [k for k in s.mem if k[0] == b or k[0].startswith("str:%s+" % b)]:
            del s.mem[k]
        for k, v in list(s.mem.items()):
            if k[0] == a:
                s.mem[(b, k[1])] = v
            elif k[0].startswith("str:%s+" % a):
                s.mem[("str:" + b + k[0][4 + len(a):], k[1])] = v

    def cellarg(self, c):
        return c if not isinstance(c, int) else c & 255

    def src(self, v, args, s):
        """cells of a string-like argument"""
        if "basic_string" in args.split(",")[0] and "char const*" not in args.split("basic_string")[0]:
            return self.text(v, s)
        if args.startswith("char const*"):
            return self.lit(v, s)
        return None

    def string(self, i, k, args, d, av, s):
        me = av[0]
        n = self.sname(me)
        if k == "basic_string":
            if len(av) == 1 or args.startswith("std::allocator"):
                self.settext(me, [], s)
            elif "__normal_iterator" in args or re.search(r"basic_string<(?:__gnu|char)", d.split("::basic_string", 1)[-1]):
                a, b = av[1], av[2]
                if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and isinstance(a[2], int) and isinstance(b[2], int):
                    self.settext(me, self.lit(a, s, b[2] - a[2]), s)
                else:
                    self.settext(me, None, s)
            elif args.startswith("char const*, unsigned long"):
                self.settext(me, self.lit(av[1], s, av[2]) if isinstance(av[2], int) else None, s)
            elif args.startswith("unsigned long, char"):
                self.settext(me, [self.cellarg(av[2])] * av[1] if isinstance(av[1], int) else None, s)
            else:
                self.settext(me, self.src(av[1], args, s), s)
            return E()
        if k == "~basic_string":
            return E()
        t = self.text(me, s)
        if k in ("operator=", "assign"):
            self.settext(me, self.src(av[1], args, s) if len(av) == 2 or "basic_string" in args else
                         self.lit(av[1], s, av[2]) if len(av) == 3 and isinstance(av[2], int) else None, s)
            return E(ret=me)
        if k in ("push_back", "operator+=", "append"):
            x = None
            if args.startswith("char") and "*" not in args:
                x = [self.cellarg(av[1])]
            elif args.startswith("unsigned long, char") and isinstance(av[1], int):
                x = [self.cellarg(av[2])] * av[1]
            elif args.startswith("char const*, unsigned long"):
                x = self.lit(av[1], s, av[2]) if isinstance(av[2], int) else None
            else:
                x = self.src(av[1], args, s)
            self.settext(me, t + x if t is not None and x is not None else None, s)
            return E(ret=me)
        if k in ("size", "length"):
            return E(ret=len(t) if t is not None else None)
        if k == "empty":
            return E(ret=int(not t) if t is not None else None)
        if k in ("begin", "cbegin", "data", "c_str", "front"):
            return E(ret=("p", n, 0))
        if k in ("end", "cend"):
            return E(ret=("p", n, len(t)) if t is not None else ("p", n, None))
        if k == "back":
            return E(ret=("p", n, len(t) - 1) if t else ("p", n, None))
        if k in ("operator[]", "at"):
            return E(ret=("p", n, av[1] if isinstance(av[1], int) else None))
        if k == "clear":
            self.settext(me, [], s)
            return E()
        if k == "pop_back":
            self.settext(me, t[:-1] if t else None, s)
            return E()
        if k in ("reserve", "shrink_to_fit", "capacity"):
            return E(ret=None)
        return None

    def iter(self, i, d, av, s):
        if d.startswith("bool std::equal<"):
            a, b = [self.ld(x, s) or x for x in av[:2]]
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and isinstance(a[2], int) and isinstance(b[2], int):
                x, y = self.lit(a, s, b[2] - a[2]), self.lit(self.ld(av[2], s) or av[2], s, b[2] - a[2])
                if x is not None and y is not None:
                    if len(x) != b[2] - a[2] or len(y) < len(x):
                        return E(ret=None, st=self.ev(s, "overrun", i))
                    same = True
                    for p, q in zip(x, y):
                        if p == q:
                            continue
                        k = cls(p) or cls(q)
                        o = q if cls(p) else p
                        if isinstance(p, int) and isinstance(q, int) or k and isinstance(o, int) and o not in k[0]:
                            return E(ret=0)
                        same = False
                    return E(ret=1 if same else None)
            return E(ret=None)
        m = re.search(r"::difference_type .*operator-|operator-<", d)
        if m and len(av) == 2:
            a, b = self.ld(av[0], s), self.ld(av[1], s)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and isinstance(a[2], int) and isinstance(b[2], int):
                return E(ret=(a[2] - b[2]) & ((1 << 64) - 1))
            return E(ret=None)
        m = re.search(r"::operator(\+\+|--|\+=|-=|\+|-|\*|\[\]|->)\((.*)\)", d)
        if m:
            it = self.ld(av[0], s)
            o, ar = m.group(1), m.group(2)
            if not (isinstance(it, tuple) and it[0] == "p" and it[2] is not None):
                return E(ret=None)
            if o in ("*", "->"):
                return E(ret=it)
            k = 1 if o == "++" else -1 if o == "--" else av[1]
            if not isinstance(k, int):
                nw = ("p", it[1], None)
            else:
                k = signed(k, "i64")
                nw = ("p", it[1], it[2] + (-k if o in ("-=", "-") else k))
            if o in ("+", "-", "[]"):
                return E(ret=nw)
            if o in ("++", "--") and ar == "int":
                return E(ret=it, mem={(av[0][1], av[0][2]): (8, nw)})
            return E(ret=av[0], mem={(av[0][1], av[0][2]): (8, nw)})
        m = re.search(r"operator(==|!=|<=|>=|<|>)<", d)
        if m and len(av) == 2:
            a, b = self.ld(av[0], s), self.ld(av[1], s)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and isinstance(a[2], int) and isinstance(b[2], int):
                a, b = a[2], b[2]
                return E(ret=int({"!=": a != b, "==": a == b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[m.group(1)]))
            return E(ret=None)
        return None
