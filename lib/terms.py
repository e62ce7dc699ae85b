"""Symbolic summaries of scalar functions: every path's result as a bit-vector term over the parameters.

Leaves are ("x", name, width); inner terms ("t", op, width, args...).  bits() tracks where each bit of a term comes
from, cev() gives the term's value for given leaves, so a summary can be decided on every cell of a finite partition
of the inputs (its breakpoints are the constants in the path conditions)."""
import math
import struct
from absint import AbsInt, E, MASK, signed

INTOPS = {"xor", "and", "or", "add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"}
CASTS = {"zext", "trunc", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"}
FCAST = {"sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}
FOPS = {"fadd", "fsub", "fmul", "fdiv", "fneg"}


def isterm(v):
    return isinstance(v, tuple) and v and v[0] in ("x", "t")


def leaf(n, w=64):
    return ("x", n, w)


def width(ty, d=64):
    return int(ty[1:]) if isinstance(ty, str) and ty[:1] == "i" and ty[1:].isdigit() else d


def bits(v, w):
    """provenance of the bits of a value: tuple of 0 | 1 | (leaf, k), None when not tracked"""
    if isinstance(v, int):
        return tuple((v >> k) & 1 for k in range(w))
    if not isterm(v):
        return None
    if v[0] == "x":
        return tuple((v[1], k) if k < v[2] else 0 for k in range(w))
    op, tw, a = v[1], v[2], v[3:]
    if op == "known":
        return (a[0] + (0,) * w)[:w]
    return None


def mk(op, w, *a):
    """term with the bit provenance where it can be tracked"""
    b = tuple(a[0]) if op == "known" else None
    if op in ("and", "or", "add", "xor", "shl", "lshr", "trunc", "zext", "sext", "ashr"):
        sw = a[1] if op in ("trunc", "zext", "sext") else w
        x = bits(a[0], sw)
        if op == "trunc" and x:
            b = x[:w]
        elif op == "zext" and x:
            b = x[:sw] + (0,) * (w - sw)
        elif op == "sext" and x:
            b = x[:sw] + (x[sw - 1],) * (w - sw)
        elif op in ("shl", "lshr", "ashr") and x and isinstance(a[1], int) and 0 <= a[1] < w:
            n = a[1]
            b = ((0,) * n + x)[:w] if op == "shl" else (x + ((x[w - 1] if op == "ashr" else 0),) * n)[n:n + w]
        elif op in ("and", "or", "add", "xor") and x:
            y = bits(a[1], w)
            if y:
                r = []
                for p, q in zip(x, y):
                    if op == "and":
                        r.append(0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else None)
                    elif op == "or":
                        r.append(1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else None)
                    else:
                        r.append(q if p == 0 else p if q == 0 else None)
                b = tuple(r) if None not in r else None
    if b is not None and None not in b:
        if all(isinstance(q, int) for q in b):
            return sum(q << k for k, q in enumerate(b))
        lv = {q[0] for q in b if isinstance(q, tuple)}
        n = next(iter(lv))
        if len(lv) == 1 and all(q == (n, k) for k, q in enumerate(b)):
            return leaf(n, w)
        return ("t", "known", w, b)
    return ("t", op, w) + a


def urange(v, w):
    b = bits(v, w)
    if not b:
        return 0, (1 << w) - 1
    return sum((q if isinstance(q, int) else 0) << k for k, q in enumerate(b)), sum((q if isinstance(q, int) else 1) << k for k, q in enumerate(b))


class Terms(AbsInt):
    """params: values for parameters; scalar parameters without a value become leaves"""
    MAX = 20000

    def __init__(self, fn, params=None, **kw):
        pr = {}
        for k, q in enumerate(fn.params):
            if q[1] != "ptr":
                pr[k] = leaf("a%d" % k, width(q[1])) if q[1] not in ("double", "float") else ("t", "asfp", 64, leaf("a%d" % k))
        pr.update(params or {})
        AbsInt.__init__(self, fn, params=pr, **kw)

    def eval_(self, i, s):
        op = i.op
        A = lambda k: self.val(i.a[k], s)
        w = width(i.ty)
        if op in CASTS:
            v = A(0)
            if isinstance(v, tuple) and v[0] == "b":
                v = ("t", "ite", 1, v, 1, 0)
            if isterm(v):
                if op in ("ptrtoint", "inttoptr", "freeze"):
                    return v
                if op == "bitcast":
                    return ("t", "asfp", 64, v) if i.ty == "double" else v[3] if v[1] == "asfp" else ("t", "asint", 64, v)
                return mk(op, w, v, i.y)
        if op in INTOPS and len(i.a) == 2:
            a, b = A(0), A(1)
            if isinstance(a, tuple) and a[0] == "b" and w > 1 or isinstance(b, tuple) and b[0] == "b" and w > 1:
                a, b = [("t", "ite", 1, q, 1, 0) if isinstance(q, tuple) and q[0] == "b" else q for q in (a, b)]
            if (isterm(a) or isterm(b)) and all(isterm(q) or isinstance(q, int) for q in (a, b)):
                if isinstance(a, int):
                    a &= (1 << w) - 1
                if isinstance(b, int):
                    b &= (1 << w) - 1
                return mk(op, w, a, b)
        if op in FCAST or op in FOPS:
            a = [A(k) for k in range(len(i.a))]
            a = [self.fp(q) if op in FOPS or op in ("fptosi", "fptoui") else q for q in a]
            if all(isterm(q) or isinstance(q, (int, float)) for q in a):
                return ("t", op, w) + tuple(a) + ((i.y,) if op in ("sitofp", "uitofp") else ())
            return "T"
        if op.startswith("fcmp."):
            a, b = self.fp(A(0)), self.fp(A(1))
            if (isterm(a) or isinstance(a, float)) and (isterm(b) or isinstance(b, float)):
                return ("b", ("cmp", "f" + op[5:], 64, a, b), True)
            return "T"
        if op.startswith("icmp."):
            a, b = A(0), A(1)
            if isinstance(a, tuple) and a[0] == "b" and b == 0 and op in ("icmp.ne", "icmp.eq"):
                return a if op == "icmp.ne" else ("b", a[1], not a[2])
            if (isterm(a) or isterm(b)) and all(isterm(q) or isinstance(q, int) for q in (a, b)):
                w = width(i.x)
                p = op[5:]
                if isinstance(a, int):
                    a &= (1 << w) - 1
                if isinstance(b, int):
                    b &= (1 << w) - 1
                (al, ah), (bl, bh) = urange(a, w), urange(b, w)
                if a == b:
                    return int(p in ("eq", "sle", "sge", "ule", "uge"))
                if p in ("eq", "ne") and (ah < bl or bh < al):
                    return int(p == "ne")
                r = {"ugt": (al > bh, ah <= bl), "uge": (al >= bh, ah < bl), "ult": (ah < bl, al >= bh), "ule": (ah <= bl, al > bh)}.get(p)
                if r and (r[0] or r[1]):
                    return int(r[0])
                pol = True
                if p in ("ne", "uge", "ule", "sge", "sle"):
                    p, pol = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}[p], False
                if p in ("ugt", "sgt"):
                    p, a, b = {"ugt": "ult", "sgt": "slt"}[p], b, a
                k = ("cmp", p, w, a, b)
                for f, o in s.facts:
                    if f == k:
                        return int(o == pol)
                return ("b", k, pol)
        if op == "select":
            c, a, b = A(0), A(1), A(2)
            if not isinstance(c, int) and isinstance(c, tuple) and all(isterm(q) or isinstance(q, (int, float)) for q in (a, b)):
                return a if a == b else ("t", "ite", w, c, a, b)
        return AbsInt.eval_(self, i, s)

    def fp(self, v):
        if isinstance(v, int):
            return struct.unpack("<d", struct.pack("<Q", v & (1 << 64) - 1))[0]
        return v

    def val(self, v, s):
        if v.startswith("f:"):
            try:
                return float(v[2:])
            except ValueError:
                return "T"
        return AbsInt.val(self, v, s)

    def do_load(self, i, p, s):
        if isinstance(p, tuple) and p[0] == "p" and p[2] is not None:
            c = s.mem.get((p[1], p[2]))
            if c and (isterm(c[1]) or isinstance(c[1], int)):
                v, n = c[1], i.y or 8
                if i.ty == "double" and n == 8:
                    return v[3] if isterm(v) and v[1] == "asint" else v if isterm(v) and v[1] in ("asfp",) + tuple(FCAST | FOPS) else \
                        ("t", "asfp", 64, v) if isterm(v) else self.fp(v)
                if isterm(v) and c[0] and n < c[0]:
                    return mk("trunc", 8 * n, v, 8 * c[0])
                if isterm(v) and i.ty != "double" and v[0] == "t" and v[1] == "asfp" and n == 8:
                    return v[3]
        return AbsInt.do_load(self, i, p, s)


# ---- evaluation of a summary for given leaves
class Undef(Exception):
    pass


def cev(v, env):
    if isinstance(v, (int, float)):
        return v
    if v[0] == "b":
        return int(cev(v[1], env) == (1 if v[2] else 0))
    if v[0] == "cmp":
        p, w = v[1], v[2]
        a, b = cev(v[3], env), cev(v[4], env)
        if p[0] == "f":
            q = p[1:]
            un = math.isnan(a) or math.isnan(b)
            if q in ("ord", "uno"):
                return int(un == (q == "uno"))
            if un:
                return int(q[0] == "u")
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[q[1:]])
        m = (1 << w) - 1
        a, b = a & m, b & m
        if p[0] == "s":
            a, b = signed(a, "i%d" % w), signed(b, "i%d" % w)
        return int({"eq": a == b, "lt": a < b}[p if p == "eq" else p[1:]])
    if v[0] == "x":
        return env[v[1]] & ((1 << v[2]) - 1)
    op, w, a = v[1], v[2], v[3:]
    m = (1 << w) - 1
    if op == "known":
        return sum((q if isinstance(q, int) else (env[q[0]] >> q[1]) & 1) << k for k, q in enumerate(a[0]))
    if op == "ite":
        return cev(a[1] if cev(a[0], env) else a[2], env)
    if op == "asfp":
        return struct.unpack("<d", struct.pack("<Q", cev(a[0], env) & (1 << 64) - 1))[0]
    if op == "asint":
        return struct.unpack("<Q", struct.pack("<d", cev(a[0], env)))[0]
    if op in ("trunc", "zext"):
        return cev(a[0], env) & ((1 << min(w, a[1])) - 1)
    if op == "sext":
        return signed(cev(a[0], env), "i%d" % a[1]) & m
    if op == "sitofp":
        return float(signed(cev(a[0], env), "i%d" % (a[1] or 64)))
    if op == "uitofp":
        return float(cev(a[0], env) & ((1 << (a[1] or 64)) - 1))
    if op in ("fptosi", "fptoui"):
        x = cev(a[0], env)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, m)
        if math.isnan(x) or math.isinf(x) or not lo <= int(x) <= hi:
            raise Undef("conversion out of range")
        return int(x) & m
    if op in FOPS:
        x = [cev(q, env) for q in a]
        try:
            return {"fadd": lambda: x[0] + x[1], "fsub": lambda: x[0] - x[1], "fmul": lambda: x[0] * x[1], "fdiv": lambda: x[0] / x[1], "fneg": lambda: -x[0]}[op]()
        except ZeroDivisionError:
            raise Undef("division by zero")
    if op in INTOPS:
        x, y = cev(a[0], env) & m, cev(a[1], env) & m
        if op in ("udiv", "urem", "sdiv", "srem") and not y:
            raise Undef("division by zero")
        sx, sy = signed(x, "i%d" % w), signed(y, "i%d" % w)
        return {"xor": lambda: x ^ y, "and": lambda: x & y, "or": lambda: x | y, "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y, "udiv": lambda: x // y, "urem": lambda: x % y,
                "sdiv": lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), "srem": lambda: math.fmod(sx, sy)}[op]() & m
    raise Undef("no value for " + op)


def holds(facts, env):
    """does the path with these facts belong to the leaves' values? None when a fact is not a term"""
    for f, o in facts:
        if not (isinstance(f, tuple) and f[0] == "cmp"):
            return None
        if bool(cev(f, env)) != bool(o):
            return False
    return True


def consts(v, out):
    if isinstance(v, int):
        out.add(v)
    elif isinstance(v, tuple) and v:
        if v[0] == "t" and v[1] == "known":
            return out
        for q in v[1:]:
            if isinstance(q, (int, tuple)):
                consts(q, out)
    return out
