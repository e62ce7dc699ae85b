"""Abstract output traces: which literal and symbolic pieces a function writes to an ostream, path by path.

A trace is a tuple of ("lit", text) | ("num", value) | ("var", value) | ("str", value) with values of lib/absint.
std::vectors are modelled cell by cell: the elements of `v` live in the root `vec:v`, its length in cell -8;
a vector without known length has one generic element per visit."""
import re
from absint import AbsInt, E

VEC = re.compile(r"^std::vector<.*>::(\w+|operator\[\])\(.*\)(?: const)?$")
IT = re.compile(r"^(?:bool )?(?:__gnu_cxx::|std::)?(?:__normal_iterator<.*>::)?operator")
NI = re.compile(r"__gnu_cxx::__normal_iterator<.*>::operator(\*|\+\+|--|->|\+|\+=)")
NE = re.compile(r"^bool (?:__gnu_cxx::)?operator(!=|==|<)<.*(?:__normal_iterator|\*)")
LOCK = re.compile(r"^std::(?:recursive_|shared_)?mutex::(lock|unlock)\(|^pthread_(?:mutex_(?:lock|unlock))")


def dem(f, i):
    return f.mod.demangle.get(i.callee, i.callee or "")


def text(v):
    return v[1][2:] if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("s:") and not v[2] else None


class Emit(AbsInt):
    """client state = (trace, events, held locks)"""
    WIDEN = 12

    def __init__(self, fn, **kw):
        AbsInt.__init__(self, fn, st0=kw.pop("st0", ((), (), ())), **kw)
        self.keep = {k[0] for k in self.mem0}

    SIZES = {"char": 1, "bool": 1, "int": 4}

    def elsize(self, d):
        t = re.search(r"std::vector<(.*?), std::allocator", d)
        t = t.group(1) if t else ""
        if "basic_string<" in t:
            return 32
        if t.endswith("*") or "long" in t or t == "double":
            return 8
        if t in self.SIZES:
            return self.SIZES[t]
        st = self.fn.mod.prog.struct(t)
        return st["size"] if st else 8

    def vector(self, i, k, d, av, s):
        n = "vec:" + self.vecname(av[0])
        ln = s.mem.get((n, -8))
        ln = ln[1] if ln else None
        sz = self.elsize(d)
        if k in ("begin", "cbegin", "data"):
            return E(ret=("p", n, 0), st=self.ev(s, "iter", n))
        if k in ("end", "cend"):
            return E(ret=("p", n, sz * ln) if isinstance(ln, int) else ("p", n, None))
        if k in ("operator[]", "at"):
            return E(ret=("p", n, sz * av[1] if isinstance(av[1], int) else None))
        if k == "front":
            return E(ret=("p", n, 0))
        if k == "back":
            return E(ret=("p", n, sz * (ln - 1) if isinstance(ln, int) else None))
        if k in ("push_back", "emplace_back"):
            mem = {}
            if isinstance(ln, int) and isinstance(av[1], tuple) and av[1][0] == "p" and av[1][2] is not None:
                for o in range(0, sz, 8):
                    c = s.mem.get((av[1][1], av[1][2] + o))
                    # a word of the source without known content keeps its identity
                    mem[(n, sz * ln + o)] = c if c else (8, ("s", "*(%s+%d)" % (av[1][1], av[1][2] + o)))
            mem[(n, -8)] = (8, ln + 1 if isinstance(ln, int) else "T")
            for c, v in mem.items():
                s.mem[c] = v
            return E(ret=None, st=self.ev(s, "push", n, av[1]))
        if k in ("vector", "clear") and len(av) == 1:
            for c in [c for c in s.mem if c[0] == n]:
                del s.mem[c]
            s.mem[(n, -8)] = (8, 0)
            return E()
        if k in ("reserve", "~vector", "shrink_to_fit"):
            return E()
        if k == "size":
            return E(ret=ln if isinstance(ln, int) else None)
        if k == "empty":
            return E(ret=int(ln == 0) if isinstance(ln, int) else None)
        s.mem[(n, -8)] = (8, "T")
        return None

    OSS = re.compile(r"^std::(?:__cxx11::)?basic_o?stringstream<char.*>::(basic_o?stringstream|~basic_o?stringstream|str)\(")

    def strstream(self, i, d, av, s):
        """string streams: what is written to one is kept aside and appended where its text is written"""
        m = self.OSS.match(d)
        if not m:
            return None
        if m.group(1) == "str":
            a, b = (av[0], av[1]) if len(av) > 1 else (None, None)
            if a and isinstance(a, tuple) and isinstance(b, tuple) and ("oss:" + b[1], 0) in s.mem:
                s.mem[("osstr:%s+%s" % a[1:3], 0)] = s.mem[("oss:" + b[1], 0)]
                return E()
            return None
        if m.group(1)[0] != "~" and isinstance(av[0], tuple):
            s.mem[("oss:" + av[0][1], 0)] = (0, ())
        return E()

    def outto(self, os, s, *tok):
        if isinstance(os, tuple) and os[0] == "p":
            c = s.mem.get(("oss:" + os[1], 0))
            if c:
                t = self.join(c[1] if isinstance(c[1], tuple) else (("raw", "T"),), tok)
                s.mem[("oss:" + os[1], 0)] = (0, t)
                return s.st
        ex = []
        for k in tok:
            c = s.mem.get(("osstr:%s+%s" % k[1][1:3], 0)) if k[0] == "str" and isinstance(k[1], tuple) and k[1][0] == "p" else None
            ex += list(c[1]) if c and isinstance(c[1], tuple) else [k]
        return self.out(s, *ex)

    @staticmethod
    def join(t, tok):
        t = list(t)
        for k in tok:
            if k[0] == "lit" and t and t[-1][0] == "lit":
                t[-1] = ("lit", t[-1][1] + k[1])
            else:
                t.append(k)
        return tuple(t)

    def out(self, s, *tok):
        t, ev, l = s.st
        return (self.join(t, tok), ev + (("out", tok, len(l)),), l)

    def ev(self, s, *e):
        t, ev, l = s.st
        return (t, ev + (e,), l)

    def vecname(self, v):
        return "%s+%s" % (v[1], v[2]) if isinstance(v, tuple) and v[0] == "p" else None

    def call(self, i, av, s):
        d = dem(self.fn, i)
        r = self.mine(i, d, av, s)
        if r is not None:
            return r
        if d.startswith("operator new"):
            return E(ret=("p", "new%d" % i.id, 0))
        if d.startswith(("operator delete", "__clang_call_terminate")):
            return E()
        r = self.strstream(i, d, av, s)
        if r is not None:
            return r
        m = LOCK.match(d)
        if m:
            t, ev, l = s.st
            k = (m.group(1) or d[14:]).strip("_(")
            nm = av[0]
            if "un" in k:
                l2 = list(l)
                if nm in l2:
                    l2.remove(nm)
                return E(ret=0, st=(t, ev + (("unlock", nm),), tuple(l2)))
            return E(ret=0, st=(t, ev + (("lock", nm),), l + (nm,)))
        if re.match(r"^std::ostream::write\(", d):
            x = text(av[1])
            c = self.cells(av[1], av[2], s) if x is None and isinstance(av[2], int) else None
            if c is not None:
                return E(ret=av[0], st=self.outto(av[0], s, *[("lit", chr(b & 255)) if isinstance(b, int) else ("chr", b) for b in c]))
            tok = ("lit", x[:av[2]] if isinstance(av[2], int) else x) if x is not None else ("raw", av[1], av[2])
            if x is not None and isinstance(av[2], int) and av[2] > len(x.encode("latin-1", "replace")):
                tok = ("lit", x + "\0" * (av[2] - len(x)))
            return E(ret=av[0], st=self.outto(av[0], s, tok))
        if re.match(r"^std::ostream::put\(", d):
            return E(ret=av[0], st=self.outto(av[0], s, ("lit", chr(av[1] & 255)) if isinstance(av[1], int) else ("chr", av[1])))
        if re.match(r"^(?:std::basic_ostream<.*>& )?(?:std::ostream::)?(?:std::)?operator<<", d) and av:
            if len(av) == 2:
                x = text(av[1])
                if x is not None:
                    return E(ret=av[0], st=self.outto(av[0], s, ("lit", x)))
                if "char)" in d and isinstance(av[1], int):
                    return E(ret=av[0], st=self.outto(av[0], s, ("lit", chr(av[1] & 255))))
                if re.search(r"char const\*\)$|, (?:un|)(?:signed )?char\)$", d):
                    return E(ret=av[0], st=self.outto(av[0], s, ("raw" if d.endswith("*)") else "chr", av[1])))
                k = "str" if "basic_string<" in d.split("operator<<")[-1].split("(")[-1] or "basic_string<char" in d and "(" in d else "num"
                return E(ret=av[0], st=self.outto(av[0], s, (k, av[1])))
        if "::write_uint64(" in d:
            return E(ret=av[0], st=self.outto(av[0], s, ("num", av[1])))
        if "::write_cali(" in d:
            return E(ret=av[1], st=self.outto(av[1], s, ("var", av[0])))
        m = VEC.match(d)
        if m and av and self.vecname(av[0]):
            r = self.vector(i, m.group(1), d, av, s)
            if r is not None:
                return r
        m = NI.search(d)
        if m and av:
            it = self.ld(av[0], s)
            if m.group(1) in ("*", "->"):
                if isinstance(it, tuple) and it[0] == "p" and it[1].startswith("vec:"):
                    return E(ret=it)
                return E(ret=None)
            if m.group(1) in ("++", "+", "+=", "--") and isinstance(it, tuple) and it[0] == "p" and it[1].startswith("vec:") and it[2] is not None:
                k = 1 if m.group(1) == "++" else -1 if m.group(1) == "--" else av[1] if len(av) > 1 else None
                nw = ("p", it[1], it[2] + k * self.elsize(d)) if isinstance(k, int) else "T"
                if m.group(1) == "+":
                    return E(ret=nw)
                return E(ret=it if "(int)" in d else av[0], mem={(av[0][1], av[0][2]): (8, nw)})
            return E(ret=av[0])
        m = NE.match(d)
        if m and len(av) == 2:
            a, b = self.ld(av[0], s), self.ld(av[1], s)
            if a and b and isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] and isinstance(a[2], int) and isinstance(b[2], int):
                return E(ret=int({"!=": a[2] != b[2], "==": a[2] == b[2], "<": a[2] < b[2]}[m.group(1)]))
            return E(ret=None)
        r = self.other(i, d, av, s)
        if r is not None:
            return r
        for v in av:
            if isinstance(v, tuple) and v[0] == "p" and v[1] not in self.keep:
                for k in [k for k in s.mem if k[0] == v[1] and (v[2] is None or k[1] >= v[2])]:
                    s.mem[k] = (s.mem[k][0], "T")
        return E(ret=None)

    def ld(self, p, s):
        if isinstance(p, tuple) and p[0] == "p" and p[1].startswith("vec:") and not isinstance(s.mem.get((p[1], p[2]), (0, 0))[1], tuple):
            return p
        if isinstance(p, tuple) and p[0] == "p":
            c = s.mem.get((p[1], p[2]))
            return c[1] if c else p if p[1].startswith("vec:") else None
        return None

    def cells(self, p, n, s):
        """the n bytes at p, if known"""
        if not (isinstance(p, tuple) and p[0] == "p" and isinstance(p[2], int)) or n > 4096:
            return None
        if p[1].startswith("s:"):
            t = p[1][2 + p[2]:2 + p[2] + n]
            return [ord(c) for c in t] if len(t) == n else None
        r = [s.mem.get((p[1], p[2] + k)) for k in range(n)]
        return [c[1] for c in r] if all(c and c[0] == 1 and c[1] != "T" for c in r) else None

    def mine(self, i, d, av, s):
        return None

    def other(self, i, d, av, s):
        return None
