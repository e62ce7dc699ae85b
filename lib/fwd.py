"""Forwarding summaries: which library operations a thin function performs, in order, and with what values.

Each path of a function is a list of calls (name, arguments, result symbol); arguments that point to a local object are
replaced by what the object holds, values are bit-vector terms over the function's own parameters."""
import re
from absint import E
from terms import Terms, Undef, cev, isterm, leaf
from util import dem

KEEP = [r"^cali::Caliper::", r"^cali_", r"^cali::Log", r"^std::__cxx11::basic_string<", r"^cali::Attribute::(type|properties|name|get_node|make_attribute)",
        r"^cali::Channel::", r"^cali::Entry::"]
STRCTOR = re.compile(r"^std::__cxx11::basic_string<.*::basic_string(<.*>)?\((char const\*|std::__cxx11::basic_string<.*> const&|std::__cxx11::basic_string<.*>&&)")
STRGET = re.compile(r"^std::__cxx11::basic_string<.*>::(data|c_str|size|length)\(\)( const)?$")
FROM = {"int": 2, "int64": 2, "uint": 3, "double": 6, "bool": 7, "type": 8, "ptr": 9, "string": 4}


class Fwd(Terms):
    MAX = 6000
    WIDEN = 30

    def __init__(self, f, want, hook=None, params=None, **kw):
        Terms.__init__(self, f, params=params, st0=(), **kw)
        self.want, self.hook = want, hook

    def obj(self, v, s, n=24):
        """the words a local object holds"""
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            if v[1].startswith("@"):
                return ("g", v[1][1:] + ("+%d" % v[2] if v[2] else ""))
            if v[1].startswith(("alloca", "new", "ret")) or any(k[0] == v[1] for k in s.mem):
                if v[1].startswith("a") and v[1][1:].isdigit() and all(c[1] == "T" for k, c in s.mem.items() if k[0] == v[1]):
                    return v
                w = tuple((k[1] - v[2], c[1]) for k, c in sorted(s.mem.items(), key=lambda q: (q[0][0], q[0][1])) if k[0] == v[1] and 0 <= k[1] - v[2] < n)
                return ("o", w)
        return v

    def call(self, i, av, s):
        d = dem(self.fn, i)
        if i.callee == "strlen" or d.startswith("std::char_traits<char>::length"):
            a = av[0]
            return E(ret=leaf("len:%s" % (a[1] if isinstance(a, tuple) and a[0] == "p" and a[2] == 0 else "?%d" % i.id)))
        m = STRGET.match(d)
        if m and isinstance(av[0], tuple) and av[0][0] == "p" and re.match(r"a\d+$", av[0][1]) and av[0][2] == 0:
            return E(ret=("p", "data:" + av[0][1], 0) if m.group(1) in ("data", "c_str") else leaf("size:" + av[0][1]))
        m = STRCTOR.match(d)
        if m and av and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][2] is not None:
            src = av[1]
            if not m.group(2).startswith("char"):
                src = s.mem.get((src[1], src[2]), (0, ("s", "?")))[1] if isinstance(src, tuple) and src[0] == "p" and src[2] is not None else ("s", "?")
            return E(mem={(av[0][1], av[0][2]): (8, ("str", src))})
        if re.match(r"^cali::(Caliper::)?~?Caliper\(", d) or re.match(r"^cali::Caliper::~?Caliper\(", d):
            return E()
        r = self.hook(self, i, d, av, s) if self.hook else None
        if r is not None:
            return r
        if d.startswith("operator new"):
            return E(ret=("p", "new%d" % i.id, 0))
        if not i.callee and i.is_call:
            fv = self.val(i.a[0], s) if i.a and isinstance(i.a[0], str) and i.a[0].startswith("%") else None
            x = re.search(r"\+(\d+)\)$", sym(fv) or "")
            if x:
                return E(st=s.st + (("virtual+" + x.group(1), tuple(self.obj(a, s) for a in av), "r%d" % i.id, i),), pure=False, ret=None)
        w = self.want(d, i)
        if w:
            args = tuple(self.obj(a, s) for a in av)
            ret = ("s", "r%d" % i.id)
            mem = {}
            if i.ty == "void" and isinstance(w, str) and w == "sret" and isinstance(av[0], tuple) and av[0][0] == "p":
                mem = {(av[0][1], (av[0][2] or 0) + 8 * k): (8, ("s", "r%d.%d" % (i.id, k))) for k in range(3)}
            if i.ty.startswith("{") or i.ty in ("{}",):
                ret = ("agg", (("s", "r%d.0" % i.id), ("s", "r%d.1" % i.id)))
            if i.ty in ("i1", "i8", "i32", "i64"):
                ret = leaf("r%d" % i.id, int(i.ty[1:]))
            return E(ret=ret, st=s.st + ((d, args, "r%d" % i.id, i),), mem=mem)
        return None


def sym(v):
    """symbol name of an opaque result"""
    if isinstance(v, tuple):
        if v[0] == "s":
            return v[1]
        if v[0] == "p" and v[2] == 0:
            return v[1]
        if v[0] == "x":
            return v[1]
        if v[0] == "o" and len(v[1]) >= 1 and v[1][0][0] == 0:
            return sym(v[1][0][1])
    return None


def param(v, k):
    """is the value parameter k, unchanged?"""
    return isinstance(v, tuple) and (v[0] == "x" and v[1] == "a%d" % k or v[0] == "p" and v[1] == "a%d" % k and v[2] == 0 or
                                     v[0] == "t" and v[1] in ("asfp", "asint") and param(v[3], k) or v == ("o", ((0, ("s", "*(a%d+0)" % k)),)))


def variant(v, log):
    """(type, value terms...) of a variant built by a cali_make_variant* call of the path; None when unknown"""
    if isinstance(v, tuple) and v[0] == "o" and v[1] and v[1][0][0] == 0:
        v = v[1][0][1]
    n = sym(v)
    if not n:
        return None
    n = n.split(".")[0]
    for d, args, r, i in log:
        if r == n:
            m = re.match(r"cali_make_variant(_from_(\w+))?$", d)
            if m:
                return (FROM.get(m.group(2)),) + tuple(args) if m.group(1) else ("mk",) + tuple(args)
            return None
    return None


SAMPLES = {"int": (0, 5, 0x80000000, 0xffffffff, 0x7fffffff), "uint": (0, 7, 1 << 63, (1 << 64) - 1, 1 << 32)}


def is_value(v, kind, k):
    """does the variant (see variant()) hold parameter k of this kind? (True/False/None, why)"""
    if v is None:
        return None, "the value is not recognised"
    t = {"int": 2, "uint": 3, "double": 6, "string": 4, "bool": 7}[kind]
    if kind == "string":
        if v[0] == 4 and param(v[1], k):
            return True, ""
        if v[0] == "mk":
            if v[1] != 4:
                return (False, "the value is given type %s" % (v[1],)) if isinstance(v[1], int) else (None, "")
            if not param(v[2], k):
                return (False, "the value is not the one passed in") if isinstance(v[2], tuple) and v[2][0] in ("p", "g") else (None, "")
            try:
                z = [cev(v[3], {"len:a%d" % k: n}) for n in (0, 1, 9, 70000)]
            except (Undef, KeyError, TypeError):
                return None, "size"
            return (z == [0, 1, 9, 70000]), "a string of 9 characters is passed on with size %d" % z[2]
        return False, "the value is given type %s" % v[0]
    if v[0] == "mk":
        return None, ""
    if v[0] != t:
        return False, "the value is given type %s" % v[0]
    if kind == "double":
        return (True, "") if param(v[1], k) else (None, "") if not isterm(v[1]) else (False, "the value is converted")
    if not (isterm(v[1]) or isinstance(v[1], int)):
        return None, ""
    try:
        for x in SAMPLES[kind]:
            y = cev(v[1], {"a%d" % k: x})
            w = x - (1 << 32) if kind == "int" and x >> 31 else x
            if (y - w) & (0xffffffff if y < 1 << 32 and kind == "int" and v[1][2] == 32 else (1 << 64) - 1):
                return False, "the value %d is passed on as %d" % (w, y)
    except (Undef, KeyError, TypeError):
        return None, ""
    return True, ""
