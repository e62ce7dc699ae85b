"""The .cali stream format, extracted from the C++ writer and reader by abstract interpretation.

Writer: the exact token sequence it emits for a node (with or without parent) and for records of every shape up to
two references and two immediates.  Reader: what it reports for a line whose numbers are symbolic digits and whose
values are symbolic bytes."""
import re
from absint import E, Limit
from check import Broken
from strint import StrInt, ch, cls, lin, mklin, show
from util import field, one

WR, RD, VA = "src/reader/CaliWriter.cpp", "src/reader/CaliReader.cpp", "src/common/Variant.cpp"
SETU = re.compile(r"^std::(?:unordered_|multi)?set<unsigned long.*>::(\w+)\(|^.*std::(?:unordered_)?set<unsigned long[^(]*>::(emplace)<")


class Writer(StrInt):
    MAX = 8000

    def mine2(self, i, d, av, s):
        if self.is_rec(d):
            return E(st=self.ev(s, "rec", av[2], i))
        m = re.search(r"IntrusiveTree<[\w:]+>::(\w+)\(", d)
        if m:
            if m.group(1) == "parent":
                return E(ret=("p", "parent(%s)" % av[0][1], 0) if isinstance(av[0], tuple) else None)
            return E(ret=None)
        m = re.match(r"^(?:bool )?std::operator(==|!=)\(std::_Rb_tree_(?:const_)?iterator|^(?:bool )?std::_Rb_tree_(?:const_)?iterator.*operator(==|!=)\(|"
                     r"^(?:bool )?std::__detail::operator(==|!=)\(", d)
        if m and len(av) == 2:
            a, b = self.ld(av[0], s), self.ld(av[1], s)
            if a is not None and b is not None:
                return E(ret=("b", ("c", "eq", a, b), "==" in m.groups()))
            return E(ret=None)
        m = SETU.match(d)
        if m:
            k = m.group(1) or m.group(2)
            x = self.ld(av[1], s) if len(av) > 1 else None
            if k in ("end", "cend"):
                return E(ret=("p", "setend", 0))
            if k in ("insert", "emplace"):
                return E(ret=("agg", (("p", "%%%d" % i.id, 0), ("b", ("c", "eq", ("s", "%%%d" % i.id), "inserted"), True))), st=self.ev(s, k, x, i))
            if k in ("count", "find", "contains"):
                return E(ret=None, st=self.ev(s, k, x, i))
            return E(ret=None, st=self.ev(s, "set-" + k, None, i))
        if "::write_cali(" in d:
            v = self.ld(av[0], s)
            return E(ret=av[1], st=self.outto(av[1], s, ("var", v)))
        if re.search(r"__shared_ptr.*::(_M_get|get|operator->)\(", d) and isinstance(av[0], tuple):
            return E(ret=("p", "impl", 0))
        return None

    def is_rec(self, d):
        return "recursive_write_node" in d


def wmod(p, P):
    return P.inlined(p, WR, ["recursive_write_node", "CaliWriter::write_snapshot", "CaliWriter::write_globals"],
                     noinline=["recursive_write_node", "write_uint64", "write_cali", "LockfreeIntrusiveTree"])


def node_paths(p, P, m=None):
    """[(facts, trace, events)] of the function that writes one node"""
    f = one(m or wmod(p, P), "recursive_write_node")
    w = Writer(f)
    w.run()
    return f, [(fa, st[0], st[1]) for ins, r, st, mem, fa in w.exits if ins.op == "ret"]


def record_paths(p, P, kind, shape, m=None):
    """same for write_snapshot / write_globals with a record of the given shape (R = reference, I = immediate, - = empty)"""
    f = one(m or wmod(p, P), "CaliWriter::write_" + kind)
    mem = {("vec:a2+0", -8): (8, len(shape))}
    en = p.struct("cali::Entry")["size"]
    na = field(p, "cali::Node", "m_attribute")
    for k, c in enumerate(shape):
        mem[("vec:a2+0", en * k)] = (8, ("p", "n%d" % k, 0) if c != "-" else 0)
        if c != "-":
            mem[("n%d" % k, na)] = (8, 8 if c == "I" else 77)
    w = Writer(f, mem=mem)
    w.run()
    return f, [(fa, st[0], st[1]) for ins, r, st, mem, fa in w.exits if ins.op == "ret"]


class Reader(StrInt):
    """one line, then the end of the stream"""
    MAX = 8000

    def __init__(self, f, line, err, **kw):
        StrInt.__init__(self, f, **kw)
        self.line, self.err = line, err

    def mine2(self, i, d, av, s):
        if "getline<" in d:
            n = sum(1 for e in s.st[1] if e[0] == "line")
            if n == 0:
                self.settext(av[1], self.line, s)
            return E(ret=av[0], st=self.ev(s, "line"))
        if re.search(r"::operator bool\(\) const$", d) and "basic_ios" in d or re.search(r"basic_ios<.*>::(good|fail|eof|operator!)\(", d):
            n = sum(1 for e in s.st[1] if e[0] == "line")
            v = int(n <= 1)
            return E(ret=1 - v if re.search(r"::(fail|eof|operator!)\(", d) else v)
        if re.search(r"__shared_ptr.*::(_M_get|get|operator->)\(|^std::unique_ptr<.*>::(get|operator->)\(", d):
            return E(ret=("p", "impl", 0))
        if re.search(r"::_M_ptr\(", d):
            return E(ret=("p", "implp", 0), mem={("implp", 0): (8, ("p", "impl", 0))})
        m = re.search(r"CaliperMetadataDB::(merge_\w+)\(", d)
        if m:
            a = [x for x in av[1:]]
            out = []
            for x in a:
                t = self.text(x, s) if isinstance(x, tuple) and x[0] == "p" else None
                if t is not None:
                    out.append(("text", tuple(t)))
                elif isinstance(x, int) or self.islin(x):
                    out.append(x)
            # a call that returns an object gets the address of the result first
            return E(ret=("p", "merged", 0) if i.ty == "ptr" else None, st=self.ev(s, m.group(1), tuple(out)))
        if re.match(r"^std::function<", d) and "operator()" in d:
            return E(st=self.ev(s, "deliver", "node" if "Node const*" in d else "record", self.fn.mod.prog and None))
        return None

    def stored(self, i, ptr, val, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1] == "impl" and ptr[2] == self.err and val != 0:
            return self.ev(s, "error")
        return None


_rm = {}


def read(p, P, line):
    """event lists (one per path) of reading the given line"""
    if "f" not in _rm:
        m = P.inlined(p, RD, ["CaliReader::read"], noinline=["CaliperMetadataDB::"])
        fs = [f for f in m.functions if f.qname.endswith("CaliReader::read") and "istream" in m.demangle.get(f.name, f.name) or f.qname.endswith("CaliReader::read") and "istream" in f.name]
        if len(fs) != 1:
            raise Broken("anchor not found: CaliReader::read(std::istream&) (%d)" % len(fs))
        _rm["f"] = fs[0]
        st = [x for x in ("cali::CaliReader::CaliReaderImpl",) if p.struct(x)]
        if not st:
            raise Broken("anchor not found: CaliReaderImpl")
        _rm["e"] = field(p, st[0], "m_error")
    f = _rm["f"]
    r = Reader(f, line, _rm["e"], mem={("impl", _rm["e"]): (1, 0)})
    try:
        r.run()
    except Limit:
        return f, None
    return f, [st[1] for ins, rv, st, mem, fa in r.exits if ins.op in ("ret", "unreachable")]


def digits(k, n):
    """cells and value of a symbolic number of n digits"""
    c = [("s", "<digit#%d>" % (10 * k + j)) for j in range(n)]
    t, v = {}, 0
    for j, x in enumerate(c):
        t[x[1]] = 10 ** (n - 1 - j)
        v -= 48 * 10 ** (n - 1 - j)
    return c, mklin(t, v)


def escape(p, P, cells, which="cali"):
    """output (cells) of write_<which>_esc_string for a text of the given cells, one per path; None = not determined"""
    k = "esc" + which
    if k not in _rm:
        rel = next((r for r in (VA, "src/reader/JsonFormatter.cpp", "src/reader/JsonSplitFormatter.cpp") if r in p.mods and
                    any("write_%s_esc_string" % which in p.mods[r].prog.dem(f.name) for f in p.mods[r].functions)), None)
        if not rel:
            raise Broken("anchor not found: write_%s_esc_string" % which)
        m = P.inlined(p, rel, ["write_%s_esc_string" % which])
        fs = [f for f in m.functions if re.search(r"write_%s_esc_string\(.*char const\*, unsigned long" % which, m.demangle.get(f.name, p.dem(f.name)))]
        if len(fs) != 1:
            raise Broken("anchor not found: write_%s_esc_string(os, char*, size)" % which)
        _rm[k] = fs[0]
    f = _rm[k]
    w = StrInt(f, mem={("txt", j): (1, c) for j, c in enumerate(cells)}, params={1: ("p", "txt", 0), 2: len(cells)})
    try:
        w.run()
    except Limit:
        return f, None
    r = []
    for ins, rv, st, mem, fa in w.exits:
        if ins.op != "ret":
            continue
        o = []
        for t in st[0]:
            if t[0] == "lit":
                o += [ord(c) & 255 for c in t[1]]
            elif t[0] == "chr":
                o.append(("s", t[1][1].replace("sx", "").replace("zx", "")) if cls(t[1]) else None)
            else:
                o.append(None)
        r.append(o)
    return f, r


BYTES = [10, 92, 44, 61, 34, 32]


def alphabet():
    """one symbol or byte per class; together they cover all 256 bytes"""
    return [ch(k, j) for j, k in enumerate(("digit", "plain", "high", "nul", "ctrl1"))] + BYTES


def instance(trace, val, ndig):
    """the line(s) the writer's trace stands for: (cells without the line end, numbers, values)"""
    out, nums, k = [], [], 0
    for t in trace:
        if t[0] == "lit":
            out += [ord(c) & 255 for c in t[1]]
        elif t[0] == "num":
            c, v = digits(5 + k, ndig[k % len(ndig)])
            k += 1
            out += c
            nums.append((t[1], v))
        elif t[0] == "var":
            out += val(sum(1 for x in nums if x[0] is None))
            nums.append((None, None))
        else:
            return None
    if not out or out[-1] != 10:
        return None
    return out[:-1], [v for a, v in nums if a is not None]
