"""Small helpers shared by the checks built on lib/absint."""
import re
from absint import AbsInt, E
from check import Broken


def dem(f, i):
    return f.mod.demangle.get(i.callee, i.callee or "")


def field(p, st, name):
    s = p.struct(st)
    for f in s["fields"] if s else []:
        if f[0] == name:
            return f[2]
    raise Broken("anchor not found: %s::%s" % (st, name))


def one(m, pat):
    q = re.sub(r"\\\(.*$", "", pat)
    fs = [f for f in m.functions if re.search("(^|::)" + q + r"(\[abi:\w+\])?$", f.qname) and f.blocks]
    if len(fs) != 1:
        raise Broken("anchor not found: %s (%d functions)" % (pat, len(fs)))
    return fs[0]


class Boot(AbsInt):
    """the metadata nodes a constructor creates and how it links them, by constant propagation"""
    MAX = 30000
    WIDEN = 300

    def __init__(self, f, base, **kw):
        AbsInt.__init__(self, f, **kw)
        self.base, self.nodes, self.links, self.first = base, {}, {}, None

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1].startswith("@") and ptr[2] is not None:
            g = self.base.globals.get(ptr[1][1:])
            if g and g.get("const") and g.get("init"):
                fl = [x for r in g["init"] for x in (r if isinstance(r, list) else [r])]
                k = ptr[2] // 8
                if ptr[2] % 8 == 0 and 0 <= k < len(fl):
                    return int(fl[k][1:]) if isinstance(fl[k], str) and fl[k][0] == "#" else fl[k]
        return None

    def cell(self, p, s):
        c = s.mem.get((p[1], p[2])) if isinstance(p, tuple) and p[0] == "p" else None
        return c[1] if c else None

    def call(self, i, av, s):
        d = dem(self.fn, i)
        if d.startswith("operator new"):
            n = s.st + 1
            return E(ret=("p", "new%d" % n, 0), st=n)
        if "make_variant_from_type" in d:
            return E(ret=("agg", (("s", "type:%s" % (av[0],)), 0)))
        if re.search(r"Variant::Variant\(", d) and av:
            v = None
            if "char const*" in d and isinstance(av[1], tuple) and av[1][1].startswith("s:"):
                v = ("s", "str:" + av[1][1][2:])
            elif len(av) > 1:
                v = self.cell(av[1], s)
            if isinstance(av[0], tuple):
                return E(mem={(av[0][1], av[0][2]): (8, v if v is not None else "T")})
        if re.search(r"cali::Node::Node\(", d) and len(av) >= 4:
            v = self.cell(av[3], s)
            self.nodes[av[0]] = (av[1], av[2], v[1] if isinstance(v, tuple) else v, i)
            return E()
        if re.search(r"Tree<cali::Node>::append\(", d):
            self.links[av[1]] = av[0]
            return E()
        m = re.match(r"^std::vector<cali::Node\*.*>::(\w+|operator\[\])\(", d)
        if m and m.group(1) in ("operator[]", "at") and isinstance(av[1], int):
            return E(ret=("p", "nodevec", 8 * av[1]))
        if m:
            if m.group(1) == "resize":
                self.first = av[1]
            return E(ret=None)
        if re.search(r"::allocate\(|aligned_alloc", d):
            return E(ret=("p", "chunk", 0))
        for v in av:
            if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("alloca"):
                self.forget([v[1]], s)
        return E(ret=None)


BOOT = (("src/caliper/MetadataTree.cpp", "GlobalData::GlobalData"), ("src/reader/CaliperMetadataDB.cpp", "setup_bootstrap_nodes"))


def bootstrap(p, P):
    """{file: ({id: (attribute, content, parent id or None)}, anchor)} of the metadata nodes every process predefines"""
    out = {}
    for rel, root in BOOT:
        if rel not in p.mods:
            raise Broken("anchor not found: " + rel)
        m = P.inlined(p, rel, [root], noinline=["Node::Node", "cali_make_variant", "Variant::Variant", "::append"])
        f = one(m, root)
        b = Boot(f, p.mods[rel], st0=0)
        b.run()
        ids = {a: n[0] for a, n in b.nodes.items()}
        r = {}
        for a, n in b.nodes.items():
            if isinstance(n[0], int) and 0 <= n[0] < 1 << 32:
                r[n[0]] = (n[1], n[2], root0(ids.get(b.links.get(a))))
        if len(r) < 3:
            raise Broken("anchor not found: predefined nodes of %s (%d)" % (rel, len(r)))
        out[rel] = (r, f.blocks[0][-1].where())
    return out


def root0(x):
    """the root of the tree has no id"""
    return x if isinstance(x, int) and 0 <= x < 1 << 32 else None
