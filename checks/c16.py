"""C16: the interface is safe before, after and without initialisation and with invalid ids."""
import re
from collections import defaultdict
import prog as P
from absint import AbsInt, E, Limit
from util import dem, field

TITLE = "Calls without a runtime, channel or attribute are safe"
TECHNIQUE = ("null-flow by path-sensitive abstract interpretation: for every method of the runtime, channel, attribute and entry handles the "
             "arguments it does not tolerate (no runtime, no channel, no attribute) are computed, then every function that obtains the runtime "
             "itself is interpreted with a missing and with a live runtime whose lookups may fail")
NOTE = ("pointers that come from the caller (strings, buffers, configuration sets) are taken as valid; loops are widened; a function whose "
        "paths exceed the interpreter's budget is counted as not decided")

HANDLES = re.compile(r"cali::(Caliper|Channel|Attribute|Entry)::~?\w+( const)?[(]")
NOINL = [r"^cali::(Log|RuntimeConfig|ConfigSet|Blackboard|MemoryPool|internal)", r"^std::",
         r"^cali::services", r"^cali::(CalQLParser|QueryProcessor|OutputStream|CompressedSnapshotRecord|SnapshotTree|StringConverter|NodeBuffer|Preprocessor|Aggregator)"]
GET = re.compile(r"cali::Caliper::(Caliper[(][)]|instance[(]|sigsafe_instance[(])")
NODE = re.compile(r"cali::(Node|util::LockfreeIntrusiveTree<cali::Node>)::")
SHARED = re.compile(r"std::(__shared_ptr(?:_access)?|shared_ptr)<cali::ChannelBody.*>::(operator bool|use_count|operator->|operator[*]|get|operator=|__shared_ptr|shared_ptr)[(]")
ROOTS = ("G", "TD")


def args(d):
    """parameter types of a demangled signature"""
    s = d[d.index("(") + 1:d.rindex(")")]
    out, lv, cur = [], 0, ""
    for c in s:
        if c in "<([":
            lv += 1
        elif c in ">)]":
            lv -= 1
        if c == "," and not lv:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


def slots(d, sret):
    """(index, kind) of the parameters that name a channel or attribute"""
    k, out = (1 if sret else 0) + 1, []
    for t in args(d):
        kind = {"cali::ChannelBody*": "channel", "cali::Channel*": "channel handle", "cali::Channel&": "channel handle", "cali::Channel const&": "channel handle",
                "cali::Attribute const&": "attribute", "cali::Attribute const*": "attribute"}.get(t)
        if kind:
            out.append((k, kind))
        k += 2 if t in ("cali::SnapshotView", "cali::Variant") else 1
    return out


def meth(d):
    d = d.replace("[abi:cxx11]", "")
    m = HANDLES.match(d)
    return m and d[:d.rindex(")") + 1].replace(") const", ")")


class N(AbsInt):
    MAX = 30000
    WIDEN = 4

    def __init__(self, p, f, lay, unsafe, mem=None, params=None, sub=None):
        self.p, self.lay, self.unsafe, self.sub = p, lay, unsafe, sub
        self.hits, self.n, self.deps = {}, 0, set()
        AbsInt.__init__(self, f, st0="", params=params or {}, mem=mem or {})

    def null(self, v):
        return v == 0 or isinstance(v, tuple) and v[0] == "p" and v[1] == "null"

    def distinct(self, o):
        return o.startswith(("alloca", "live:")) or o in ROOTS

    def hit(self, i, what):
        self.hits.setdefault(what, i)

    def eval_(self, i, s):
        if i.op == "getelementptr" and self.null(self.val(i.a[0], s)):
            return ("p", "null", 0)
        if i.op in ("load", "store", "cmpxchg") or i.op.startswith("atomicrmw"):
            q = self.val(i.a[1] if i.op == "store" else i.a[0], s)
            if self.null(q):
                self.hit(i, s.st or "a null pointer is followed")
                return "T" if i.op != "store" else None
        return AbsInt.eval_(self, i, s)

    def cell(self, v, s, off=0):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get((v[1], v[2] + off))
            return c[1] if c else None
        return None

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        if ("p", "null", 0) in av[:2]:
            self.hit(i, s.st or "a null pointer is followed")
        if GET.match(d):
            self.n += 1
            r, o = (av[0][1], av[0][2]) if isinstance(av[0], tuple) else (None, None)
            if r is None or o is None:
                return None
            g, t = self.lay["sG"], self.lay["sT"]
            return [E(mem={(r, o + g): (8, 0), (r, o + t): (8, 0)}, st="there is no runtime"),
                    E(mem={(r, o + g): (8, ("p", "G", 0)), (r, o + t): (8, ("p", "TD", 0))})]
        if re.match(r"std::__shared_ptr_access<(?!cali::ChannelBody).*>::operator(->|[*])[(]", d) and isinstance(av[0], tuple) and av[0][0] == "p":
            return E(ret=self.do_load(i, av[0], s))
        sp = SHARED.match(d)
        if sp:
            w = sp.group(2)
            c = self.cell(av[0], s)
            if c is None and self.sub and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][2] is not None and \
                    (w in ("operator bool", "use_count") or self.member(av[0])) and w in ("operator bool", "use_count", "operator->", "operator*", "get"):
                # a stored handle that is tested, or one of a controller: it may be empty
                k = (av[0][1], av[0][2])
                lv = ("p", "live:%s+%d" % k, 0)
                yes = 1 if w in ("operator bool", "use_count") else lv
                return [E(ret=0, mem={k: (8, 0)}, st=s.st or "the stored channel handle is empty"), E(ret=yes, mem={k: (8, lv)})]
            if w in ("operator bool", "use_count"):
                return E(ret=0 if c == 0 else 1 if isinstance(c, tuple) and c[1].startswith("live:") else None)
            if w in ("operator->", "operator*", "get"):
                return E(ret=c if c is not None and c != "T" else self.do_load(i, av[0], s))
            return self.copied(av, s)
        if re.match(r"cali::Channel::(Channel|operator=)[(]cali::Channel( const&|&&|&)[)]", d):
            return self.copied(av, s)
        m = meth(d)
        if m:
            return self.method(i, m, d, av, s)
        if d.startswith("cali::internal::MetadataTree::node("):
            return [E(ret=0, st=s.st or "node gives no node"), E(ret=("p", "live:node%d" % i.id, 0))]
        if NODE.match(d) and av and self.null(av[0]):
            self.hit(i, s.st or "a null node is followed")
            return E(ret=None)
        # the copy of a shared channel handle keeps what it refers to; a free of memory and a stream do not matter
        if d.startswith(("std::", "operator ", "cali::Log")):
            return E(ret=None, pure=not re.match(r"std::(vector|function|map|shared_ptr)", d), forget=())
        return None

    def member(self, v):
        """a handle that is a member of the object a function of the core is called for"""
        return self.sub == "core" and isinstance(v, tuple) and v[0] == "p" and v[2] is not None and re.match(r"[*(]*a0\b", v[1])

    def copied(self, av, s):
        """copy or move of a shared pointer"""
        if not (len(av) > 1 and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][2] is not None):
            return None
        c = self.cell(av[1], s)
        r, o = av[0][1], av[0][2]
        if c is None and self.member(av[1]):
            k = (av[1][1], av[1][2])
            lv = ("p", "live:%s+%d" % k, 0)
            return [E(ret=av[0], mem={k: (8, 0), (r, o): (8, 0), (r, o + 8): (8, 0)}, st=s.st or "the stored channel handle is empty"),
                    E(ret=av[0], mem={k: (8, lv), (r, o): (8, lv), (r, o + 8): (8, "T")})]
        return E(ret=av[0], mem={(r, o): (8, "T" if c is None else c), (r, o + 8): (8, "T")})

    def method(self, i, m, d, av, s):
        cls = m.split("::")[1]
        name = m.split("::")[2].split("(")[0]
        sret = cls == "Caliper" and name in ("get_channel", "create_channel", "get", "get_blackboard_entry", "get_path_node", "get_globals",
                                              "get_all_attributes", "get_all_channels")
        k = 1 if sret else 0
        this = av[k] if len(av) > k else None
        bad = self.unsafe.get(m, set())
        if cls == "Caliper":
            gone = self.cell(this, s, self.lay["sG"]) == 0 or self.cell(this, s, self.lay["sT"]) == 0
            if gone:
                self.deps.add((m, "runtime"))
                if "runtime" in bad:
                    self.hit(i, "there is no runtime when %s is called" % name)
        else:
            gone = False
            if self.cell(this, s) == 0:
                self.deps.add((m, "this"))
                if "this" in bad:
                    self.hit(i, "%s::%s is called without %s" % (cls, name, {"Channel": "a channel"}.get(cls, "a node")))
        for n, kind in slots(m, sret):
            if n < len(av):
                v = av[n] if kind == "channel" else self.cell(av[n], s)
                if v is not None and self.null(v):
                    self.deps.add((m, kind))
                    if kind in bad:
                        self.hit(i, "%s is called without %s" % (name, "an attribute" if kind == "attribute" else "a channel"))
        if cls != "Caliper":
            return E(ret=None)
        if name in ("get_channel", "create_channel") and isinstance(av[0], tuple) and av[0][2] is not None:
            r, o = av[0][1], av[0][2]
            no = E(mem={(r, o): (8, 0), (r, o + 8): (8, 0)}, st=s.st or "%s gives no channel" % name)
            return [no] if gone else [no, E(mem={(r, o): (8, ("p", "live:channel%d" % i.id, 0)), (r, o + 8): (8, 0)})]
        if name in ("get_attribute", "create_attribute", "node", "make_tree_entry"):
            no = E(ret=0, st=s.st or "%s gives no %s" % (name, "attribute" if "attribute" in name else "node"))
            return [no] if gone else [no, E(ret=("p", "live:node%d" % i.id, 0))]
        if name in ("get", "get_blackboard_entry", "get_path_node") and isinstance(av[0], tuple) and av[0][2] is not None:
            r, o = av[0][1], av[0][2]
            no = E(mem={(r, o): (8, 0), (r, o + 8): (8, 0), (r, o + 16): (8, 0)}, st=s.st or "%s gives no entry" % name)
            return [no] if gone else [no, E(mem={(r, o): (8, ("p", "live:entry%d" % i.id, 0)), (r, o + 8): (8, "T"), (r, o + 16): (8, "T")})]
        if name == "exchange":
            return E(ret=None)
        return E(ret=None, pure=gone, forget={av[0][1]} if sret and isinstance(av[0], tuple) else ())


def batches(p, fl):
    """inlined versions of functions, one inlining run per module; calls to out-of-line methods of the handles remain"""
    names = {re.match(r"cali::(Caliper|Channel)::([A-Za-z_]+)[(]", f.dem) for f in p.functions() if f.mod.lib and f.blocks and not f.linkonce}
    noinl = NOINL + [r"^cali::(Caliper|Channel)::(~Channel|Channel|%s)[(]" % "|".join(sorted({m.group(2) for m in names if m}))]
    by = defaultdict(list)
    for f in fl:
        by[f.mod.rel].append(f)
    out = {}
    for rel, l in by.items():
        m = P.inlined(p, rel, ["^" + re.escape(f.dem) + "$" for f in l], noinl)
        for g in m.functions:
            if g.blocks:
                out[(rel, g.name)] = g
    return out


def tolerance(ck, p, lay):
    """what the methods of the handles do not tolerate"""
    fl, seen = [], set()
    for f in p.functions():
        if f.blocks and (f.mod.lib or f.rel().startswith("src/common/")) and meth(f.dem) and not GET.match(f.dem) and f.name not in seen and not f.linkonce:
            n = f.dem.split("::")[2].split("(")[0]
            if n in ("release", "is_initialized") or n.startswith(("~",)) or n == f.dem.split("::")[1]:
                continue
            seen.add(f.name)
            fl.append(f)
    inl = batches(p, fl)
    unsafe, deps, und, where, inner = defaultdict(set), defaultdict(set), 0, {}, {}
    cases = 0
    for f in fl:
        g = inl.get((f.mod.rel, f.name))
        if not g:
            continue
        m = meth(f.dem)
        cls = m.split("::")[1]
        sret = bool(g.params) and g.params[0][0] == "agg.result"
        k = 1 if sret else 0
        th = "a%d" % k
        what = [("runtime" if cls == "Caliper" else "this", None), ("nothing", None)] + [(kind, n) for n, kind in slots(m, sret)]
        where[m] = f
        for kind, n in what:
            cases += 1
            mem, par = {}, {}
            if cls == "Caliper":
                live = kind != "runtime"
                mem[(th, lay["sG"])] = (8, ("p", "G", 0) if live else 0)
                mem[(th, lay["sT"])] = (8, ("p", "TD", 0) if live else 0)
                par[k] = ("p", th, 0)
            elif kind == "this":
                mem[(th, 0)] = (8, 0)
            elif kind == "nothing":
                pass
            if n is not None:
                if n >= len(g.params) or g.params[n][1] != "ptr":
                    continue
                if kind == "channel":
                    par[n] = 0
                else:
                    mem[("a%d" % n, 0)] = (8, 0)
            x = N(p, g, lay, {}, mem=mem, params=par)
            try:
                x.run()
            except Limit:
                und += 1
                continue
            if kind == "runtime" or n is None and kind == "this":
                pass
            elif any(h.startswith("node gives no") for h in x.hits):
                inner.setdefault(m, f)
            if kind in ("runtime", "this") and x.hits or any(not h.startswith(("there is no", "get_", "create_", "node ", "make_")) for h in x.hits):
                unsafe[m].add(kind)
            deps[(m, kind)] = x.deps
    ch = True
    while ch:
        ch = False
        for (m, kind), ds in deps.items():
            if kind not in unsafe[m] and any(k2 in unsafe.get(m2, ()) and (k2 == kind or {k2, kind} <= {"channel", "channel handle"}) for m2, k2 in ds):
                unsafe[m].add(kind)
                ch = True
    ck.count("methods of the runtime, channel, attribute and entry handles", len(fl))
    ck.count("method and missing argument cases", cases)
    ck.count("method cases not decided", und)
    ck.floor("methods of the handles", len(fl), 40)
    ck.floor("decided cases", cases - und, 60)
    return unsafe, where, inner


def lookup(ck, p):
    """the node of an id, for every id around the ends of the node blocks"""
    R = "a node id is looked up within the nodes there are"
    GD, NB = "cali::internal::MetadataTree::GlobalData", "cali::internal::MetadataTree::NodeBlock"
    o = {n: field(p, GD, n) for n in ("node_blocks", "num_blocks", "nodes_per_block")}
    b = {n: field(p, NB, n) for n in ("chunk", "index")}
    nb, sz, nsz = 3, p.struct(NB)["size"], p.struct("cali::Node")["size"]
    f = ck.need([f for f in p.functions() if f.blocks and f.dem.startswith("cali::internal::MetadataTree::node(unsigned long)")], "MetadataTree::node")[0]
    g = P.inlined(p, f.mod.rel, ["^" + re.escape(f.dem) + "$"], [])
    g = [x for x in g.functions if x.name == f.name and x.blocks][0]

    class L(AbsInt):
        def load(self, i, ptr, s):
            if isinstance(ptr, tuple) and ptr[0] == "p" and "mGE" in ptr[1]:
                return ("p", "GD", 0)
            if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1] == "NB" and ptr[2] is not None and ptr[2] >= nb * sz:
                self.beyond = True

        def eval_(self, i, s):
            if i.op in ("inttoptr", "ptrtoint"):
                v = self.val(i.a[0], s)
                if isinstance(v, tuple) and v[0] == "p":
                    return v
            return AbsInt.eval_(self, i, s)

    n = und = 0
    for npb, fill in ((4, (4, 2, 0)), (1, (1, 0, 1)), (5, (3, 5, 1))):
        mem = {("GD", o["node_blocks"]): (8, ("p", "NB", 0)), ("GD", o["num_blocks"]): (8, nb), ("GD", o["nodes_per_block"]): (8, npb)}
        for k in range(nb):
            mem[("NB", k * sz + b["chunk"])] = (8, ("p", "chunk%d" % k, 0) if fill[k] else 0)
            mem[("NB", k * sz + b["index"])] = (8, fill[k])
        for i in list(range(nb * npb + 3)) + [1 << 20, (1 << 64) - 1]:
            k, j = divmod(i, npb)
            want = ("p", "chunk%d" % k, j * nsz) if k < nb and j < fill[k] else 0
            x = L(g, params={1: i}, mem=dict(mem))
            x.beyond = False
            try:
                x.run()
            except Limit:
                und += 1
                continue
            got = {repr(e[1]) for e in x.exits}
            if x.beyond:
                ck.bad(R, "id %s with %d nodes per block" % (i if i < 1 << 63 else "none", npb), "%s:%d" % (f.rel(), f.line), "a block beyond the last one is read")
                continue
            if "'T'" in got or not got or any("*(" in r or "'s'" in r for r in got):
                und += 1
                continue
            n += 1
            ck.decide(got == {repr(want)}, R, "id %s with %d nodes per block, filled %s" % (i if i < 1 << 63 else "none", npb, "/".join(map(str, fill))),
                      "%s:%d" % (f.rel(), f.line), "gives %s instead of %s" % (", ".join(sorted(got)), "the node" if want else "no node"))
    ck.count("node lookups", n)
    ck.count("node lookups, not decided", und)


def body(ck):
    p = P.program()
    lay = {n: field(p, "cali::Caliper", n) for n in ("sG", "sT")}
    ck.rule("methods of the runtime tolerate that there is none", "a public method of the runtime handle that is called before or after the life of the runtime "
            "does not follow the missing global or thread data")
    ck.rule("nothing missing is followed", "a function that obtains the runtime itself never follows a missing runtime, channel, attribute, node or entry, and never hands "
            "one to a method that does not tolerate it")
    ck.rule("a node id is looked up within the nodes there are", "the id of a node gives that node, any other id gives none: no slot beyond the blocks or "
            "the filled part of a block is handed out")
    lookup(ck, p)
    unsafe, where, inner = tolerance(ck, p, lay)
    R = "methods of the runtime tolerate that there is none"
    for m, f in sorted(where.items()):
        if m.startswith("cali::Caliper::"):
            ck.decide("runtime" not in unsafe.get(m, ()), R, m[:90], "%s:%d" % (f.rel(), f.line), "the missing runtime is followed")
    R = "nothing missing is followed"
    for m, f in sorted(where.items()):
        if m.startswith("cali::Caliper::"):
            ck.decide(m not in inner, R, m[:90], "%s:%d" % (f.rel(), f.line), "the node that does not exist is followed")
    fl, seen = [], set()
    for f in p.functions():
        if f.blocks and f.mod.lib and f.name not in seen and not meth(f.dem) and any(i.is_call and i.callee and GET.match(dem(f, i)) for i in f.ins):
            seen.add(f.name)
            fl.append(f)
    inl = batches(p, fl)
    und = n = 0
    for f in fl:
        g = inl.get((f.mod.rel, f.name))
        if not g:
            continue
        x = N(p, g, lay, unsafe, sub="core" if f.rel().startswith("src/caliper/") else "service")
        try:
            x.run()
        except Limit:
            und += 1
            ck.count("not decided: " + f.qname[:60], 1)
            continue
        n += 1
        inst = re.sub(r"[(]anonymous namespace[)]::", "", f.qname)
        ck.decide(not x.hits, R, inst[:100], "%s:%d" % (f.rel(), f.line), "; ".join(sorted(x.hits))[:300])
    ck.count("functions that obtain the runtime", n)
    ck.count("functions that obtain the runtime, not decided", und)
    ck.floor("functions that obtain the runtime", n, 60)
