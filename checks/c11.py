"""C11: metadata nodes are immutable once visible and visible only when complete."""
import re
import prog as P
from absint import AbsInt, E, Limit
from check import Broken
from util import dem, field
from c19 import inl

TITLE = "Metadata nodes are immutable once visible and visible only when complete"
TECHNIQUE = ("abstract interpretation of the metadata tree operations over an enumerated heap (tree shapes, fill levels, value "
             "types and sizes, failing allocations, a competing insertion): every node's fields at the moment it is published, every "
             "access to published nodes, orderings, node slots, string storage and results are compared with the tree's contract; "
             "effect analysis of all writes to node fields; null-flow of node results in the runtime")
NOTE = ("the interpreter follows compare-exchange exactly, with and without a competing insertion at the first attempt; tree shapes "
        "have up to five nodes, path operations up to two new values")

REL = "src/caliper/MetadataTree.cpp"
TREE = "cali::internal::MetadataTree"
NOINL = [r"^cali::MemoryPool::", r"^cali::ConfigSet", r"^cali::RuntimeConfig", r"^cali::StringConverter", r"^cali::Attribute::",
         r"^cali::internal::MetadataTree::copy_path_without_attribute"]
SZ = 72
STR, INT, USR, UINT = 4, 2, 1, 3
ACQ = ("acquire", "seq_cst", "acq_rel")
RELS = ("release", "seq_cst", "acq_rel")


class Lay:
    """offsets of the tree's structures"""
    def __init__(self, p):
        def offs(n):
            return {f[0]: f[2] for f in p.struct(n)["fields"]}
        self.tree, self.g, self.blk = offs(TREE), offs(TREE + "::GlobalData"), offs(TREE + "::NodeBlock")
        self.node = offs("cali::Node")
        b = offs("cali::util::LockfreeIntrusiveTree<cali::Node>")
        l = offs("cali::util::LockfreeIntrusiveTree<cali::Node>::Node")
        self.size = p.struct("cali::Node").get("size") or SZ
        t = self.node["m_treenode"]
        base = self.node.get("<base>", 0)
        self.f = {"self": base + b["m_me"], "link": base + b["m_node"], "id": self.node["m_id"], "attr": self.node["m_attribute"],
                  "type": self.node["m_data"], "value": self.node["m_data"] + 8, "parent": t + l["parent"], "next": t + l["next"],
                  "head": t + l["head"]}
        self.linkoff = t


def word(t, n):
    return (n << 32) | t if t in (STR, USR) else t


class Heap:
    """an enumerated heap: the tree, its node blocks and some published nodes"""
    def __init__(self, L, N=16, B=4, nextb=1, fill=12, noblock=False):
        self.L, self.N, self.B, self.nextb, self.fill, self.noblock = L, N, B, nextb, fill, noblock
        self.mem = {}
        m = self.mem
        g = L.g
        m[("tree", L.tree["m_nodeblock"])] = (8, 0 if noblock else ("p", "blocks", 0))
        m[("tree", L.tree["m_num_nodes"])] = (4, 100)
        m[("tree", L.tree["m_num_blocks"])] = (4, 1)
        m[("G", g["next_block"])] = (4, nextb)
        m[("G", g["node_blocks"])] = (8, ("p", "blocks", 0))
        m[("G", g["num_blocks"])] = (8, B)
        m[("G", g["nodes_per_block"])] = (8, N)
        m[("blocks", L.blk["chunk"])] = (8, ("p", "chunk", 0))
        m[("blocks", L.blk["index"])] = (8, fill)
        self.names = {}
        self.new_node("root", None, -1, -1, 0, 0, at=("G", g["root"]))
        for k in range(10):
            m[("G", g["type_nodes"] + 8 * k)] = (8, ("p", "type%d" % k, 0))
        self.vals = 0

    def new_node(self, name, parent, i, attr, t, v, at=None):
        L, m = self.L, self.mem
        r, o = at or (name, 0)
        f = L.f
        self.names[name] = ("p", r, o)
        par = self.names[parent] if parent else 0
        nxt = 0
        if parent:
            pr = self.names[parent]
            c = (pr[1], pr[2] + f["head"])
            nxt = m[c][1]
            m[c] = (8, ("p", r, o))
        for k, x in (("self", ("p", r, o)), ("link", L.linkoff), ("id", i), ("attr", attr), ("type", t), ("value", v),
                     ("parent", par), ("next", nxt), ("head", 0)):
            m[(r, o + f[k])] = (8, x)
        return self.names[name]

    def value(self, t, v, n=0):
        """a variant of the caller; returns (pointer, type word, value)"""
        o = 16 * self.vals
        self.vals += 1
        self.mem[("vals", o)] = (8, word(t, n))
        self.mem[("vals", o + 8)] = (8, v)
        return ("p", "vals", o)


class T(AbsInt):
    """client state: (published, problems, copies, pools, cas attempts, relaxed nodes, fresh pool storage)"""
    MAX = 20000
    WIDEN = 60
    attrs = {"A1": (21, STR), "A2": (22, INT), "A3": (23, USR), "AU": (24, UINT)}

    def __init__(self, p, f, heap, params, fail=False, race=False, depth=0, st=None, fns=None):
        self.p, self.hp, self.fail, self.race, self.depth, self.fns = p, heap, fail, race, depth, fns
        self.L = heap.L
        mem = dict(heap.mem)
        AbsInt.__init__(self, f, st0=st or ((), (), (), (), 0, (), 0), params=params, mem=mem)

    def distinct(self, o):
        return not o.startswith(("%", "*", "a"))

    # state helpers
    def up(self, s, **k):
        n = ("pub", "bad", "copies", "pools", "cas", "relaxed", "x")
        s.st = tuple(k.get(q, v) for q, v in zip(n, s.st))

    def bad(self, s, t):
        if t not in s.st[1]:
            self.up(s, bad=s.st[1] + (t,))

    def nodeof(self, r, off):
        """(root, start) of the node an address lies in"""
        if r in ("chunk",) or r.startswith("newchunk"):
            return (r, off - off % self.L.size)
        if r == "G":
            a = self.L.g["root"]
            return ("G", a) if a <= off < a + self.L.size else None
        if r in self.hp.names or r.startswith("type"):
            return (r, 0)
        return None

    def label(self, n):
        f = self.L.f
        return {v: k for k, v in f.items()}.get(n, "field at %s" % n)

    def eval_(self, i, s):
        if i.op == "getelementptr" and self.val(i.a[0], s) == 0:
            return ("p", "null", 0)
        if i.op in ("load", "store", "cmpxchg") or i.op.startswith("atomicrmw"):
            q = self.val(i.a[1] if i.op == "store" else i.a[0], s)
            if q == 0 or isinstance(q, tuple) and q[0] == "p" and q[1] == "null":
                self.bad(s, "a null node is dereferenced")
                return "T" if i.op != "store" else None
            if isinstance(q, tuple) and q[0] == "p" and q[2] is not None:
                self.touch(i, q, s)
                if q[1] == "blocks" and i.op != "load" and not 0 <= q[2] < 16 * self.hp.B:
                    self.bad(s, "a node block beyond the last one is used")
                if q[:2] == ("p", "G") and q[2] == self.L.g["next_block"]:
                    if i.op == "store" and not isinstance(self, Boot):
                        self.bad(s, "the next node block is taken without an atomic operation")
                    if i.op != "load" and self.race == "steal":
                        # other threads take all the blocks that are left
                        s.mem[("G", q[2])] = (8, max(self.hp.B, self.hp.nextb))
        if i.op == "cmpxchg":
            return self.cas(i, s)
        if i.op == "fence" and i.x in ACQ:
            self.up(s, relaxed=())
        return AbsInt.eval_(self, i, s)

    def arith(self, op, a, b, i):
        if op == "sub" and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "p" and a[1] == b[1] and None not in (a[2], b[2]):
            return a[2] - b[2]
        return AbsInt.arith(self, op, a, b, i)

    def touch(self, i, q, s):
        f = self.L.f
        n = self.nodeof(q[1], q[2])
        if n is None:
            return
        off = q[2] - n[1]
        st = i.op == "store" or i.op.startswith("atomicrmw")
        if n[0] == "chunk" or n[0].startswith("newchunk"):
            if n[1] + self.L.size > self.hp.N * self.L.size or n[1] < 0:
                self.bad(s, "a node is placed outside of its node block")
            if st and n in [x[0] for x in s.st[0]]:
                self.bad(s, "the %s of a node is written after the node became visible" % self.label(off))
            if n[0] == "chunk" and n[1] < self.hp.fill * self.L.size and not self.hp.noblock:
                self.bad(s, "a node slot that is in use already is used")
        elif st:
            self.bad(s, "the %s of a node that other threads can see is written" % self.label(off))
        if any(x[0] == n and x[1] for x in s.st[5]) and off != f["head"]:
            self.bad(s, "a node found through a relaxed load of the child list is accessed")
        if i.op == "load" and off == f["head"]:
            v = s.mem.get((q[1], q[2]), (0, 0))[1]
            if isinstance(v, tuple) and v[0] == "p":
                k = (v[1], v[2])
                if i.x in ACQ:
                    # insertions are read-modify-writes: all earlier ones in this list are visible as well
                    self.up(s, relaxed=tuple(x for x in s.st[5] if x[0] != k and x[1] != n) + ((k, None),))
                elif (k, n) not in s.st[5] and (k, None) not in s.st[5]:
                    self.up(s, relaxed=s.st[5] + ((k, n),))

    def cas(self, i, s):
        p, exp, new = (self.val(a, s) for a in i.a[:3])
        if not (isinstance(p, tuple) and p[0] == "p" and p[2] is not None):
            self.bad(s, "compare-exchange at an address that is not determined")
            return "T"
        f = self.L.f
        n = self.nodeof(p[1], p[2])
        if n is None or p[2] - n[1] != f["head"]:
            old = self.do_load(i, p, s)
            return ("agg", (old, "T"))
        if self.race is True and s.st[4] == 0:
            # another thread inserts a node first
            old = s.mem.get((p[1], p[2]), (8, "T"))[1]
            for k, x in (("self", ("p", "other", 0)), ("link", self.L.linkoff), ("parent", ("p",) + n), ("next", old), ("head", 0),
                         ("attr", 99), ("type", INT), ("value", ("s", "other")), ("id", 98)):
                s.mem[("other", f[k])] = (8, x)
            s.mem[(p[1], p[2])] = (8, ("p", "other", 0))
            self.hp.names.setdefault("other", ("p", "other", 0))
        self.up(s, cas=s.st[4] + 1)
        old = s.mem.get((p[1], p[2]), (8, "T"))[1]
        if old != exp:
            return ("agg", (old, 0))
        s.mem[(p[1], p[2])] = (8, new)
        if not (isinstance(new, tuple) and new[0] == "p" and new[2] is not None):
            self.bad(s, "something that is not a node is linked")
            return ("agg", (old, 1))
        if i.x not in RELS:
            self.bad(s, "a node is linked without release ordering")
        b = (new[1], new[2])
        if self.nodeof(*b) != b:
            self.bad(s, "something that is not a node is linked")
        c = {k: s.mem.get((b[0], b[1] + o), (0, None))[1] for k, o in f.items()}
        miss = [k for k, v in c.items() if v is None or v == "T"]
        if miss:
            self.bad(s, "a node is linked before its %s is set" % ", ".join(sorted(miss)))
        if c["self"] != new or c["link"] != self.L.linkoff:
            self.bad(s, "a node is linked whose tree links do not refer to itself")
        if c["next"] != old:
            self.bad(s, "a node is linked without the siblings that are there already: they are lost")
        if c["parent"] != ("p",) + n:
            self.bad(s, "a node is linked under a node which is not its parent")
        if c["head"] != 0:
            self.bad(s, "a node is linked with children")
        if b in [x[0] for x in s.st[0]]:
            self.bad(s, "a node is linked twice")
        self.up(s, pub=s.st[0] + ((b, n, c["attr"], c["type"], c["value"], c["id"]),))
        return ("agg", (old, 1))

    def do_call(self, i, s):
        c = i.callee or ""
        if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove"):
            d, src, n = (self.val(a, s) for a in i.args[:3])
            if d == 0 and n != 0:
                self.bad(s, "data is copied to a null address")
                return []
            if isinstance(d, tuple) and d[0] == "p" and d[1].startswith("pool"):
                self.copy(d, src, n, s)
                if not c.startswith("llvm.") and i.ty != "void":
                    s.env[i.id] = d
                return [s]
            if isinstance(src, tuple) and src[0] == "p" and src[1] == "user" or n == 0:
                return [s]
            if not c.startswith("llvm."):
                return AbsInt.do_call(self, i, s)
        return AbsInt.do_call(self, i, s)

    def copy(self, d, src, n, s):
        if not isinstance(n, int) or d[2] is None:
            self.bad(s, "the amount or place of copied data is not determined")
            return
        size = dict(s.st[3]).get(d[1])
        if size is None or d[2] + n + 1 > size:
            self.bad(s, "string data of %s bytes with its end mark does not fit into the %s bytes that are left of its storage"
                     % (n, None if size is None else size - d[2]))
        for r, o, m, _ in s.st[2]:
            if r == d[1] and o < d[2] + n + 1 and d[2] < o + m + 1:
                self.bad(s, "string data overlaps the string before it or its end mark")
        self.up(s, copies=s.st[2] + ((d[1], d[2], n, src),))

    def data(self, w, v, addr):
        if isinstance(w, int) and w & 255 in (STR, USR):
            return v
        return ("p", addr[1], addr[2] + 8)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        c = i.callee or ""
        if re.match(r"cali::MemoryPool::allocate\(", d):
            n = av[1] if len(av) > 1 else "T"
            if not isinstance(n, int):
                self.bad(s, "storage of an undetermined size is requested")
                n = 0
            k = len(s.st[3])
            isnode = len(av) > 2
            name = "newchunk%d" % k if isnode else "pool%d" % k
            if isnode and n < self.hp.N * self.L.size:
                self.bad(s, "a node block of %d bytes is allocated for %d nodes" % (n, self.hp.N))
            ok = E(ret=("p", name, 0), st=s.st[:3] + (s.st[3] + ((name, n),),) + s.st[4:])
            return [ok, E(ret=0)] if self.fail else ok
        m = re.match(r"cali::Attribute::(id|type|operator bool)\(", d)
        if m:
            a = av[0][1] if isinstance(av[0], tuple) else None
            if a in self.attrs:
                return E(ret={"id": self.attrs[a][0], "type": self.attrs[a][1], "operator bool": 1}[m.group(1)])
            return E(ret="T")
        if c == "cali_variant_get_size":
            w = av[0]
            if isinstance(w, tuple) and w[0] == "p":
                w = s.mem.get((w[1], w[2]), (0, "T"))[1]
            return E(ret=(w >> 32 if w & 255 in (STR, USR) else 8) if isinstance(w, int) else "T")
        if c == "cali_variant_get_data":
            w = s.mem.get((av[0][1], av[0][2]), (0, "T"))[1] if isinstance(av[0], tuple) and av[0][2] is not None else "T"
            v = s.mem.get((av[0][1], av[0][2] + 8), (0, "T"))[1] if isinstance(av[0], tuple) and av[0][2] is not None else "T"
            return E(ret=self.data(w, v, av[0]))
        if c == "cali_make_variant":
            t, q, n = av[:3]
            if t in (STR, USR):
                return E(ret=("agg", (word(t, n) if isinstance(n, int) else "T", q)))
            v = s.mem.get((q[1], q[2]), (0, "T"))[1] if isinstance(q, tuple) and q[0] == "p" and q[2] is not None else "T"
            return E(ret=("agg", (t, v)))
        if re.match(r"_?cali_variant(_value)?_eq$", c):
            w = list(av)
            if len(w) == 2:
                w = [s.mem.get((x[1], x[2] + o), (0, "T"))[1] if isinstance(x, tuple) and x[2] is not None else "T" for x in w for o in (0, 8)]
            if "T" in w:
                return E(ret="T")
            return E(ret=int(w[0] == w[2] and w[1] == w[3]))
        if re.match(r"cali::internal::MetadataTree::", d) and self.fns is not None:
            f = self.fns.get(i.callee)
            if f is None:
                raise Broken("%s is called but not analysed" % d[:80])
            if self.depth > 8:
                raise Limit("recursion in %s" % d[:60])
            n = T(self.p, f, self.hp, {k: v for k, v in enumerate(av)}, self.fail, self.race, self.depth + 1, s.st, self.fns)
            keep = {k: v for k, v in s.mem.items() if k[0].startswith("alloca")}
            n.mem0 = {k: v for k, v in s.mem.items() if not k[0].startswith("alloca")}
            n.run()
            out = []
            for ins, rv, st, mem, facts in n.exits:
                if ins.op == "ret":
                    mm = {k: v for k, v in mem.items() if not k[0].startswith("alloca")}
                    out.append(E(ret="T" if rv is None else rv, st=st, mem=mm))
            return out
        return None

    def val(self, v, s):
        if v.startswith("@") and TREE.split("::")[-1] in v and "2mGE" in v:
            return ("p", "mG", 0)
        return AbsInt.val(self, v, s)

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[:2] == ("p", "mG"):
            return ("p", "G", 0)
        if isinstance(ptr, tuple) and ptr[1] == "blocks" and ptr[2] is not None:
            return 0 if 0 <= ptr[2] < 16 * self.hp.B else ("s", "uninitialised block")
        return None


def funcs(p):
    m = P.inlined(p, REL, ["^cali::internal::MetadataTree::"], NOINL)
    if m is None:
        raise Broken("metadata tree not analysed")
    return {f.name: f for f in m.functions if f.blocks and f.dem.startswith(TREE)}


def one(fns, pat):
    l = [f for f in fns.values() if re.search(pat, f.dem)]
    if len(l) != 1:
        raise Broken("metadata tree operation %s not found" % pat)
    return l[0]


def chain(L, mem, rv, stop):
    """[(attribute id, type word, value)] from the root to the node"""
    out, n = [], 0
    while isinstance(rv, tuple) and rv[0] == "p" and rv != stop and n < 12:
        g = lambda k: mem.get((rv[1], rv[2] + L.f[k]), (0, None))[1]
        out.append((g("attr"), g("type"), g("value")))
        rv = g("parent")
        n += 1
    return list(reversed(out)) if rv == stop else None


class Case:
    """one operation on one heap"""
    def __init__(self, p, L, fns):
        self.p, self.L, self.fns = p, L, fns

    def run(self, f, heap, params, want, new, fail=False, race=False, values=()):
        """want: list of (attr, type, value) from the root; value may be ('copy', source, n).  new: number of nodes created.
        returns problems"""
        t = T(self.p, f, heap, dict(params), fail, race, fns=self.fns)
        t.run()
        bad = []
        ends = [x for x in t.exits if x[0].op == "ret"]
        if not ends:
            bad.append("does not return")
        for ins, rv, st, mem, facts in ends:
            pr = list(st[1])
            pub = st[0]
            seen = set()
            for b, par, at, ty, v, i in pub:
                if b in seen:
                    pr.append("one node slot is used twice")
                seen.add(b)
                slot = b[1] // self.L.size
                where = [k for k in range(heap.B) if mem.get(("blocks", 16 * k + self.L.blk["chunk"]), (0, None))[1] == ("p", b[0], 0)]
                if len(where) != 1:
                    pr.append("no node block, or more than one, refers to the storage a node is in")
                    continue
                blkno = where[0]
                if i != blkno * heap.N + slot:
                    pr.append("a node gets an id that is not that of its place")
                ix = mem.get(("blocks", 16 * blkno + self.L.blk["index"]), (0, None))[1]
                if not isinstance(ix, int) or ix <= slot or ix > heap.N:
                    pr.append("the fill level of the node block does not cover a node in it")
                if blkno and blkno < heap.nextb:
                    pr.append("a node block that another thread may own is used")
                if isinstance(ty, int) and ty & 255 in (STR, USR):
                    if not (isinstance(v, tuple) and v[0] == "p" and v[1].startswith("pool")):
                        if v not in self.owned(heap):
                            pr.append("the string data of a node stays in the caller's storage")
            if rv == 0 or rv is None:
                if race == "steal":
                    pass
                elif want is not None and not self.full(heap, new) and not fail:
                    pr.append("returns no node though there is space")
                if pub and not fail and new <= 1:
                    pr.append("creates a node but returns none")
            else:
                if new is not None and len(pub) != new:
                    pr.append("creates %d nodes where %d are needed" % (len(pub), new))
                got = chain(self.L, mem, rv, heap.names["root"])
                if got is None:
                    pr.append("returns something that is not a node of the tree")
                elif want is not None:
                    if len(got) != len(want):
                        pr.append("the path has %d nodes in place of %d" % (len(got), len(want)))
                    else:
                        cp = {("p", r, o): (src, n) for r, o, n, src in st[2]}
                        for (ga, gt, gv), (wa, wt, wv) in zip(got, want):
                            if ga != wa:
                                pr.append("a node has attribute %s in place of %s" % (ga, wa))
                            elif gt != wt:
                                pr.append("a node's value has another type or size")
                            elif isinstance(wv, tuple) and wv[0] == "copy":
                                if cp.get(gv) != (wv[1], wv[2]) and gv != wv[1] and not (wv[2] == 0 and isinstance(gv, tuple)):
                                    pr.append("a node's string is not a copy of the value")
                                elif gv == wv[1]:
                                    pr.append("the string data of a node stays in the caller's storage")
                            elif gv != wv:
                                pr.append("a node has another value")
            bad += [x for x in pr if x not in bad]
        return bad

    def owned(self, heap):
        return {c[1] for k, c in heap.mem.items() if k[0] in heap.names}

    def full(self, heap, n):
        return heap.nextb >= heap.B and (heap.noblock or heap.fill + n > heap.N - 1)


FILL = [("free", dict(fill=13)), ("last but one slot", dict(fill=14)), ("last slot", dict(fill=15)), ("full", dict(fill=16)),
        ("full, later block", dict(fill=16, nextb=3)), ("no block yet", dict(noblock=True, nextb=2)),
        ("exhausted", dict(fill=16, nextb=4)), ("no block yet, exhausted", dict(noblock=True, nextb=4))]


def children(ck, p, L, fns):
    """get_child / get_path with an attribute"""
    f = one(fns, r"::get_child\(")
    g = one(fns, r"::get_path\(cali::Attribute")
    R = "nodes are complete when linked"
    vals = [("integer", INT, ("s", "v1"), 0)] + [("string of %d" % n, STR, ("p", "user", 0), n) for n in (0, 1, 7, 8, 9)] + \
           [("blob of 5", USR, ("p", "user", 0), 5)]
    n = 0
    C = Case(p, L, fns)
    for vn, t, v, size in vals:
        at = {STR: "A1", INT: "A2", USR: "A3"}[t]
        aid = T.attrs[at][0]
        prob = []
        for fn_, k in FILL:
            for parent in ("none", "node", "node with children"):
                for race in (False, True):
                    for fail in (False, True):
                        h = Heap(L, **k)
                        par = h.names["root"]
                        path = []
                        if parent != "none":
                            par = h.new_node("n1", "root", 1, 5, INT, ("s", "n1v"))
                            path = [(5, INT, ("s", "n1v"))]
                            if parent == "node with children":
                                h.new_node("n2", "n1", 2, aid, INT if t != INT else UINT, ("s", "n2v"))
                                h.new_node("n3", "n1", 3, 5, word(t, size), v)
                        q = h.value(t, v, size)
                        w = (aid, word(t, size), ("copy", v, size) if t != INT else v)
                        pa = {0: ("p", "tree", 0), 1: ("p", at, 0), 2: q, 3: 0 if parent == "none" else par}
                        r = C.run(f, h, pa, path + [w], 1, fail, race)
                        n += 1
                        prob += [(x, "%s, %s%s%s" % (fn_, "under a " + parent if parent != "none" else "under the root",
                                                     ", when other threads take the last blocks" if race == "steal" else ", with a competing insertion" if race else "",
                                                     ", when storage runs out" if fail else "")) for x in r]
        report(ck, R, "get_child, %s" % vn, f, prob)
        prob = []
        for cnt in (1, 2):
            for fn_, k in FILL:
                for race in (False, True) + (("steal",) if t == INT else ()):
                    for fail in (False, True):
                        h = Heap(L, **k)
                        par = h.new_node("n1", "root", 1, 5, INT, ("s", "n1v"))
                        q, want = None, [(5, INT, ("s", "n1v"))]
                        for j in range(cnt):
                            vv = ("s", "v%d" % j) if t == INT else ("p", "user", 100 * j)
                            x = h.value(t, vv, size + (j if t != INT else 0))
                            q = q or x
                            sz = size + (j if t != INT else 0)
                            want.append((aid, word(t, sz), ("copy", vv, sz) if t != INT else vv))
                        pa = {0: ("p", "tree", 0), 1: ("p", at, 0), 2: cnt, 3: q, 4: par}
                        r = C.run(g, h, pa, want, cnt, fail, race)
                        n += 1
                        prob += [(x, "%d values, %s%s%s" % (cnt, fn_, ", when other threads take the last blocks" if race == "steal" else ", with a competing insertion" if race else "",
                                                            ", when storage runs out" if fail else "")) for x in r]
        report(ck, R, "get_path, %s" % vn, g, prob)
    # more values than a node block holds
    prob = []
    for cnt in (3, 4, 5):
        for k in (dict(fill=0), dict(fill=2), dict(fill=4)):
            h = Heap(L, N=4, **k)
            q, want = None, []
            for j in range(cnt):
                x = h.value(INT, ("s", "v%d" % j))
                q = q or x
                want.append((22, INT, ("s", "v%d" % j)))
            r = C.run(g, h, {0: ("p", "tree", 0), 1: ("p", "A2", 0), 2: cnt, 3: q, 4: 0}, None if cnt >= 4 else want, cnt)
            n += 1
            prob += [(x, "%d values with node blocks of 4" % cnt) for x in r]
    report(ck, R, "get_path, more values than a node block holds", g, prob)
    ck.count("operations on tree shapes", n)


def report(ck, rule, inst, f, prob):
    if prob:
        msgs = []
        for x, w in prob:
            if x not in [m[0] for m in msgs]:
                msgs.append((x, w))
        ck.bad(rule, inst, "%s:%d" % (f.rel(), f.line), "; ".join("%s (%s)" % m for m in msgs[:4]))
    else:
        ck.ok(rule, inst)


def tree4(L, **k):
    """root -> a:1 -> b:2 -> a:3 -> c:4, with a sibling under every node"""
    h = Heap(L, **k)
    par, path = "root", []
    for n, (a, v) in enumerate((("A2", 1), ("AU", 2), ("A2", 3), ("A1", 4))):
        aid, t = T.attrs[a]
        h.new_node("s%d" % n, par, 40 + n, 77, INT, ("s", "sib%d" % n))
        w, x = (word(STR, 3), ("p", "stored", 0)) if t == STR else (t, ("s", "p%d" % v))
        h.new_node("n%d" % n, par, 10 + n, aid, w, x)
        path.append((aid, w, x))
        par = "n%d" % n
    return h, path


def lookups(ck, p, L, fns):
    """existing values are found"""
    R = "the same value resolves to the node that exists"
    C = Case(p, L, fns)
    f, g, q2 = one(fns, r"::get_child\("), one(fns, r"::get_path\(cali::Attribute"), one(fns, r"::get_path\(unsigned long")
    cnt = 0
    for n, a in enumerate(("A2", "AU", "A2", "A1")):
        prob = []
        for k in (dict(fill=13), dict(fill=16, nextb=4)):
            for shadow in (False, True):
                h, path = tree4(L, **k)
                par = h.names["n%d" % (n - 1)] if n else h.names["root"]
                if shadow:
                    h.new_node("x%d" % n, "n%d" % (n - 1) if n else "root", 60, path[n][0], path[n][1], ("s", "another"))
                o = h.value(path[n][1] & 255, path[n][2], path[n][1] >> 32)
                for fn_, pa in ((f, {0: ("p", "tree", 0), 1: ("p", a, 0), 2: o, 3: par}),
                                (g, {0: ("p", "tree", 0), 1: ("p", a, 0), 2: 1, 3: o, 4: par})):
                    r = C.run(fn_, h, pa, path[:n + 1], 0)
                    cnt += 1
                    prob += [(x, "%s%s" % (fn_.qname.split("::")[-1], ", later sibling present" if shadow else "")) for x in r]
        report(ck, R, "value at depth %d" % (n + 1), f, prob)
    # paths that are there in part
    prob = []
    for have in (0, 1, 2):
        for miss in (0, 1, 2):
            if not have + miss:
                continue
            for k in (dict(fill=10), dict(noblock=True, nextb=2)):
                h = Heap(L, **k)
                par, q, want = "root", None, []
                for j in range(have + miss):
                    if j < have:
                        h.new_node("h%d" % j, par, 20 + j, 22, INT, ("s", "v%d" % j))
                        par = "h%d" % j
                    x = h.value(INT, ("s", "v%d" % j))
                    q = q or x
                    want.append((22, INT, ("s", "v%d" % j)))
                r = C.run(g, h, {0: ("p", "tree", 0), 1: ("p", "A2", 0), 2: have + miss, 3: q, 4: 0}, want, miss)
                cnt += 1
                prob += [(x, "%d of %d values are there" % (have, have + miss)) for x in r]
    report(ck, R, "path that is there in part", g, prob)
    prob = []
    h, path = tree4(L, fill=13)
    for sel, want, new in (((0, 1), path[:2], 0), ((0, None, 1), path[:2], 0), ((1, 0), [path[1], path[0]], 2), ((3,), [path[3]], 1), ((), [], 0),
                           ((0, 1, 2, 3), path, 0), ((0, 2), [path[0], path[2]], 1), ((0, 0), [path[0], path[0]], 1),
                           ((0, 1, 1), [path[0], path[1], path[1]], 1)):
        for race in (False, True):
            h, path = tree4(L, fill=12)
            for j, k in enumerate(sel):
                h.mem[("list", 8 * j)] = (8, 0 if k is None else h.names["n%d" % k])
            if not sel:
                continue
            r = C.run(q2, h, {0: ("p", "tree", 0), 1: len(sel), 2: ("p", "list", 0), 3: 0}, want, new, race=race)
            cnt += 1
            prob += [(x, "of nodes %s" % (sel,)) for x in r]
    report(ck, R, "path of given nodes", q2, prob)
    # paths
    R2 = "path operations give the path with the values removed or replaced"
    rm, r1, ra, cp = one(fns, r"::remove_first_in_path\("), one(fns, r"::replace_first_in_path\("), one(fns, r"::replace_all_in_path\("), \
        one(fns, r"::copy_path_without_attribute\(")
    for nm, fn_, a, drop, keep, new in (("remove the innermost value", rm, "A2", [2], None, 1), ("remove the last value", rm, "A1", [3], None, 0),
                                        ("remove a value in the middle", rm, "AU", [1], None, 2), ("remove a value that is not there", rm, "A3", [], None, 0)):
        prob = []
        for race in (False, True):
            h, path = tree4(L, fill=12)
            w = [x for k, x in enumerate(path) if k not in drop]
            r = C.run(fn_, h, {0: ("p", "tree", 0), 1: h.names["n3"], 2: ("p", a, 0)}, w, new, race=race)
            cnt += 1
            prob += [(x, nm) for x in r]
        report(ck, R2, nm, fn_, prob)
    h, path = tree4(L, fill=12)
    v = h.value(INT, ("s", "nv"))
    for nm, start, a, t, drop, new in (("replace the innermost value", "n3", "A2", INT, [2], 2), ("replace the last value", "n2", "A2", INT, [2], 1),
                                       ("replace a value that is not there", "n3", "AN", INT, [], 1)):
        prob = []
        for race in (False, True):
            h, path = tree4(L, fill=10)
            v = h.value(t, ("s", "nv"))
            T.attrs["AN"] = (26, INT)
            d = int(start[1]) + 1
            w = [x for k, x in enumerate(path[:d]) if k not in drop] + [(T.attrs[a][0], t, ("s", "nv"))]
            r = C.run(r1, h, {0: ("p", "tree", 0), 1: h.names[start], 2: ("p", a, 0), 3: v}, w, new, race=race)
            cnt += 1
            prob += [(x, nm) for x in r]
        report(ck, R2, nm, r1, prob)
    prob = []
    for race in (False, True):
        h, path = tree4(L, fill=8)
        v = h.value(INT, ("s", "w0"))
        h.value(INT, ("s", "w1"))
        r = C.run(ra, h, {0: ("p", "tree", 0), 1: h.names["n3"], 2: ("p", "A2", 0), 3: 2, 4: v},
                  [path[1], path[3], (22, INT, ("s", "w0")), (22, INT, ("s", "w1"))], 4, race=race)
        cnt += 1
        prob += [(x, "replace all values") for x in r]
    report(ck, R2, "replace all values", ra, prob)
    ck.count("operations on tree shapes", cnt)
    # exhausted storage: no half path
    R3 = "exhausted node storage gives no node instead of a wrong path"
    for nm, fn_, pa, need in (("remove", rm, lambda h, v: {0: ("p", "tree", 0), 1: h.names["n3"], 2: ("p", "AU", 0)}, 2),
                              ("replace", r1, lambda h, v: {0: ("p", "tree", 0), 1: h.names["n3"], 2: ("p", "A2", 0), 3: v}, 2),
                              ("replace all", ra, lambda h, v: {0: ("p", "tree", 0), 1: h.names["n3"], 2: ("p", "A2", 0), 3: 1, 4: v}, 3),
                              ("path of nodes", q2, lambda h, v: {0: ("p", "tree", 0), 1: 2, 2: ("p", "list", 0), 3: 0}, 2)):
        prob = []
        for fill in (12, 13, 14, 15, 16):
            h, path = tree4(L, fill=fill, nextb=4)
            v = h.value(INT, ("s", "nv"))
            h.mem[("list", 0)] = (8, h.names["n1"])
            h.mem[("list", 8)] = (8, h.names["n3"])
            want = {"remove": [path[0], path[2], path[3]], "replace": [path[0], path[1], path[3], (22, INT, ("s", "nv"))],
                    "replace all": [path[1], path[3], (22, INT, ("s", "nv"))], "path of nodes": [path[1], path[3]]}[nm]
            t = T(p, fn_, h, pa(h, v), fns=fns)
            t.run()
            for ins, rv, st, mem, facts in t.exits:
                if ins.op != "ret":
                    continue
                prob += [(x, "block filled to %d of 16" % fill) for x in st[1]]
                if rv != 0 and chain(L, mem, rv, h.names["root"]) != want:
                    prob.append(("returns a path that lacks some of the values", "block filled to %d of 16" % fill))
                if rv == 0 and fill == 12:
                    prob.append(("returns no node though there is space", "block filled to %d of 16" % fill))
        report(ck, R3, nm, fn_, prob)


class Boot(T):
    """the constructor of the tree's shared data"""
    def __init__(self, p, f, heap, nb, npb):
        self.nb, self.npb = nb, npb
        mem = {}
        for n, g in f.mod.globals.items():
            if g.get("const") and g.get("init") and isinstance(g["init"], list) and all(isinstance(r, list) and len(r) == 2 for r in g["init"]):
                for k, r in enumerate(g["init"]):
                    mem[("@" + n, 16 * k)] = (8, r[0])
                    mem[("@" + n, 16 * k + 8)] = (4, r[1])
        T.__init__(self, p, f, heap, {0: ("p", "G", 0), 1: ("p", "thepool", 0)})
        self.mem0 = mem

    def nodeof(self, r, off):
        if r == "G":
            return None
        return T.nodeof(self, r, off)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        if re.match(r"cali::ConfigSet::get\(", d):
            key = next((x[1][2:] for x in av if isinstance(x, tuple) and str(x[1]).startswith("s:")), "?")
            o = next((x for x in av if isinstance(x, tuple) and x[1].startswith("alloca")), None)
            return E(mem={(o[1], o[2] or 0): (8, ("s", "cfg " + key))} if o else {})
        if re.match(r"cali::StringConverter::to_\w+\(", d):
            c = s.mem.get((av[0][1], av[0][2]), (0, None))[1] if isinstance(av[0], tuple) and av[0][0] == "p" else None
            if c == ("s", "cfg num_blocks"):
                return E(ret=self.nb)
            if c == ("s", "cfg nodes_per_block"):
                return E(ret=self.npb)
            return E(ret="T")
        if re.match(r"operator new(\[\])?\(", d):
            return E(ret=("p", "blocks", 0), st=s.st[:6] + (av[0],))
        if re.match(r"cali::MemoryPool::allocate\(", d):
            n = av[1]
            if isinstance(n, int):
                self.hp.N = n // self.L.size
            self.hp.noblock = True
            return E(ret=("p", "chunk", 0), st=s.st[:3] + (s.st[3] + (("chunk", n),),) + s.st[4:])
        if (i.callee or "") == "strlen":
            return E(ret=19)
        if (i.callee or "").startswith(("cali_make_variant_from", "_cali_make_variant_from")):
            return E(ret=("agg", (7, av[0])))
        r = T.call(self, i, av, s)
        return r if r is not None else E()

    def intrinsic(self, c, av, i):
        if "with.overflow" in c and all(isinstance(v, int) for v in av[:2]):
            r = av[0] * av[1] if "mul" in c else av[0] + av[1]
            return ("agg", (r, int(r >= 1 << 64)))
        return T.intrinsic(self, c, av, i)


def bootstrap(ck, p, L):
    R = "the first node block holds the bootstrap nodes"
    m = P.inlined(p, REL, ["^cali::internal::MetadataTree::"], NOINL)
    f = [x for x in m.functions if x.blocks and re.search(r"GlobalData::GlobalData\(", x.dem)]
    if not f:
        ck.count("bootstrap constructor not found")
        return
    f = f[0]
    und = 0
    for nb, npb in ((0, 0), (1, 4), (2, 11), (4, 12), (4, 13), (3, 17), (4, 255), (4, 256), (5, 100000)):
        h = Heap(L)
        b = Boot(p, f, h, nb, npb)
        b.run()
        prob = []
        for ins, rv, st, mem, facts in b.exits:
            if ins.op != "ret":
                continue
            x = mem.get(("G", L.g["nodes_per_block"]), (0, None))[1]
            if not isinstance(x, int) or not st[0]:
                und += 1
                continue
            pr = list(st[1])
            if "node_blocks" and not (isinstance(st[6], int) and st[6] >= 16):
                pr.append("there is no node block")
            size = dict(st[3]).get("chunk")
            if isinstance(size, int) and size < x * L.size:
                pr.append("the first block has %d bytes for %d nodes" % (size, x))
            top = -1
            for n in [k for k in mem if k[0] == "chunk"]:
                slot = n[1] // L.size
                top = max(top, slot)
            if top >= x:
                pr.append("bootstrap node %d is outside of its block of %d nodes" % (top, x))
            for bb, par, at, ty, v, i in st[0]:
                if bb[0] == "chunk" and i != bb[1] // L.size:
                    pr.append("bootstrap node at place %d gets id %s" % (bb[1] // L.size, i))
            ix = mem.get(("blocks", L.blk["index"]), (0, None))[1]
            if not isinstance(ix, int) or ix <= top or ix > x:
                pr.append("the fill level %s of the first block does not cover node %d or exceeds its size %s" % (ix, top, x))
            if mem.get(("blocks", L.blk["chunk"]), (0, None))[1] != ("p", "chunk", 0):
                pr.append("the first block does not refer to its storage")
            if mem.get(("G", L.g["node_blocks"]), (0, None))[1] != ("p", "blocks", 0):
                pr.append("the node blocks are not kept")
            prob += [(y, "num_blocks=%d nodes_per_block=%d" % (nb, npb)) for y in pr]
        report(ck, R, "num_blocks=%d nodes_per_block=%d" % (nb, npb), f, prob)
    ck.count("bootstrap paths not decided", und)


# ---- results of node operations in the runtime
MAKERS = re.compile(r"cali::(Caliper::make_tree_entry|internal::MetadataTree::(get_(child|path|or_copy_node)|replace_\w+|remove_\w+|copy_path\w*|create_\w+))\(")
NONODE = [r"^cali::Caliper::", r"^cali::internal::MetadataTree::", r"^std::", r"^cali::Blackboard::", r"^cali::Log::", r"siglock::", r"^[a-z ]*__gnu_cxx::",
          r"^(void |bool )?cali::util::callback<", r"^cali::StringConverter", r"^cali::RuntimeConfig", r"^cali::Variant::to_", r"^cali::SnapshotBuilder::",
          r"^cali::Attribute::", r"^[a-z:_ ]*& std::", r"^bool std::"]


class Null(AbsInt):
    """dereferences of the null node that a node operation returns when the storage is exhausted"""
    MAX = 40000
    WIDEN = 6

    def __init__(self, p, f, **kw):
        self.p, self.hits, self.lost, self.n = p, set(), set(), 0
        AbsInt.__init__(self, f, **kw)

    def computed(self, i):
        return i.a[-1].startswith("%")

    def eval_(self, i, s):
        if i.op == "getelementptr":
            b = self.val(i.a[0], s)
            if b == 0 or isinstance(b, tuple) and b[0] == "p" and b[1] == "null":
                return ("p", "null", 0)
        if i.op in ("load", "store", "cmpxchg") or i.op.startswith("atomicrmw"):
            q = self.val(i.a[1] if i.op == "store" else i.a[0], s)
            if q == 0 or isinstance(q, tuple) and q[0] == "p" and q[1] == "null":
                if s.st:
                    self.hits.add((s.st, i.line if hasattr(i, "line") else 0))
                return "T" if i.op != "store" else None
        return AbsInt.eval_(self, i, s)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        if MAKERS.match(d):
            self.n += 1
            n = re.match(r"[\w:]+", d).group(0).split("::")[-1]
            if s.st and av and av[-1] == 0 and self.computed(i):
                self.lost.add((s.st, n))
            return [E(ret=("p", "anode%d" % i.id, 0)), E(ret=0, st=n)]
        # a null node handed to something that follows it
        if re.match(r"cali::(Node|util::LockfreeIntrusiveTree<cali::Node>)::", d) and av and av[0] in (0, ("p", "null", 0)) and s.st:
            self.hits.add((s.st, d.split("(")[0].split("::")[-1]))
        return E(ret=None)


def exhausted(ck, p):
    R = "no node is followed that could not be created"
    n = und = 0
    done = set()
    for f in p.functions():
        if not f.blocks or not f.mod.lib or f.name in done:
            continue
        if not any(i.is_call and i.callee and MAKERS.match(dem(f, i)) for i in f.ins):
            continue
        if f.dem.startswith(TREE):
            continue
        done.add(f.name)
        try:
            g = inl(p, f, NONODE)
            x = Null(p, g, st0="")
            x.run()
        except Limit:
            und += 1
            continue
        n += x.n > 0
        inst = re.sub(r"\(anonymous namespace\)::", "", f.qname)
        if f.rel().startswith("src/caliper/"):
            ck.decide(not x.lost, "no path is continued at the root", inst, "%s:%d" % (f.rel(), f.line),
                      "a value is attached to the root after %s could not create its parent" % ", ".join(sorted({h[0] for h in x.lost})))
        ck.decide(not x.hits, R, inst, "%s:%d" % (f.rel(), f.line),
                  "the node that %s returns is followed without a test whether there is one" % ", ".join(sorted({str(h[0]) for h in x.hits})))
    ck.count("functions that create nodes", n)
    ck.count("functions that create nodes, not decided", und)
    ck.floor("functions that create nodes", n, 8)


def body(ck):
    p = P.program()
    L = Lay(p)
    ck.rule("no node is followed that could not be created", "a function that creates nodes does not follow the result when the storage is exhausted")
    ck.rule("no path is continued at the root", "in the runtime core, the children of a node that could not be created are not attached to the root")
    ck.rule("the first node block holds the bootstrap nodes", "whatever block count and size is configured, the bootstrap nodes lie within the first node "
            "block, under the ids of their places, and the fill level covers them")
    ck.rule("nodes are complete when linked", "every new node is complete, in a free slot of its tree's node block and has an own copy of string data "
            "when it is linked with release ordering, under the right parent, without losing siblings; linked nodes are not written")
    ck.rule("the same value resolves to the node that exists", "an operation whose value is there already returns that node and creates none")
    ck.rule("path operations give the path with the values removed or replaced", "removing and replacing values in a path gives exactly the path with "
            "the other values in their order; existing nodes are reused")
    ck.rule("exhausted node storage gives no node instead of a wrong path", "when no node can be created, the operation returns no node, never a shortened path")
    fns = funcs(p)
    children(ck, p, L, fns)
    lookups(ck, p, L, fns)
    bootstrap(ck, p, L)
    exhausted(ck, p)
