"""C33: blackboards and snapshot records behave like a map and a list."""
import itertools
import os
import re
import prog as P
from absint import AbsInt, E, Limit
from check import Broken
from util import dem, field
from c19 import fns, where, inl

TITLE = "Blackboard operations behave like a map"
TECHNIQUE = ("abstract interpretation: one step of every blackboard operation from every enumerated table shape (collision clusters, word and table "
             "boundaries, symbolic values) must restore the representation invariant and give the result a map gives")
NOTE = ("induction over operations: collision clusters of up to three entries at five places of the table, including both ends and a word boundary; "
        "entries refused because the table or the record is full are outside the property")

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
INV = 0xffffffffffffffff


# ---- the table
class Lay:
    def __init__(self, p):
        b, e = "cali::Blackboard", "cali::Blackboard::blackboard_entry_t"
        self.ht, self.toc, self.toctoc = field(p, b, "hashtable"), field(p, b, "toc"), field(p, b, "toctoc")
        self.num, self.uc = field(p, b, "num_entries"), field(p, b, "ucount")
        self.max, self.skip = field(p, b, "max_num_entries"), field(p, b, "num_skipped")
        self.key, self.val = field(p, e, "key"), field(p, e, "value")
        self.stride = 32
        self.n = (self.toc - self.ht) // self.stride
        self.words = (self.toctoc - self.toc) // 4


class Shape:
    """slot -> (key, value tag, visible)"""

    def __init__(self, lay, slots):
        self.lay, self.slots = lay, slots

    def cells(self, o):
        L, mem = self.lay, {}
        toc = {}
        for i, (k, v, vis) in self.slots.items():
            b = L.ht + i * L.stride
            mem[(o, b + L.key)] = (8, k)
            for w in range(3):
                mem[(o, b + L.val + 8 * w)] = (8, ("s", "%s.%d" % (v, w)))
            if vis:
                toc[i // 32] = toc.get(i // 32, 0) | 1 << i % 32
        tt = 0
        for w, x in toc.items():
            mem[(o, L.toc + 4 * w)] = (4, x)
            tt |= 1 << w
        mem[(o, L.toctoc)] = (4, tt)
        mem[(o, L.num)] = (8, len(self.slots))
        mem[(o, L.max)] = (8, len(self.slots))
        mem[(o, L.skip)] = (8, 0)
        mem[(o, L.uc)] = (4, 7)
        return mem

    def __str__(self):
        return ", ".join("slot %d: key %d %s" % (i, k, "visible" if vis else "hidden") for i, (k, v, vis) in sorted(self.slots.items())) or "empty"


def place(lay, entries):
    """linear probing in the order given"""
    t = {}
    for k, v, vis in entries:
        i = k % lay.n
        while i in t:
            i = (i + 1) % lay.n
        t[i] = (k, v, vis)
    return t


class Op(AbsInt):
    WIDEN = 200
    MAX = 20000

    def __init__(self, lay, f, shape, me, params, mem):
        m = dict(shape.cells(me))
        m.update(mem)
        self.lay, self.me, self.oob = lay, me, False
        AbsInt.__init__(self, f, st0=(), params=params, mem=m)

    def distinct(self, o):
        return o in (self.me, "val", "ret", "rec")

    def load(self, i, ptr, s):
        L = self.lay
        if not (isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1] == self.me and ptr[2] is not None):
            return None
        o = ptr[2]
        if L.ht <= o < L.ht + L.n * L.stride:
            return INV if (o - L.ht) % L.stride == L.key else 0
        if L.toc <= o < L.toc + 4 * L.words:
            return 0
        self.oob = True
        return None

    def call(self, i, av, s):
        d = dem(self.fn, i)
        if re.match(r"(unsigned long const& )?std::max<", d):
            a = [s.mem.get((v[1], v[2]), (8, "T"))[1] if isinstance(v, tuple) else "T" for v in av[:2]]
            if all(isinstance(x, int) for x in a):
                return E(av[0] if a[0] >= a[1] else av[1])
            return E(av[0])
        m = re.match(r"std::__atomic_base<int>::(operator\+\+|fetch_add|load|store|operator int|operator\+=)", d) or re.match(r"std::atomic<int>::(load|store|fetch_add)", d)
        if m and isinstance(av[0], tuple):
            a = av[0]
            c = s.mem.get((a[1], a[2]), (4, "T"))[1]
            q = m.group(1)
            if q in ("load", "operator int"):
                return E(c)
            n = av[1] if q == "store" else c + (av[1] if q in ("fetch_add", "operator+=") and isinstance(av[1], int) else 1) if isinstance(c, int) else "T"
            return E(c, mem={(a[1], a[2]): (4, n)})
        if re.match(r"ffs(l|ll)?$", i.callee or ""):
            x = av[0]
            return E((x & -x).bit_length() if isinstance(x, int) else "T")
        if "SnapshotBuilder::append(" in d:
            a = av[-1]
            w = None
            if isinstance(a, tuple) and a[0] == "p" and a[2] is not None:
                c = s.mem.get((a[1], a[2]))
                w = c[1] if c else ("empty", a)
            return E(st=s.st + (w,))
        if re.search(r"cali::(Entry|Variant)::(Entry|Variant)\(\)", d) and isinstance(av[0], tuple):
            return E(mem={(av[0][1], av[0][2] + 8 * w): (8, 0) for w in range(3)})
        return E()

    def intrinsic(self, c, av, i):
        if c.startswith("llvm.cttz") and isinstance(av[0], int):
            w = 32 if "i32" in c else 64
            return (av[0] & -av[0]).bit_length() - 1 if av[0] else w
        if c.startswith(("llvm.ctlz")) and isinstance(av[0], int):
            w = 32 if "i32" in c else 64
            return w - av[0].bit_length()
        return AbsInt.intrinsic(self, c, av, i)


def read(lay, me, mem, before):
    """(slots, problems) of the table after the step; None when not resolved"""
    L = lay
    g = lambda o, size, dflt: mem.get((me, o), (size, dflt))[1]
    slots, bad = {}, []
    for i in range(L.n):
        b = L.ht + i * L.stride
        k = g(b + L.key, 8, INV)
        if k == INV or k == -1:
            continue
        if not isinstance(k, int):
            return None
        ws = tuple(g(b + L.val + 8 * w, 8, 0) for w in range(3))
        if "T" in ws:
            return None
        slots[i] = (k, ws)
    toc = {}
    for w in range(L.words):
        x = g(L.toc + 4 * w, 4, 0)
        if not isinstance(x, int):
            return None
        if x & 0xffffffff:
            toc[w] = x & 0xffffffff
    tt = g(L.toctoc, 4, 0)
    if not isinstance(tt, int):
        return None
    tt &= 0xffffffff
    shown = {w * 32 + b for w, x in toc.items() for b in range(32) if x >> b & 1}
    for w in range(L.words):
        if (w in toc) != bool(tt >> w & 1):
            bad.append("word %d of the table of contents is %s but marked %s" % (w, "used" if w in toc else "empty", "used" if tt >> w & 1 else "empty"))
    for i in shown - set(slots):
        bad.append("slot %d is listed in the table of contents but empty" % i)
    for i, (k, ws) in slots.items():
        j = k % L.n
        while j != i and j in slots and slots[j][0] != k:
            j = (j + 1) % L.n
        if j != i:
            bad.append("key %d in slot %d cannot be found (search ends at slot %d)" % (k, i, j))
    n = g(L.num, 8, "T")
    if isinstance(n, int) and n != len(slots):
        bad.append("entry count is %d with %d entries" % (n, len(slots)))
    content = {k: (ws, i in shown) for i, (k, ws) in slots.items()}
    if len(content) != len(slots):
        bad.append("a key is stored twice")
    return content, bad, g(L.uc, 4, "T")


def words(v):
    return tuple(("s", "%s.%d" % (v, w)) for w in range(3))


def table(ck, p):
    try:
        lay = Lay(p)
    except Broken:
        ck.count("not decided", 1)
        return
    if lay.n < 64 or lay.words * 32 < lay.n:
        ck.count("not decided", 1)
        return
    rel = "src/caliper/Blackboard.cpp"
    ops = {}
    for q in ("set", "del", "exchange", "snapshot"):
        f = ck.need(fns(p, r"^cali::Blackboard::%s\(" % q), "Blackboard::" + q)[0]
        ops[q] = (f, inl(p, f, [r"SnapshotBuilder::append", r"^std::", r"basic_ostream"], root=r"^cali::Blackboard::%s[(]" % q))
    g = [f for f in fns(p, r"^cali::Blackboard::get\(")]
    f = ck.need(g, "Blackboard::get")[0]
    ops["get"] = (f, inl(p, f, [r"^std::"], root=r"^cali::Blackboard::get[(]"))
    n = lay.n
    homes = [5, 31, n - 2, n - 1, n - n % 32 - 1]
    shapes = {}
    for s in homes:
        keys = [s, s + n, s + 1, s + 2 * n]
        for c in range(0, 5 if THOROUGH else 4):
            for ks in itertools.permutations(keys, c):
                for vis in itertools.product((1, 0), repeat=c):
                    if c == 3 and sum(vis) == 0:
                        continue
                    t = place(lay, [(k, "v%d" % keys.index(k), v) for k, v in zip(ks, vis)])
                    shapes[(s, tuple(sorted(t.items())))] = (Shape(lay, t), keys)
    undecided = [0]

    def step(q, shape, key, vis=None):
        f, g = ops[q]
        me = "a1" if g.params[0][1] == "ptr" and q in ("get", "exchange") and len(g.params) > (2 if q == "get" else 4) else "a0"
        b = int(me[1])
        params, mem = {}, {}
        if q != "snapshot":
            params[b + 1] = key
        if q in ("set", "exchange"):
            params[b + 2] = ("p", "val", 0)
            params[b + 3] = vis
            for w in range(3):
                mem[("val", 8 * w)] = (8, ("s", "new.%d" % w))
        if me == "a1":
            params[0] = ("p", "ret", 0)
        if q == "snapshot":
            params[1] = ("p", "rec", 0)
        r = Op(lay, g, shape, me, params, mem)
        try:
            r.run()
        except Limit:
            return None
        ends = [(rv, st, m) for ins, rv, st, m, fa in r.exits if ins.op == "ret"]
        if len(ends) != 1:
            return None
        return ends[0] + (me,)

    tried = decided = 0
    fails = {}
    for (s, _), (shape, keys) in sorted(shapes.items(), key=lambda x: x[0]):
        have = {k: (words(v), bool(vis)) for k, v, vis in shape.slots.values()}
        cases = [("del", k, None) for k in keys] + [(q, k, v) for q in ("set", "exchange") for k in keys for v in (1, 0)] + [("get", k, None) for k in keys] + [("snapshot", None, None)]
        for q, k, vis in cases:
            tried += 1
            r = step(q, shape, k, vis)
            if r is None:
                continue
            rv, st, mem, me = r
            after = read(lay, me, mem, shape)
            if after is None:
                continue
            decided += 1
            content, bad, uc = after
            want = dict(have)
            msg = list(bad)
            if q == "del":
                want.pop(k, None)
                changed = k in have
            elif q in ("set", "exchange"):
                want[k] = (words("new"), bool(vis) or k in have and have[k][1])
                changed = True
            else:
                changed = False
            if content != want and not msg:
                for x in sorted(set(want) | set(content)):
                    if x not in content:
                        msg.append("key %d is lost" % x)
                    elif x not in want:
                        msg.append("key %d appears" % x)
                    elif content[x][0] != want[x][0]:
                        msg.append("key %d holds the wrong value" % x)
                    elif content[x][1] != want[x][1]:
                        msg.append("key %d is %s in snapshots" % (x, "shown" if content[x][1] else "not shown"))
            if changed and uc == 7:
                msg.append("the update count stays the same")
            if q in ("get", "exchange") and me == "a1":
                got = tuple(mem.get(("ret", 8 * w), (8, "T"))[1] for w in range(3))
                exp = have[k][0] if k in have else (0, 0, 0)
                if k in have and got != exp and "T" not in got:
                    msg.append("returns %s for key %d" % ("the new value" if got == words("new") else "nothing" if got[0] == 0 else "another value", k))
                if k not in have and isinstance(got[0], tuple):
                    msg.append("returns a value for a missing key")
            if q == "snapshot":
                exp = sorted(str(v[0][0]) for v in have.values() if v[1])
                if sorted(map(str, st)) != exp:
                    msg.append("copies %s instead of %s" % (list(map(str, st)), exp))
            name = "%s%s" % (q, "" if k is None else " of %s key" % ("a stored" if k in have else "a new") + ("" if vis is None else ", visible" if vis else ", hidden"))
            fails.setdefault((name, s), []).append(("%s %s" % (q, k if k is not None else ""), str(shape), msg) if msg else None)
    for (name, s), l in sorted(fails.items()):
        b = [x for x in l if x]
        f = ops[name.split()[0]][0]
        ck.decide(not b, "table steps", "%s, cluster at slot %d" % (name, s), where(f),
                  "%d of %d table shapes break: e.g. %s on {%s}: %s" % (len(b), len(l), b[0][0], b[0][1], "; ".join(b[0][2])[:200]) if b else "")
    ck.count("table shapes", len(shapes))
    ck.count("operation steps interpreted", decided)
    ck.count("not decided", tried - decided)



class Bld(AbsInt):
    """a builder of capacity cap that holds n entries; equal = index of the entry equal to the argument"""
    MAX = 4000

    def __init__(self, p, f, cap, n, equal, pm, mem):
        self.o = {x: field(p, "cali::SnapshotBuilder", "m_" + x) for x in ("data", "capacity", "len", "skipped")}
        self.equal, self.n, self.cap = equal, n, cap
        m = {("a0", self.o["data"]): (8, ("p", "D", 0)), ("a0", self.o["capacity"]): (8, cap), ("a0", self.o["len"]): (8, n), ("a0", self.o["skipped"]): (8, 0)}
        for k in range(n):
            for w in range(3):
                m[("D", 24 * k + 8 * w)] = (8, ("s", "e%d.%d" % (k, w)) if w else ("p", "e%d.0" % k, 0))
        m.update(mem)
        AbsInt.__init__(self, f, st0=(), params=pm, mem=m)

    def distinct(self, o):
        return o in ("a0", "D", "S") or re.match(r"[en]\d+\.0$", o)

    def call(self, i, av, s):
        d = dem(self.fn, i)
        g = lambda v: s.mem.get((v[1], v[2]), (8, "T"))[1] if isinstance(v, tuple) and v[0] == "p" else "T"
        m = re.match(r"(?:unsigned long const& )?std::(min|max)<", d)
        if m:
            a, b = g(av[0]), g(av[1])
            if isinstance(a, int) and isinstance(b, int):
                return E(av[0] if (a <= b) == (m.group(1) == "min") else av[1])
            return E()
        m = re.search(r"std::copy(_n)?<", d)
        if m and all(isinstance(x, tuple) and x[0] == "p" and x[2] is not None for x in (av[0], av[2])):
            n = av[1] if m.group(1) else (av[1][2] - av[0][2]) // 24 if isinstance(av[1], tuple) and av[1][0] == "p" and av[1][1] == av[0][1] else None
            if isinstance(n, int) and 0 <= n < 100:
                mem = {}
                for o in range(0, 24 * n, 8):
                    mem[(av[2][1], av[2][2] + o)] = s.mem.get((av[0][1], av[0][2] + o), (8, "T"))
                return E(("p", av[2][1], av[2][2] + 24 * n), mem=mem)
            return E(st=s.st + ("?",))
        if re.search(r"cali::operator==\(cali::Entry const&|cali::Entry::operator==", d):
            for v in av[:2]:
                if isinstance(v, tuple) and v[1] == "D" and v[2] is not None:
                    return E(int(v[2] == 24 * self.equal) if self.equal is not None else 0)
            return E()
        return E()


def builder(ck, p):
    def one(pat):
        return ck.need(fns(p, pat), pat)[0]
    jobs = [("append of one entry", one(r"^cali::SnapshotBuilder::append\(cali::Entry const&\)"), "one"), ("append of several entries", one(r"^cali::SnapshotBuilder::append\(unsigned long, cali::Entry const\*\)"), "many"),
            ("removal", one(r"^cali::SnapshotBuilder::remove\("), "remove")]
    for name, f, kind in jobs:
        g = inl(p, f, [r"^std::", r"^[a-z ]*const& std::", r"^[a-zA-Z:]*[*] std::", r"operator=="], root="^%s$" % posix(f.dem))
        bad, n = [], 0
        for cap in (1, 2, 4):
            for ln in range(cap + 1):
                cases = [("one", 1, None)] if kind == "one" else [("many", k, None) for k in range(4)] if kind == "many" else [("remove", 0, e) for e in [None] + list(range(ln))]
                for _, k, eq in cases:
                    mem = {("S", 24 * j + 8 * w): (8, ("s", "n%d.%d" % (j, w)) if w else ("p", "n%d.0" % j, 0)) for j in range(4) for w in range(3)}
                    r = Bld(p, g, cap, ln, eq, {1: k, 2: ("p", "S", 0)} if kind == "many" else {1: ("p", "S", 0)}, mem)
                    try:
                        r.run()
                    except Limit:
                        ck.count("not decided", 1)
                        continue
                    for ins, rv, st, m, fa in r.exits:
                        if ins.op != "ret":
                            continue
                        take = min(k, cap - ln)
                        want = ["e%d" % j for j in range(ln)] + ["n%d" % j for j in range(take)]
                        if kind == "remove":
                            want = ["e%d" % j for j in range(ln) if j != eq]
                        got = m.get(("a0", r.o["len"]), (8, "T"))[1]
                        skip = m.get(("a0", r.o["skipped"]), (8, "T"))[1]
                        if "T" in (got, skip) or "?" in st or not isinstance(got, int):
                            ck.count("not decided", 1)
                            continue
                        n += 1
                        case = "capacity %d, %d entries%s" % (cap, ln, ", %d more" % k if kind == "many" else ", entry %s removed" % eq if kind == "remove" else "")
                        have = []
                        for j in range(min(got, 10)):
                            ws = [m.get(("D", 24 * j + 8 * w), (8, "T"))[1] for w in range(3)]
                            have.append(ws[0][1][:-2] if all(isinstance(x, tuple) for x in ws) and len({x[1][:-2] for x in ws}) == 1 else "?")
                        if have != want:
                            bad.append("%s: holds %s instead of %s" % (case, have, want))
                        if kind != "remove" and skip != k - take:
                            bad.append("%s: counts %s refused entries" % (case, skip))
                        if any(o >= 24 * cap for (x, o) in m if x == "D"):
                            bad.append("%s: writes beyond its capacity" % case)
        ck.decide(not bad, "record building", name, where(f), "; ".join(bad)[:300])
        ck.count("record building steps", n)


def posix(x):
    return re.sub(r"([()\[\]*.+?^${}|])", lambda m: "[%s]" % m.group(1) if m.group(1) not in "^[]" else "." , x)


def body(ck):
    p = P.program()
    ck.rule("table steps", "from every table shape that satisfies the representation invariant, every blackboard operation leaves a table that satisfies it again and has exactly the expected content and visibility; changes raise the update count")
    ck.rule("record building", "adding entries to a snapshot record and removing one keeps all others, in order, never exceeds the capacity and counts what does not fit")
    for step in (builder, table):
        step(ck, p)
