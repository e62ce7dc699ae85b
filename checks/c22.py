"""C22: malformed input cannot take the process down."""
import re
import prog as P
from absint import AbsInt, E, Limit
from check import Broken
from util import dem
from vcalls import Dispatch

TITLE = "Malformed input cannot take the process down"
TECHNIQUE = ("exception escape analysis over the call graph (every conversion that throws on malformed text is covered by a handler on all call chains) and "
             "interprocedural null and index analysis of the reader's metadata database (forking abstract interpretation: every lookup of a node may fail, every id may be unknown)")
NOTE = ("exceptions: the throwing conversions and element accesses of the standard library that depend on text, and the constructors of regular expressions; "
        "null and index analysis: the .cali reader and its metadata database. Memory exhaustion, unbounded recursion and parser logic are not decided")

THROW = re.compile(r"std::(?:__cxx11::)?sto(?:i|l|ul|ll|ull|f|d|ld)[(]|(?:.* )?std::[\w:]*(?:map)<.*>::at[(]"
                   r"|(?:.* )?std::[\w:]*basic_regex<.*>::(?:basic_regex<.*>[(]|assign|operator=)|(?:.* )?std::[\w:]*basic_regex<.*>::basic_regex[(](?!std::__cxx11::basic_regex|[)])")
REGEX = re.compile(r"basic_regex")
COVERS = {"_ZTISt9exception", "_ZTISt11logic_error"}
PAIR = {"_ZTISt16invalid_argument", "_ZTISt12out_of_range"}


def handled(f, i):
    """does the handler of this call catch everything the conversion throws?"""
    if i.op != "invoke":
        return False
    seen, todo, types = set(), [i.x[1]], set()
    d = dem(f, i) if i.callee else ""
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for j in f.blocks[b]:
            if j.op == "landingpad":
                for c in j.a:
                    types.add(c.lstrip("@").split("/")[0] if c.startswith("@") else c)
        # nested cleanup pads end in a branch to the enclosing handler, whose clauses are repeated in the pad
        break
    if "null" in types or types & COVERS or PAIR <= types:
        return True
    if "_ZTISt12out_of_range" in types and ("::at(" in d or ">::at(" in d):
        return True
    return bool(REGEX.search(d)) and bool(types & {"_ZTINSt7__cxx1111regex_errorE", "_ZTISt11regex_error", "_ZTISt13runtime_error", "_ZTISt9exception"})


def exceptions(ck, p):
    R = "throwing conversions are covered"
    memo = {}
    tabled = set()

    def names(x):
        if isinstance(x, list):
            for y in x:
                names(y)
        elif isinstance(x, str) and x.startswith("@"):
            tabled.add(x[1:].split("/")[0])

    for m in p.mods.values():
        for raw in m.globals.values():
            names(raw.get("init"))

    def covered(f, depth=0, stack=()):
        """is every call of f covered by a handler?  The chain of an uncovered one otherwise"""
        if f.key in memo:
            return memo[f.key]
        if f.key in stack or depth > 8:
            return None
        cs = [(g, i, k) for g, i, k in p.callers().get(f.key, []) if "/test" not in g.rel() and not g.rel().startswith(("test", "src/tools", "examples"))]
        priv = f.local and f.name not in tabled
        if priv and (f.taken or not cs):
            r = None        # passed on as a value: its callers are not known
        elif not cs or f.taken and not priv:
            r = [f]
        else:
            r = None
            for g, i, k in cs:
                if handled(g, i):
                    continue
                c = covered(g, depth + 1, stack + (f.key,))
                if c:
                    r = [f] + c
                    break
        memo[f.key] = r
        return r

    n = 0
    for f in p.functions():
        if not f.blocks or not f.mod.lib or f.qname.startswith(("std::", "__gnu_cxx::")) or not f.rel().startswith(("src/", "include/", "mpi/")) or "/test" in f.rel():
            continue
        for i in f.ins:
            if not (i.is_call and i.callee):
                continue
            d = dem(f, i)
            if not THROW.match(d):
                continue
            n += 1
            name = re.sub(r"^.*?::((?:sto\w+|at|basic_regex|assign|operator=))[(<].*$", r"\1", d)[:40]
            inst = "%s in %s" % (name, re.sub(r"[(]anonymous namespace[)]::", "", f.qname))
            c = None if handled(f, i) else covered(f)
            ck.decide(c is None, R, inst, i.where() or "%s:%d" % (f.rel(), f.line),
                      "an exception of this call leaves %s" % " <- ".join(g.qname.split("::")[-1] for g in (c or [])[:6]))
    ck.count("throwing conversions", n)
    ck.floor("throwing conversions", n, 3)


# ---- null nodes and unknown ids
BIG = (1 << 64) - 1
IDS = (0, 11, 12, 4000, BIG)
SIZE = 12


class N(AbsInt):
    """pointers that may be null are null on one branch; the node table has SIZE elements"""
    MAX = 20000
    WIDEN = 60

    def __init__(self, ctx, f, params):
        self.ctx, self.bad, self.sub, self.und = ctx, {}, set(), 0
        AbsInt.__init__(self, f, params=params)

    def isnull(self, v):
        return isinstance(v, int) and 0 <= v < 4096

    def eval_(self, i, s):
        if i.op == "getelementptr":
            b = self.val(i.a[0], s)
            if self.isnull(b):
                return b
        if i.op in ("load", "store"):
            q = self.val(i.a[0 if i.op == "load" else 1], s)
            if isinstance(q, int) and self.isnull(q):
                self.bad.setdefault("null", i)
        return AbsInt.eval_(self, i, s)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        m = re.match(r"(?:.* )?std::vector<cali::Node\*, std::allocator<cali::Node\*> ?>::(\w+|operator\[\])[(]", d)
        if m:
            if m.group(1) == "size":
                return E(ret=SIZE)
            if m.group(1) == "operator[]":
                if isinstance(av[1], int):
                    self.ctx.nidx += 1
                    if av[1] >= SIZE:
                        self.bad.setdefault("index", i)
                        return E(ret="T")
                else:
                    self.und += 1
                return E(ret=self.sym(i, s))
        if d.startswith(("std::", "operator ", "__c", "cali::Log", "llvm.")) or " std::" in d.split("(")[0]:
            return None if d.startswith("llvm.mem") else E(ret=self.sym(i, s) if i.ty == "ptr" else "T", forget=[q[1] for q in av if isinstance(q, tuple) and q[0] == "p"])
        ts = [t for t in self.ctx.targets(i) if t is not None and t.blocks]
        for t in ts:
            ps = tuple(k for k, v in enumerate(av) if isinstance(v, int) and v == 0 and k < len(t.params) and t.params[k][1] == "ptr")
            if ps:
                self.sub.add((t.key, tuple((k, v) for k, v in enumerate(av) if isinstance(v, int) and k < len(t.params)), i.where()))
        fg = [q[1] for q in av if isinstance(q, tuple) and q[0] == "p"]
        if i.ty == "ptr" and ts and any(self.ctx.maynull(t) for t in ts):
            self.ctx.nforks += 1
            return [E(ret=0, forget=fg), E(ret=self.sym(i, s), forget=fg)]
        return E(ret=self.sym(i, s) if i.ty == "ptr" else "T", forget=fg)


class Nulls:
    FILES = ("src/reader/", "src/common/", "include/caliper/common/", "src/caliper/")

    def __init__(self, p):
        self.p, self.disp, self.nidx, self.nforks = p, Dispatch(p), 0, 0
        self.fn = {f.key: f for f in p.functions() if f.blocks}
        self.mn = {}

    def targets(self, i):
        try:
            return self.disp.targets(i)
        except Exception:
            return []

    def maynull(self, f):
        """does the function return a null pointer on some path (for its own reasons, or because a callee does)?"""
        if f.key in self.mn:
            return self.mn[f.key]
        self.mn[f.key] = False
        if f.ret != "ptr" or f.qname.startswith("std::") or not (f.dtypes and str(f.dtypes[0]).endswith("Node*")):
            return False
        seen, todo = set(), [r.a[0] for r in f.ins if r.op == "ret" and r.a]
        r = False
        while todo and not r:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if v == "null":
                r = True
                break
            j = f.get(v)
            if j is None:
                continue
            if j.op in ("phi", "select"):
                todo += list(j.a[1:] if j.op == "select" else j.a)
            elif j.is_call:
                r = any(t is not None and t.blocks and self.maynull(t) for t in self.targets(j))
        self.mn[f.key] = r
        return r


def nulls(ck, p):
    R, R2 = "a node that was not found is not used", "ids are checked against the node table"
    ctx = Nulls(p)
    work, done, und, nf = [], set(), 0, 0
    for f in sorted(p.functions(), key=lambda f: (f.rel(), f.line)):
        if f.blocks and f.rel().startswith(Nulls.FILES) and "/test" not in f.rel() and not f.qname.startswith("std::"):
            work.append((f.key, (), None))
    if not work:
        raise Broken("the reader's sources were not found")
    while work:
        key, np, via = work.pop()
        if (key, np) in done:
            continue
        done.add((key, np))
        f = ctx.fn.get(key)
        if f is None or f.qname.startswith("std::"):
            continue
        idp = [k for k, q in enumerate(f.params) if q[1] == "i64"] if not np else []
        base = dict(np)
        cases = [base]
        for k in idp[:3]:
            cases = [{**c, k: v} for c in cases for v in IDS]
        bad, fork0, idx0 = {}, ctx.nforks, ctx.nidx
        for c in cases:
            x = N(ctx, f, {int(k): v for k, v in c.items()})
            try:
                x.run()
            except Limit:
                und += 1
                continue
            und += x.und
            for k, i in x.bad.items():
                bad.setdefault(k, i)
            for t, ps, w in x.sub:
                work.append((t, ps, w))
        nm = re.sub(r"[(]anonymous namespace[)]::", "", f.dem)[:100] + (" given no node" if np else "")
        if ctx.nforks > fork0 or np or "null" in bad:
            nf += 1
            ck.decide("null" not in bad, R, nm, bad["null"].where() if "null" in bad else "%s:%d" % (f.rel(), f.line),
                      "a null pointer is dereferenced%s" % (" (called from %s)" % via if via else ""))
        if ctx.nidx > idx0 or "index" in bad:
            ck.decide("index" not in bad, R2, nm, bad["index"].where() if "index" in bad else "%s:%d" % (f.rel(), f.line),
                      "the node table is accessed with an id that is not in it")
    ck.count("functions with failing lookups", nf)
    ck.count("lookups that may fail", ctx.nforks)
    ck.count("accesses of the node table", ctx.nidx)
    ck.count("cases, not decided", und)
    ck.floor("functions with failing lookups", nf, 2)


# ---- entries of records that were read
class Rec(AbsInt):
    MAX = 20000
    WIDEN = 80

    def __init__(self, f):
        self.bad, self.npush, self.und = None, 0, 0
        AbsInt.__init__(self, f)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        fg = [q[1] for q in av if isinstance(q, tuple) and q[0] == "p" and not q[1].startswith("alloca")]
        if re.match(r"(?:.* )?std::vector<cali::Entry,.*>::(push_back|emplace_back<.*>)[(]", d) and len(av) > 1 and isinstance(av[1], tuple) and av[1][0] == "p" and av[1][2] is not None:
            c = s.mem.get((av[1][1], av[1][2]))
            self.npush += 1
            if c is not None and c[1] == 0:
                self.bad = i
            elif c is None or c[1] == "T":
                self.und += 1
            return E(ret=None)
        if LOOKUP.search(d.split("(")[0]):
            if i.ty == "ptr":
                if "make_attribute" in d and av and (av[0] == 0 or isinstance(av[0], tuple) and av[0][0] == "p" and av[0][1].startswith("live:")):
                    return E(ret=av[0])
                return [E(ret=0), E(ret=("p", "live:%d" % i.id, 0))]
            if i.ty in ("void", "", None) and av and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][2] is not None:
                return [E(mem={(av[0][1], av[0][2]): (8, v)}) for v in (0, ("p", "live:%d" % i.id, 0))]
        return E(ret=self.sym(i, s) if i.ty == "ptr" else "T", forget=fg)

    def icmp(self, i, a, b, s):
        for u, v in ((a, b), (b, a)):
            if isinstance(u, tuple) and u[0] == "p" and u[1].startswith("live:") and v == 0:
                return int(i.op.endswith(".ne"))
        return AbsInt.icmp(self, i, a, b, s)


LOOKUP = re.compile(r"::(merge_entry|recursive_merge_node|make_attribute)$|::CaliperMetadataDBImpl::(node|attribute)$")


def records(ck, p):
    R = "records that were read have no empty entries"
    n = 0
    for f in p.functions():
        if not f.blocks or f.rel() not in ("src/reader/CaliReader.cpp", "src/reader/CaliperMetadataDB.cpp"):
            continue
        if not any(i.is_call and i.callee and re.match(r"(?:.* )?std::vector<cali::Entry,.*>::(push_back|emplace_back)", dem(f, i)) for i in f.ins):
            continue
        ms = P.inlined(p, f.mod.rel, ["^" + re.escape(f.dem) + "$"], [r"^std::", r"::(merge_entry|recursive_merge_node|make_attribute)[(]", r"::CaliperMetadataDBImpl::(node|attribute)[(]"])
        gs = [x for x in ms.functions if x.name == f.name and x.blocks]
        if not gs:
            continue
        if not any(i.is_call and i.callee and LOOKUP.search(dem(gs[0], i).split("(")[0]) for i in gs[0].ins):
            continue
        x = Rec(gs[0])
        try:
            x.run()
        except Limit:
            if x.bad is None:
                ck.count("functions that fill records, not decided", 1)
                continue
        if x.bad is None and x.und:
            ck.count("functions that fill records, not decided", 1)
            continue
        if x.npush:
            n += 1
            ck.decide(x.bad is None, R, re.sub(r"[(]anonymous namespace[)]::", "", f.qname), x.bad.where() if x.bad is not None else "%s:%d" % (f.rel(), f.line),
                      "an entry for an unknown node or attribute is added to the record; its users dereference its node")
    ck.count("functions that fill records", n)


# ---- arguments of query functions
VS = re.compile(r"(?:.* )?std::vector<std::__cxx11::basic_string<.*>>::(size|empty|operator\[\]|front|back|at)[(]")


class Args(AbsInt):
    """the create function of a query function, given n arguments"""
    MAX = 20000

    def __init__(self, f, k, n):
        self.k, self.n, self.bad, self.nacc = "a%d" % k, n, None, 0
        AbsInt.__init__(self, f)

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        m = VS.match(d)
        if m and av and isinstance(av[0], tuple) and av[0][:2] == ("p", self.k):
            w = m.group(1)
            if w in ("size", "empty"):
                return E(ret=self.n if w == "size" else int(self.n == 0))
            j = av[1] if w in ("operator[]", "at") else 0
            self.nacc += 1
            if isinstance(j, int) and j >= self.n:
                self.bad = i
            return E(ret=self.sym(i, s))
        return E(ret=self.sym(i, s) if i.ty == "ptr" else "T", forget=[q[1] for q in av if isinstance(q, tuple) and q[0] == "p" and q[1] != self.k])


def arity(ck, p):
    import c15
    R = "query functions use the arguments they demand"
    n = 0
    for rel, want in (("src/reader/Aggregator.cpp", "percent_total"), ("src/reader/Preprocessor.cpp", "truncate")):
        try:
            rows, w, g = c15.table(ck, p, rel, want)
        except Broken:
            ck.count("function tables, not decided", 1)
            continue
        rows = [r for r in rows if r[1]]
        m = p.mods[rel]
        fns = {}
        for raw in m.globals.values():
            init = raw.get("init")
            if not isinstance(init, list):
                continue
            for k, e in enumerate(init):
                if isinstance(e, list) and len(e) == 2 and all(isinstance(x, str) for x in e) and e[0].startswith("s:") and e[1].startswith("@_Z"):
                    fns[e[0][2:]] = e[1][1:].split("/")[0]
                elif isinstance(e, str) and e.startswith("@_ZN12_GLOBAL__N_1") and "create" in e:
                    for r in rows:
                        if r[0] == k and rel.endswith("Preprocessor.cpp"):
                            fns[r[1]] = e[1:].split("/")[0]
        for r in rows:
            fs = [f for f in m.functions if f.name == fns.get(r[1]) and f.blocks]
            if not fs or not (isinstance(r[2], int) and isinstance(r[3], int) and 0 <= r[2] <= r[3] <= 64):
                continue
            f = fs[0]
            ks = [k for k, q in enumerate(f.dtypes[1:]) if "vector" in str(q)]
            gs = [x for x in P.inlined(p, rel, ["^" + re.escape(f.dem) + "$"], [r"^std::"]).functions if x.name == f.name and x.blocks]
            if not gs or len(f.params) == 0:
                continue
            k = len(f.params) - 1
            bad, dec = None, True
            for a in range(r[2], r[3] + 1):
                x = Args(gs[0], k, a)
                try:
                    x.run()
                except Limit:
                    dec = False
                if x.bad is not None and bad is None:
                    bad = a
            if bad is None and not dec:
                ck.count("query functions, not decided", 1)
                continue
            n += 1
            ck.decide(bad is None, R, r[1], "%s:%d" % (f.rel(), f.line), "given %s arguments, which the parser accepts, it uses one more than there are" % bad)
    ck.count("query functions", n)


def body(ck):
    p = P.program()
    ck.rule("throwing conversions are covered", "each call of a standard library function that throws on malformed text (stoi and its family, at on maps, construction of a regular expression) "
            "lies within a handler for its exceptions, in its function or in every function that calls it")
    ck.rule("a node that was not found is not used", "with every lookup that can return no node returning none, no null pointer is dereferenced, nor passed to a function that dereferences it")
    ck.rule("ids are checked against the node table", "for ids inside and outside the table, no element beyond its size is accessed")
    ck.rule("query functions use the arguments they demand", "given any number of arguments that the parser accepts for it, a query function is created without access to an argument that is not there")
    ck.rule("records that were read have no empty entries", "an entry whose node or attribute is unknown is not added to a record that is handed on")
    exceptions(ck, p)
    records(ck, p)
    arity(ck, p)
    nulls(ck, p)
