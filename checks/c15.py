"""C15: the query language tables agree with their implementations."""
import os
import re
from collections import Counter
import prog as P
from absint import AbsInt, E, Limit
from check import Broken

TITLE = "The query language tables agree with their implementations"
TECHNIQUE = ("abstract interpretation of the LLVM IR with finite constants: the function tables are read from their "
             "(dynamic) initialisers, and the dispatchers, factories, naming, parsing and filter functions are "
             "interpreted once per table row, argument count, operator and record shape")
NOTE = ("Decides, for every row of the three function tables, that the id is accepted and dispatched, that no argument "
        "beyond the announced minimum is read unguarded, that the announced result name is the stored one and the "
        "inclusive functions are inclusive; that formatters read exactly the keywords announced; and that parser and "
        "record selector agree on what a (negated) condition selects. Does not decide the arithmetic of a function.")

AGG, PRE, FMT = "src/reader/Aggregator.cpp", "src/reader/Preprocessor.cpp", "src/reader/FormatProcessor.cpp"
STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
VS = r"^std::vector<std::__cxx11::basic_string<"
VT = re.compile(VS + r".*>::(\w+|operator\[\])\(")


def dem(f, i):
    return f.mod.demangle.get(i.callee, i.callee or "")


class Plain(AbsInt):
    """follows the path determined by the constants given; a vector<string> at root `vec` has n elements"""

    def __init__(self, f, n=None, vec=None, isempty=0, **kw):
        AbsInt.__init__(self, f, **kw)
        self.n, self.vec, self.isempty = n, vec, isempty
        self.strs, self.acc, self.new = [], [], 0
        self.icalls = []
        self.keep = {k[0] for k in self.mem0}

    def isvec(self, v):
        return isinstance(v, tuple) and v[0] == "p" and (v[1], v[2]) == self.vec

    def note(self, av):
        for v in av:
            if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("s:"):
                self.strs.append(v[1][2:])

    def call(self, i, av, s):
        d = dem(self.fn, i)
        self.note(av)
        if d.startswith("operator new"):
            return E(ret=("p", "new%d" % i.id, 0))
        if d.startswith(("operator delete", "__clang_call_terminate")):
            return E()
        m = VT.match(d)
        if m and av and self.isvec(av[0]):
            k = m.group(1)
            if k == "size":
                return E(ret=self.n)
            if k == "empty":
                return E(ret=int(self.n == 0))
            if k in ("operator[]", "at"):
                self.acc.append((i, av[1] if isinstance(av[1], int) else None, k == "at"))
                return E(ret=("p", "arg%s" % av[1], 0))
            if k in ("front", "back"):
                self.acc.append((i, 0, False))
                return E(ret=("p", "arg0", 0))
            if k == "begin":
                return E(ret=("p", "args", 0))
            if k == "end":
                return E(ret=("p", "args", 32 * self.n))
        if i.callee is None:
            return self.icall(i, av, s)
        r = self.other(i, d, av, s)
        if r is None:
            for v in av:
                if isinstance(v, tuple) and v[0] == "p" and v[1] not in self.keep:
                    for k in [k for k in s.mem if k[0] == v[1] and (v[2] is None or k[1] >= v[2])]:
                        s.mem[k] = (s.mem[k][0], "T")
            r = E(ret=None)
        return r

    def icall(self, i, av, s):
        self.icalls.append((i, self.val(i.a[0] if i.op != "x" else "T", s), av))
        return None

    def other(self, i, d, av, s):
        return None


def table(ck, p, rel, want):
    """rows [id, name, min, max, args] of the FunctionSignature array with a row named `want`"""
    m = ck.need(p.mods.get(rel), rel)
    flds = ("id", "name", "min_args", "max_args", "args")
    for g, raw in m.globals.items():
        t = re.match(r"\[(\d+) x .*FunctionSignature", raw.get("t", ""))
        if not t:
            continue
        n = int(t.group(1))
        cells = {}
        st = raw.get("init") or []
        for k in range(n):
            if k < len(st) and isinstance(st[k], list):
                for j, f in enumerate(flds):
                    cells[(k, f)] = st[k][j]
        for f in m.functions:
            for i in f.ins:
                if i.op == "store" and re.match("@" + re.escape(g) + "(/|$)", i.a[1]):
                    if "__cxx_global_var_init" not in f.qname:
                        ck.bad("table", "%s is constant" % raw["d"].split("::")[-1], i.where(), "the function table is modified at run time")
                    q = i.a[1].split("/")[1:]
                    k = int(q.pop(0)[1:-1]) if q and q[0].startswith("[") else 0
                    cells[(k, q[0].split("::")[-1] if q else "id")] = i.a[0]
        rows = []
        for k in range(n):
            v = [cells.get((k, f)) for f in flds]
            r = [int(x[1:]) if isinstance(x, str) and x.startswith("#") else x for x in v]
            for c in (0, 2, 3):
                if isinstance(r[c], int) and r[c] >= 1 << 31:
                    r[c] -= 1 << 32
            r[1] = r[1][2:] if isinstance(r[1], str) and r[1].startswith("s:") else None
            an = r[4][1:].split("/")[0] if isinstance(r[4], str) and r[4].startswith("@") else None
            ar = m.globals.get(an, {}).get("init") if an else None
            r[4] = [x[2:] if isinstance(x, str) and x.startswith("s:") else None for x in ar] if isinstance(ar, list) else []
            rows.append(r)
        if any(r[1] == want for r in rows):
            return rows, (raw["f"].replace(os.environ.get("CALI_REPO", "/repo") + "/", ""), raw["l"]), g
    raise Broken("anchor not found: table with '%s' in %s" % (want, rel))


def check_table(ck, what, rows, w):
    w = "%s:%s" % w
    live = []
    for k, r in enumerate(rows):
        if r[1] is None:
            ck.decide(k == len(rows) - 1, "table", "%s ends with its terminator only" % what, w,
                      "row %d of the %s table has no name: the parser stops there and never accepts the %d rows behind it"
                      % (k, what, len(rows) - 1 - k))
            break
        live.append(r)
    else:
        ck.bad("table", "%s has no terminator" % what, w, "the parser reads past the end of the %s table" % what)
    ids, names = Counter(r[0] for r in live), Counter(r[1] for r in live)
    for r in live:
        i, n, lo, hi, args = r
        ck.decide(isinstance(i, int) and ids[i] == 1 and names[n] == 1, "table", "%s %s: id and name unique" % (what, n), w,
                  "id %s / name %s appears twice in the %s table: one of the rows is dispatched to the other's implementation" % (i, n, what))
        ck.decide(0 <= lo <= hi, "table", "%s %s: argument range" % (what, n), w, "%s announces %s to %s arguments" % (n, lo, hi))
        ck.decide(hi <= len(args) and all(args), "table", "%s %s: every argument has a name" % (what, n), w,
                  "%s announces up to %d arguments but names %d: looking up the name of an argument reads past the array" % (n, hi, len(args)))
    return live


def flat(init):
    out = []
    for x in init or []:
        out += flat(x) if isinstance(x, list) else [x]
    return out


class Cfg(Plain):
    """a dispatcher run for one function id; reads constant tables, records the factories it calls"""

    def __init__(self, f, mem, base):
        Plain.__init__(self, f, mem=mem)
        self.base = base
        self.hit = []

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1].startswith("@") and ptr[2] is not None:
            g = self.base.globals.get(ptr[1][1:])
            if g and g.get("const") and "/" not in ptr[1]:
                fl = flat(g.get("init"))
                k = ptr[2] // 8
                if ptr[2] % 8 == 0 and 0 <= k < len(fl) and isinstance(fl[k], str):
                    v = fl[k]
                    return ("f", v[1:]) if v.startswith("@") else ("p", v, 0) if v.startswith("s:") else 0
                return ("f", "outside " + g["d"])
        return None

    def icall(self, i, av, s):
        t = self.val(i.a[0], s)
        self.hit.append((i, t[1] if isinstance(t, tuple) and t[0] == "f" else None, av))
        return E(ret=("p", "made", 0))

    def other(self, i, d, av, s):
        if re.search(r"::create\w*\(", d) and i.ty == "ptr" and self.base.prog.resolve(self.base, i.callee):
            self.hit.append((i, i.callee, av))
            return E(ret=("p", "made", 0))
        return None


def field(p, st, name):
    s = p.struct(st)
    for f in s["fields"] if s else []:
        if f[0] == name:
            return f[2]
    raise Broken("anchor not found: %s::%s" % (st, name))


def one(m, pat):
    q = re.sub(r"\\\(.*$", "", pat)
    fs = [f for f in m.functions if re.search("(^|::)" + q + r"(\[abi:\w+\])?$", f.qname) and f.blocks]
    if len(fs) != 1:
        raise Broken("anchor not found: %s (%d functions)" % (pat, len(fs)))
    return fs[0]


def listmem(p, root, off, elem, size):
    """a std::vector with one element"""
    return {(root, off): (8, ("p", elem, 0)), (root, off + 8): (8, ("p", elem, size))}


def factories(ck, p, rel, live, fn, mem, idcell, what, w):
    """{id: factory function} as the dispatcher selects it; nothing is called for ids outside the table"""
    m = p.mods[rel]
    im = P.inlined(p, rel, [fn], noinline=[r"::create\w*\("], doinline=[r"^std::vector<cali::QuerySpec::", r"__normal_iterator"])
    f = one(im, fn)
    fwhere = "%s:%d %s" % (f.rel(), f.line, f.qname)
    res = {}
    hi = max(r[0] for r in live)
    for k in [r[0] for r in live] + [-1, hi + 1]:
        mm = dict(mem)
        mm[idcell] = (4, k & 0xffffffff)
        a = Cfg(f, mm, m)
        a.run()
        hits = {h[1] for h in a.hit if not (h[1] or "").startswith("outside ")}
        out = {h[1] for h in a.hit if (h[1] or "").startswith("outside ")}
        name = next((r[1] for r in live if r[0] == k), None)
        if name is None:
            if a.hit and hits == {None} and not out:
                ck.count("dispatches not decided", 1)
                continue
            ck.decide(not a.hit, "dispatch", "%s: id %s outside the table calls nothing" % (what, "above" if k > hi else "below"), fwhere,
                      "function id %d, which the table does not have, reaches a call" % k)
            continue
        if None in hits and not out:
            ck.count("dispatches not decided", 1)
            continue
        good = len(hits) == 1 and not out
        ck.decide(good, "dispatch", "%s %s reaches its factory" % (what, name), fwhere,
                  "%s (id %d) is accepted by the query language but %s" % (name, k,
                  "no implementation is called for it" if not a.hit else "the call goes through %s" % (sorted(out) or sorted(map(str, hits)))))
        if good:
            res[k] = p.resolve(m, hits.pop())
    ck.decide(len({f.name for f in res.values()}) == len(res), "dispatch", "%s: factories are distinct" % what, fwhere,
              "two function ids share one factory")
    return res


def run_factory(p, rel, f, n, vec):
    im = P.inlined(p, rel, ["^" + re.escape(f.dem) + "$"])
    g = ckf(im, f.name)
    a = Plain(g, n=n, vec=vec)
    a.run()
    return a


def ckf(im, name):
    for f in im.functions:
        if f.name == name:
            return f
    raise Broken("anchor not found: inlined " + name)


def classof(q):
    """(anonymous namespace)::SumKernel::Config::create -> (anonymous namespace)::SumKernel"""
    q = re.sub(r"::create\w*$", "", q)
    return re.sub(r"::Config$", "", q)


def class_strings(p, rel, cls):
    """string constants used in methods of the class, except its factories and constructors"""
    out = set()
    for f in p.mods[rel].functions:
        if f.qname.startswith(cls + "::") and not re.search(r"::(create\w*|Config|%s)$" % re.escape(cls.split("::")[-1]), f.qname):
            for i in f.ins:
                for x in i.a:
                    if x.startswith("s:"):
                        out.add(x[2:])
    return out


def check_args(ck, what, r, run, w, fn):
    lo, hi = r[2], r[3]
    for n in range(lo, hi + 1):
        a = run(n)
        badacc = [(i, k) for i, k, at in a.acc if not at and (k is None or k >= n)]
        ck.decide(not badacc, "arguments", "%s %s with %d arguments" % (what, r[1], n), "%s:%d %s" % (fn.rel(), fn.line, fn.qname),
                  "%s accepts %d argument(s) but its implementation reads argument number %s" % (
                      r[1], n, badacc and (badacc[0][1] if badacc[0][1] is None else badacc[0][1] + 1)))
        yield n, a


def is_inclusive(p, rel, a):
    """value returned by is_inclusive() on the object a factory built"""
    m = p.mods[rel]
    vals = set()
    for ins, ret, st, mem, facts in a.exits:
        if ins.op != "ret" or not (isinstance(ret, tuple) and ret[0] == "p"):
            continue
        vt = mem.get((ret[1], ret[2]))
        g = vt[1][1].lstrip("@").split("/")[0] if vt and isinstance(vt[1], tuple) and vt[1][0] == "p" else None
        fl = flat(m.globals.get(g, {}).get("init"))
        t = [x[1:] for x in fl if isinstance(x, str) and "12is_inclusiveEv" in x]
        f = p.resolve(m, t[0]) if len(t) == 1 else None
        if not f:
            return None
        b = AbsInt(ckf(P.inlined(p, rel, ["^" + re.escape(f.dem) + "$"]), f.name), params={0: ret}, mem=mem)
        b.run()
        vals |= {x[1] for x in b.exits if x[0].op == "ret"}
    return vals.pop() if len(vals) == 1 else None


def aggregator(ck, p):
    rows, w, g = table(ck, p, AGG, "percent_total")
    live = check_table(ck, "aggregation", rows, w)
    ck.floor("aggregation functions", len(live), 15)
    qs = "cali::QuerySpec"
    ag = field(p, qs, "aggregate")
    lst = p.enum("cali::QuerySpec::AggregationSelection::Type") or {}
    st = ck.need(p.struct(qs), qs)
    sel = next((s for m in p.mods.values() for s in m.structs if "SelectionList<cali::QuerySpec::AggregationOp>" in s["n"] and s["fields"]), None)
    ck.need(sel, "AggregationSelection layout")
    so = {x[0]: x[2] for x in sel["fields"]}
    listval = seltype(p)
    op = ck.need(p.struct("cali::QuerySpec::AggregationOp"), "AggregationOp")
    mem = listmem(p, "a1", ag + so["list"], "elem", op["size"])
    mem[("a1", ag + so["selection"])] = (4, listval)
    fac = factories(ck, p, AGG, live, r"AggregatorImpl::configure\(", mem, ("elem", field(p, op["n"], "op")), "aggregation", w)
    im = P.inlined(p, AGG, [r"Aggregator::get_aggregation_attribute_name"])
    nf = one(im, r"get_aggregation_attribute_name")
    nw = "%s:%d %s" % (nf.rel(), nf.line, nf.qname)
    ao = field(p, op["n"], "args")
    seen = {}
    for r in live:
        k, name = r[0], r[1]
        strs = None
        for n in range(r[2], r[3] + 1):
            a = Plain(nf, n=n, vec=("a1", ao), mem={("a1", 0): (4, k)})
            a.run()
            ba = [x for x in a.acc if not x[2] and (x[1] is None or x[1] >= n)]
            ck.decide(not ba, "arguments", "result name of %s with %d arguments" % (name, n), nw,
                      "building the result name of %s reads an argument beyond the %d given" % (name, n))
            if strs is None:
                strs = a.strs
        named = ck.decide(bool(strs), "announced", "%s has a result name" % name, nw,
                  "no result name is announced for %s: it cannot be selected by default or found by other tools" % name)
        f = fac.get(k)
        if not f:
            continue
        stored = set()
        last = None
        for n, a in check_args(ck, "aggregation", r, lambda n: run_factory(p, AGG, f, n, ("a0", 0)), w, f):
            stored |= set(a.strs)
            last = a
        stored |= class_strings(p, AGG, classof(f.qname))
        if named:
            miss = [x for x in strs if x not in stored]
            ck.decide(not miss, "announced", "%s stores its result under the announced name" % name, nw,
                      "the result of %s is announced as '%s...' but %s stores %s" % (name, strs[0], f.qname, ", ".join(sorted(x for x in stored if "#" in x or x in ("count", "scount")))))
            o = seen.get(strs[0])
            ck.decide(o is None, "announced", "%s: result name is its own" % name, nw,
                      "%s and %s announce the same result name '%s'" % (name, o, strs[0]))
            seen[strs[0]] = name
        v = is_inclusive(p, AGG, last)
        want = int(name.startswith("inclusive"))
        if v is None:
            ck.count("is_inclusive not decided", 1)
        else:
            ck.decide(v == want, "inclusive", "%s is %sinclusive" % (name, "" if want else "not "), "%s:%d %s" % (f.rel(), f.line, f.qname),
                      "%s %s over the region hierarchy" % (name, "does not aggregate" if want else "aggregates"))
    ck.floor("aggregation factories", len(fac), 15)
    # the name in the dispatch table, where there is one
    for gn, gl in p.mods[AGG].globals.items():
        init = gl.get("init")
        if gl.get("const") and isinstance(init, list) and init and all(isinstance(x, list) and len(x) == 2 for x in init) and "Kernel" in gl.get("t", ""):
            for k, x in enumerate(init):
                if isinstance(x[0], str) and x[0].startswith("s:"):
                    nm = next((r[1] for r in live if r[0] == k), None)
                    ck.decide(nm == x[0][2:], "dispatch", "row of %s in the implementation table" % x[0][2:], "%s:%d" % (AGG, gl["l"]),
                              "implementation table row %d is '%s' but the function with id %d is %s" % (k, x[0][2:], k, nm))


def seltype(p):
    for m in p.mods.values():
        for n, e in m.enums.items():
            if "List" in e["v"] and "Default" in e["v"] and "QuerySpec" in n:
                return e["v"]["List"]
    raise Broken("anchor not found: selection list type")


def preprocessor(ck, p):
    rows, w, g = table(ck, p, PRE, "truncate")
    live = check_table(ck, "preprocessing", rows, w)
    ck.floor("preprocessing functions", len(live), 5)
    pl = field(p, "cali::QuerySpec", "preprocess_ops")
    spec = next((s for m in p.mods.values() for s in m.structs if s["n"] == "cali::QuerySpec::PreprocessSpec"), None)
    ck.need(spec, "PreprocessSpec layout")
    mem = listmem(p, "a1", pl, "elem", spec["size"])
    fac = factories(ck, p, PRE, live, r"PreprocessorImpl::configure\(", mem, ("elem", field(p, spec["n"], "op")), "preprocessing", w)
    ck.floor("preprocessing factories", len(fac), 5)
    for r in live:
        f = fac.get(r[0])
        if f:
            for n, a in check_args(ck, "preprocessing", r, lambda n: run_factory(p, PRE, f, n, ("a1", 0)), w, f):
                pass


def body(ck):
    p = P.program()
    ck.rule("table", "each row has an id and a name of its own, minimum <= maximum, a name for every argument up to the maximum, and the terminator comes last")
    ck.rule("dispatch", "the dispatcher reaches exactly one factory for every id in the table, distinct ones, and none for other ids")
    ck.rule("arguments", "for every accepted number of arguments n, only arguments below n are read without a bounds check")
    ck.rule("announced", "the announced result name is built from the strings the implementation builds its result attribute from")
    ck.rule("inclusive", "exactly the functions named inclusive_* aggregate over the region hierarchy")
    aggregator(ck, p)
    preprocessor(ck, p)
    formatters(ck, p)
    conditions(ck, p)


class Form(Plain):
    """create_formatter for one formatter id"""

    def __init__(self, f, mem):
        Plain.__init__(self, f, mem=mem)
        self.made = []

    def other(self, i, d, av, s):
        m = re.match(r"((?:\w+::|\(anonymous namespace\)::)*(\w+))::(\w+)\(", d)
        if m and m.group(2) == m.group(3) and av and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][1].startswith("new"):
            self.made.append((m.group(1), av[0][1]))
        return None


def formatters(ck, p):
    ck.rule("keyword", "a formatter reads exactly the argument names the function table announces for it")
    rows, w, g = table(ck, p, FMT, "json-split")
    live = check_table(ck, "output format", rows, w)
    ck.floor("output formats", len(live), 6)
    fo = field(p, "cali::QuerySpec", "format")
    fs = ck.need(next((s for m in p.mods.values() for s in m.structs if s["n"] == "cali::QuerySpec::FormatSpec"), None), "FormatSpec layout")
    off = {x[0]: x[2] for x in fs["fields"]}
    en = ck.need(next((e["v"] for m in p.mods.values() for n, e in m.enums.items() if "FormatSpec" in n and "Default" in e["v"]), None), "FormatSpec options")
    user = next(v for k, v in en.items() if k != "Default")
    fn = r"FormatProcessorImpl::create_formatter\("
    im = P.inlined(p, FMT, [fn])
    f = one(im, fn)
    fw = "%s:%d %s" % (f.rel(), f.line, f.qname)
    mo = field(p, "cali::FormatProcessor::FormatProcessorImpl", "m_formatter")
    vt = re.compile(r"^@_ZTV")
    cls = {}
    for k, name in [(r[0], r[1]) for r in live] + [(None, "default")]:
        mem = {("a1", fo + off["opt"]): (4, en["Default"] if k is None else user)}
        if k is not None:
            mem[("a1", fo + off["formatter"])] = (4, k)
        a = Form(f, mem)
        a.run()
        got = set()
        for ins, ret, st, m, facts in a.exits:
            if ins.op != "ret":
                continue
            v = m.get(("a0", mo))
            v = v[1] if v else None
            c = None
            if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("new"):
                t = m.get((v[1], 0))
                if t and isinstance(t[1], tuple) and vt.match(t[1][1]):
                    c = im.demangle.get(t[1][1][1:].split("/")[0], t[1][1]).replace("vtable for ", "")
                else:
                    c = next((x for x, r in a.made if r == v[1]), "?")
            got.add(c)
        ck.decide(len(got) == 1 and None not in got, "dispatch", "output format %s creates a formatter" % name, fw,
                  "FORMAT %s is accepted by the query language but no formatter is created for it" % name)
        if k is not None and len(got) == 1 and None not in got:
            cls[k] = got.pop()
    ck.decide(len(set(cls.values())) == len(cls), "dispatch", "output formats have formatters of their own", fw, "two formats create the same formatter class")
    for r in live:
        c = cls.get(r[0])
        if not c:
            continue
        short = c.split("::")[-1]
        lits, finds, where = set(), set(), None
        for rel, m in p.mods.items():
            for h in m.functions:
                if re.match(r"(cali::)?(\(anonymous namespace\)::)?%s(::|$)" % re.escape(short), h.qname) and h.file and not h.file.startswith("/usr"):
                    where = where or "%s:%d" % (h.rel(), h.line)
                    for i in h.ins:
                        for x in i.a:
                            if x.startswith("s:"):
                                lits.add(x[2:])
                    finds |= kwfinds(h)
        for kw in r[4][:r[3]]:
            ck.decide(kw in lits, "keyword", "%s reads argument %s" % (r[1], kw), where or fw,
                      "FORMAT %s announces the argument '%s' but %s never looks for it" % (r[1], kw, c))
        for kw in finds:
            ck.decide(kw in r[4], "keyword", "%s argument %s is announced" % (r[1], kw), where or fw,
                      "%s reads the argument '%s', which the query language does not accept for FORMAT %s" % (c, kw, r[1]))


def kwfinds(h):
    """literals looked up in the kwargs map in this function"""
    out = set()
    for i in h.ins:
        if i.is_call and len(i.args) >= 2 and re.search(r"^std::map<.*>::(find|count|at|operator\[\])\(", dem(h, i)) and "kwargs" in h.path(i.args[0]):
            for j in h.ins:
                if j.is_call and j.args and j.args[0] == i.args[1] and "basic_string" in dem(h, j):
                    for x in j.args[1:]:
                        if x.startswith("s:"):
                            out.add(x[2:])
    return out


# ---- conditions

class Parse(Plain):
    def __init__(self, f, ch, neg):
        Plain.__init__(self, f)
        self.ch, self.neg = ch, neg

    def other(self, i, d, av, s):
        if d.startswith("cali::util::read_char"):
            return E(ret=self.ch)
        if re.search(r"::empty\(", d):
            return E(ret=0)
        if "operator==" in d or "::compare(" in d:
            lit = [v[1][2:] for v in av if isinstance(v, tuple) and v[0] == "p" and v[1].startswith("s:")]
            if lit and lit[0].lower() == "not":
                return E(ret=self.neg if "operator==" in d else 0 if self.neg else 1)
            return E(ret=0)
        if "operator!=" in d:
            return E(ret=1 - self.neg)
        if "set_error" in d:
            return E(die=True)
        return None


class Pass(Plain):
    """RecordSelector::pass on one condition and one concrete record shape"""

    def __init__(self, f, mem, op, clause, vals):
        Plain.__init__(self, f, mem=mem)
        self.op, self.clause, self.vals = op, clause, vals

    def icmp(self, i, a, b, s):
        P_ = lambda v: isinstance(v, tuple) and v[0] == "p" and v[1] in self.keep and v[2] is not None
        if i.op[5:] in ("eq", "ne"):
            if P_(a) and P_(b) and a[1] != b[1] or P_(a) and b == 0 or P_(b) and a == 0:
                return int(i.op[5:] == "ne")
        return Plain.icmp(self, i, a, b, s)

    def other(self, i, d, av, s):
        if "make_clause" in d:
            return E(mem={(av[0][1], av[0][2] + o): c for o, c in self.clause.items()})
        if "variant_compare" in d or "variant_value_eq" in d or "variant_eq" in d:
            ops = [self.data(v, s) for v in av] if len(av) == 2 else [av[1], av[3]] if len(av) == 4 else [None, None]
            x, y = [v if isinstance(v, int) else None for v in ops]
            if x is None or y is None:
                return E(ret="T")
            return E(ret=((x > y) - (x < y)) & 0xffffffff if "compare" in d else int(x == y))
        return None

    def data(self, v, s):
        if not (isinstance(v, tuple) and v[0] == "p" and v[2] is not None):
            return None
        c = s.mem.get((v[1], v[2] + 8))
        c = c[1] if c else None
        if isinstance(c, int):
            return c
        return None


INV = 0xffffffffffffffff


def shapes():
    """record shapes: lists of entries; an entry is ('imm', attr, rank) or ('ref', [(attr, rank), ...])"""
    out = [("empty record", [])]
    for r in (4, 5, 6):
        out.append(("value %s" % "<=>"[r - 4], [("imm", 100, r)]))
        out.append(("node value %s" % "<=>"[r - 4], [("ref", [(100, r)])]))
        out.append(("parent node value %s" % "<=>"[r - 4], [("ref", [(101, 5), (100, r)])]))
        out.append(("value %s behind another" % "<=>"[r - 4], [("imm", 101, 5), ("imm", 100, r)]))
        out.append(("value %s before another" % "<=>"[r - 4], [("imm", 100, r), ("imm", 101, 5)]))
    out.append(("other attribute", [("imm", 101, 5)]))
    out.append(("other node", [("ref", [(101, 5)])]))
    return out


def conditions(ck, p):
    ck.rule("condition", "the parser and the record selector agree: NOT of a presence or equality condition selects the "
            "complement, NOT of a comparison the opposite comparison, on every record shape")
    rel, sel = "src/reader/CalQLParser.cpp", "src/reader/RecordSelector.cpp"
    ops = ck.need(next((e["v"] for m in p.mods.values() for n, e in m.enums.items() if "Condition::Op" in n and "NotExist" in e["v"]), None), "condition operators")
    opname = {v: k for k, v in ops.items()}
    pat = r"CalQLParserImpl::parse_filter_clause\("
    im = P.inlined(p, rel, [pat], noinline=["set_error", "util::read_word", "util::read_char"])
    f = one(im, pat)
    pw = "%s:%d %s" % (f.rel(), f.line, f.qname)
    parsed = {}
    for ch in ("=", "<", ">", ")", ",", "\0"):
        for neg in (0, 1):
            a = Parse(f, ord(ch), neg)
            a.run()
            got = set()
            for ins, ret, st, m, facts in a.exits:
                if ins.op == "ret":
                    v = m.get(("a0", 0))
                    got.add(v[1] if v else None)
            if len(got) != 1 or not isinstance(list(got)[0], int):
                ck.count("parser cases not decided", 1)
                continue
            parsed[ch, neg] = got.pop()
    if len(parsed) < 6:
        raise Broken("parse_filter_clause decided for %d of 12 cases only" % len(parsed))
    # what each operator selects
    pat = r"RecordSelectorImpl::pass\("
    im = P.inlined(p, sel, [pat], noinline=["make_clause"], doinline=[r"^std::vector<cali::", r"__normal_iterator"])
    g = one(im, pat)
    gw = "%s:%d %s" % (g.rel(), g.line, g.qname)
    L = lambda st, n: field(p, st, n)
    N = "cali::Node"
    no, na, nd, ni = L(N, "m_treenode"), L(N, "m_attribute"), L(N, "m_data"), L(N, "m_id")
    tn = ck.need(next((s for m in p.mods.values() for s in m.structs if re.search(r"LockfreeIntrusiveTree<cali::Node>::Node$", s["n"])), None), "tree node layout")
    par = {x[0]: x[2] for x in tn["fields"]}["parent"]
    tb = ck.need(next((s for m in p.mods.values() for s in m.structs if s["n"] == "cali::util::LockfreeIntrusiveTree<cali::Node>"), None), "tree layout")
    en, ev = L("cali::Entry", "m_node"), L("cali::Entry", "m_value")
    es = p.struct("cali::Entry")["size"]
    CL = "cali::RecordSelector::RecordSelectorImpl::Clause"
    nattr = name_attr(ck, p)
    filt = L("cali::RecordSelector::RecordSelectorImpl", "m_filters")
    csize = p.struct("cali::QuerySpec::Condition")["size"]

    def node(mem, root, nid, attr, rank, parent):
        for x in tb["fields"]:
            if x[3] == 8 and not x[4]:
                mem[(root, x[2])] = (8, no if "cali::Node*" not in x[1] else ("p", root, 0))
        mem[(root, ni)] = (8, nid)
        mem[(root, na)] = (8, attr)
        mem[(root, nd)] = (8, 7)
        mem[(root, nd + 8)] = (8, rank)
        mem[(root, no + par)] = (8, parent)

    def record(entries):
        mem = {("list", 0): (8, ("p", "ents", 0)), ("list", 8): (8, ("p", "ents", es * len(entries)))}
        for a in (100, 101):
            node(mem, "attr%d" % a, a, nattr, 1, 0)
        node(mem, "root", INV, INV, 0, 0)
        for k, e in enumerate(entries):
            b = es * k
            if e[0] == "imm":
                mem[("ents", b + en)] = (8, ("p", "attr%d" % e[1], 0))
                mem[("ents", b + ev)] = (8, 7)
                mem[("ents", b + ev + 8)] = (8, e[2])
            else:
                n = len(e[1])
                for j, (at, rk) in enumerate(e[1]):
                    node(mem, "n%d_%d" % (k, j), 200 + 10 * k + j, at, rk, ("p", "n%d_%d" % (k, j + 1), 0) if j + 1 < n else ("p", "root", 0))
                mem[("ents", b + en)] = (8, ("p", "n%d_0" % k, 0))
                mem[("ents", b + ev)] = (8, 7)
                mem[("ents", b + ev + 8)] = (8, e[1][0][1])
        return mem

    co = {"op": L(CL, "op"), "attr": L(CL, "attr"), "value": L(CL, "value")}
    sh = shapes()
    T = {}
    und = 0
    for name, op in ops.items():
        for sn, ents in sh:
            mem = record(ents)
            mem.update(listmem(p, "this", filt, "cond", csize))
            mem[("cond", 0)] = (4, op)
            a = Pass(g, mem, op, {co["op"]: (4, op), co["attr"]: (8, ("p", "attr100", 0)), co["value"]: (8, 7), co["value"] + 8: (8, 5)}, {})
            a.params = {0: ("p", "this", 0), 1: ("p", "db", 0), 2: ("p", "list", 0)}
            a.keep |= {"this", "list", "ents", "cond", "db"}
            a.run()
            r = {x[1] for x in a.exits if x[0].op == "ret"}
            if len(r) == 1 and isinstance(list(r)[0], int):
                T[op, sn] = r.pop() & 1
            else:
                und += 1
                T[op, sn] = None
    ck.count("operator and record shape combinations", len(T))
    if und > len(T) // 4:
        raise Broken("RecordSelector::pass not decided for %d of %d combinations" % (und, len(T)))
    spec = {"=": lambda r: r == 5, "<": lambda r: r is not None and r < 5, ">": lambda r: r is not None and r > 5}

    def rank(ents):
        for e in ents:
            for at, rk in ([(e[1], e[2])] if e[0] == "imm" else e[1]):
                if at == 100:
                    return rk
        return None

    for (ch, neg), op in sorted(parsed.items()):
        for sn, ents in sh:
            r = rank(ents)
            if ch in spec:
                want = spec[ch](r)
                if neg:
                    want = not want if ch == "=" else r is not None and not want
            else:
                want = (r is not None) != bool(neg)
            got = T.get((op, sn))
            if got is None:
                ck.count("combinations not decided", 1)
                continue
            ck.decide(got == int(want), "condition", "%sa%s on %s" % ("not " if neg else "", ch if ch in spec else " (end %r)" % ch, sn), gw,
                      "'%sa%s' is read as %s, which %s a record with %s (a value compared with the operand)" % (
                          "not " if neg else "", ch + "x" if ch in spec else "", opname.get(op, op), "selects" if got else "rejects", sn))


def name_attr(ck, p):
    for m in p.mods.values():
        for n, g in m.globals.items():
            if g["d"].endswith("Attribute::NAME_ATTR_ID") and isinstance(g.get("init"), int):
                return g["init"]
    for m in p.mods.values():
        for n, e in m.enums.items():
            if "NAME_ATTR_ID" in e["v"]:
                return e["v"]["NAME_ATTR_ID"]
    return 8
