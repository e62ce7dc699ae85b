"""C07: fixed-capacity buffers are never overrun."""
import re
import prog as P
from absint import AbsInt, E, Limit
from check import Broken
from util import dem, field

TITLE = "Fixed-capacity buffers are never overrun"
TECHNIQUE = ("concrete-domain abstract interpretation of the append, reserve and allocate operations of every buffer class around all boundary "
             "fill levels, record sizes and encoding widths, with every store, copy and clear checked against the extent of its buffer; typestate "
             "(a chunk receives a record only after it was found to fit) over the trace service")
NOTE = ("boundary cases are enumerated around each capacity (fill level, entry count, shortest and longest encoding), not proved for all sizes; "
        "cases whose addresses the interpreter cannot determine are counted as not decided")

W1, W10 = 1, 10


class B(AbsInt):
    """concrete interpretation with the extents of buffers"""
    MAX = 60000
    WIDEN = 400

    def __init__(self, p, f, caps, mem=None, params=None, width=10, st=0, calls=None):
        self.p, self.caps, self.width, self.over, self.unk, self.calls = p, dict(caps), width, {}, 0, calls
        for i in f.ins:
            if i.op == "alloca" and isinstance(i.y, int):
                self.caps["alloca%d" % i.id] = i.y
        AbsInt.__init__(self, f, st0=st, params=params or {}, mem=mem or {})

    def distinct(self, o):
        return not o.startswith(("a", "*", "%")) or o.startswith("alloca")

    def extent(self, i, q, n, what):
        if not (isinstance(q, tuple) and q[0] == "p" and q[1] in self.caps):
            return
        if n == 0:
            return
        if q[2] is None or not isinstance(n, int):
            self.unk += not q[1].startswith("alloca")
            return
        if q[2] < 0 or q[2] + n > self.caps[q[1]] or n < 0:
            b = "a local buffer" if q[1].startswith("alloca") else "the buffer"
            self.over.setdefault("%s %d byte%s at offset %d of %s of %d bytes" % (what, n, "s" * (n != 1), q[2], b, self.caps[q[1]]), i)

    def eval_(self, i, s):
        if i.op == "store":
            self.extent(i, self.val(i.a[1], s), i.y or 1, "writes")
        elif i.op == "load":
            q = self.val(i.a[0], s)
            if isinstance(q, tuple) and not q[1].startswith("alloca"):
                self.extent(i, q, i.y or 1, "reads")
        return AbsInt.eval_(self, i, s)

    def do_call(self, i, s):
        c = i.callee or ""
        if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            av = [self.val(a, s) for a in i.args]
            self.extent(i, av[0], av[2], "writes")
            if not c.startswith("llvm.memset"):
                self.extent(i, av[1], av[2], "reads")
        return AbsInt.do_call(self, i, s)

    def cellv(self, v, s, off=0):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get((v[1], v[2] + off))
            return c[1] if c else None
        return None

    def call(self, i, av, s):
        d = dem(self.fn, i) if i.callee else ""
        for q in av:
            if isinstance(q, tuple) and q[0] == "p" and q[1].startswith("alloca") and q[2] is not None and not 0 <= q[2] <= self.caps.get(q[1], q[2]):
                self.over.setdefault("passes a place beyond a local buffer of %d bytes" % self.caps[q[1]], i)
        if self.calls:
            r = self.calls(self, d, i, av, s)
            if r is not None:
                return r
        n = {"vlenc_u64": 1, "cali_variant_pack": 2}.get(d.split("(")[0])
        buf = 1
        if n is None and re.match(r"cali::Variant::pack[(]", d):
            n = 2
        if n is None and re.match(r"cali::Entry::pack[(]", d):
            n = 3
        if d.startswith("cali_variant_pack"):
            buf = len(av) - 1
        if n:
            n *= self.width
            self.extent(i, av[buf], n, "writes")
            if isinstance(av[buf], tuple) and av[buf][0] == "p" and not av[buf][1].startswith("alloca"):
                return E(ret=n)
            return E(ret=n)
        if re.match(r"operator new(\[\])?[(]unsigned long", d) or i.callee in ("_Znam", "_Znwm"):
            r = "new%d" % i.id
            if isinstance(av[0], int):
                self.caps[r] = av[0]
            else:
                self.caps.pop(r, None)
            return E(ret=("p", r, 0))
        if d.startswith("operator delete") or i.callee in ("_ZdaPv", "_ZdlPv", "_ZdlPvm", "_ZdaPvm"):
            return E(ret=None)
        m = re.match(r"(?:unsigned long |unsigned int |int )?(?:const& )?.*std::(min|max)<", d)
        if m and len(av) == 2:
            a, b = self.cellv(av[0], s), self.cellv(av[1], s)
            if isinstance(a, int) and isinstance(b, int):
                return E(ret=av[0] if (a <= b) == (m.group(1) == "min") else av[1])
        m = re.match(r".*std::fill_n<unsigned char\*", d)
        if m:
            self.extent(i, av[0], av[1], "writes")
            return E(ret="T")
        if d.startswith(("std::lock_guard", "cali::Log", "cali::util::spinlock", "std::basic_ostream", "std::operator<<")):
            return E(ret=None)
        if re.match(r".*std::swap<", d) and len(av) == 2 and all(isinstance(q, tuple) and q[0] == "p" and q[2] is not None for q in av):
            a, b = (s.mem.get((q[1], q[2])) for q in av)
            return E(ret=None, mem={(av[0][1], av[0][2]): b or (8, "T"), (av[1][1], av[1][2]): a or (8, "T")})
        m = re.match(r".*std::(copy|copy_n|move)<", d)
        if m and len(av) == 3 and isinstance(av[0], tuple) and av[0][0] == "p":
            n = av[1]
            if m.group(1) != "copy_n":
                n = av[1][2] - av[0][2] if isinstance(n, tuple) and n[:2] == av[0][:2] and None not in (n[2], av[0][2]) else "T"
            self.extent(i, av[2], n, "writes")
            self.extent(i, av[0], n, "reads")
            q = av[2]
            return E(ret=("p", q[1], q[2] + n) if isinstance(n, int) and isinstance(q, tuple) and q[0] == "p" and q[2] is not None else "T")
        if d.endswith(" const") or re.match(r"(cali_variant_|cali::Variant|cali::Entry|cali::Attribute|cali::Node|cali::Caliper::get_)", d):
            return E(ret=None)
        # whatever else may change what it is given
        return E(ret=None, forget=[q[1] for q in av if isinstance(q, tuple) and q[0] == "p"])


class Case:
    def __init__(self, ck, p):
        self.ck, self.p, self.n, self.und, self.cache = ck, p, 0, 0, {}

    def fn(self, pat, noinl=(), need=True):
        k = (pat, tuple(noinl))
        if k not in self.cache:
            g = None
            for f in self.p.functions():
                if f.blocks and re.match(pat, f.dem) and not f.rel().startswith(("src/tools", "test")) and "/test/" not in f.rel():
                    ms = P.inlined(self.p, f.mod.rel, ["^" + re.escape(f.dem) + "$"], list(noinl) + NOINL)
                    gs = [x for x in ms.functions if x.name == f.name and x.blocks]
                    if gs:
                        g = gs[0]
                        g.base_f = f
                        break
            self.cache[k] = g
        g = self.cache[k]
        if g is None and need:
            raise Broken("anchor not found: " + pat)
        return g

    def run(self, rule, inst, g, caps, mem, params, width=10, calls=None, post=None):
        x = B(self.p, g, caps, mem=mem, params=params, width=width, calls=calls)
        try:
            x.run()
        except Limit:
            self.und += 1
            return None
        f = g.base_f
        w = "%s:%d" % (f.rel(), f.line)
        if x.over:
            self.ck.bad(rule, inst, w, "; ".join(sorted(x.over))[:300])
            return x
        if x.unk:
            self.und += 1
            return x
        msg = post(x) if post else None
        if msg == "?":
            self.und += 1
            return x
        self.n += 1
        self.ck.decide(msg is None, rule, inst, w, msg or "")
        return x


NOINL = [r"^vlenc_u64$", r"^vldec_u64$", r"^cali_variant_pack$", r"^cali::Entry::pack[(]", r"^cali::Variant::(pack|data)[(]", r"^cali::Log", r"^std::"]


def end(x, root, off):
    """the values of a cell at the normal exits"""
    out = set()
    for ins, rv, st, mem, facts in x.exits:
        if ins.op == "ret":
            c = mem.get((root, off))
            out.add(c[1] if c else "?")
    return out


# ---- snapshot records
def builder(cs, ck, p):
    R = "snapshot records"
    o = {n: field(p, "cali::SnapshotBuilder", n) for n in ("m_data", "m_capacity", "m_len", "m_skipped")}
    E24 = p.struct("cali::Entry")["size"]

    def mem(cap, ln):
        return {("a0", o["m_data"]): (8, ("p", "BUF", 0)), ("a0", o["m_capacity"]): (8, cap), ("a0", o["m_len"]): (8, ln), ("a0", o["m_skipped"]): (8, 0)}

    one = cs.fn(r"cali::SnapshotBuilder::append[(]cali::Entry const&[)]$")
    many = cs.fn(r"cali::SnapshotBuilder::append[(]unsigned long, cali::Entry const[*][)]$")
    rem = cs.fn(r"cali::SnapshotBuilder::remove[(]")
    for cap in (0, 1, 4):
        for ln in range(cap + 1):
            m = dict(mem(cap, ln))
            m[("a1", 0)] = (8, ("p", "live:node", 0))

            def post(x, ln=ln, cap=cap):
                a, b = end(x, "a0", o["m_len"]), end(x, "a0", o["m_skipped"])
                want = (ln + 1, 0) if ln < cap else (ln, 1)
                if "?" in a | b or any(not isinstance(v, int) for v in a | b):
                    return "?"
                return None if (want[0] in a and want[1] in b) and a <= {want[0], ln} and b <= {want[1], 0} else "an entry for a record with %d of %d entries leaves %s entries, %s skipped" % (ln, cap, sorted(a), sorted(b))
            cs.run(R, "append to %d of %d entries" % (ln, cap), one, {"BUF": cap * E24}, m, {1: ("p", "a1", 0)}, post=post)
            for n in (0, 1, 3, 6):
                m = dict(mem(cap, ln))
                for k in range(n):
                    m[("a2", k * E24)] = (8, ("p", "live:node%d" % k, 0))

                def post(x, ln=ln, cap=cap, n=n):
                    a, b = end(x, "a0", o["m_len"]), end(x, "a0", o["m_skipped"])
                    if any(not isinstance(v, int) for v in a | b):
                        return "?"
                    return None if max(a) <= cap and max(a) == min(cap, ln + n) and max(b) == max(0, ln + n - cap) else "leaves %s entries, %s skipped" % (sorted(a), sorted(b))
                cs.run(R, "append %d entries to %d of %d" % (n, ln, cap), many, {"BUF": cap * E24}, m, {1: n}, post=post)
            cs.run(R, "remove from %d of %d entries" % (ln, cap), rem, {"BUF": cap * E24}, mem(cap, ln), {})
    for f in p.functions():
        m = re.match(r"cali::FixedSizeSnapshotRecord<(\d+)ul>::(FixedSizeSnapshotRecord|reset)[(][)]", f.dem)
        if m and f.blocks:
            g = cs.fn("^" + re.escape(f.dem) + "$")
            n = int(m.group(1))
            x = B(p, g, {"a0": p.struct("cali::FixedSizeSnapshotRecord<%s>" % m.group(1))["size"] if p.struct("cali::FixedSizeSnapshotRecord<%s>" % m.group(1)) else n * E24 + 32})
            try:
                x.run()
            except Limit:
                cs.und += 1
                continue
            bo = n * E24
            got = {(mem.get(("a0", bo + o["m_capacity"]), (0, "?"))[1], mem.get(("a0", bo + o["m_data"]), (0, "?"))[1]) for ins, rv, st, mem, facts in x.exits}
            if any("?" in g2 for g2 in got):
                cs.und += 1
                continue
            cs.n += 1
            ck.decide(got == {(n, ("p", "a0", 0))}, R, "a record of %d entries: %s" % (n, m.group(2) if m.group(2) == "reset" else "new"), "%s:%d" % (f.rel(), f.line),
                      "its builder is given %s entries" % sorted(map(str, got)))


# ---- compressed records
def compressed(cs, ck, p):
    R = "compressed records"
    S = "cali::CompressedSnapshotRecord"
    o = {n: field(p, S, n) for n in ("m_buffer", "m_buffer_len", "m_num_nodes", "m_num_imm", "m_imm_pos", "m_imm_len", "m_needed_len", "m_skipped")}
    nodes = cs.fn(r"cali::CompressedSnapshotRecord::append[(]unsigned long, cali::Node const[*] const[*][)]")
    imm = cs.fn(r"cali::CompressedSnapshotRecord::append[(]unsigned long, unsigned long const[*], cali::Variant const[*][)]")

    def mem(ln, nn, ni, ipos, ilen):
        return {("a0", o["m_buffer"]): (8, ("p", "BUF", 0)), ("a0", o["m_buffer_len"]): (8, ln), ("a0", o["m_num_nodes"]): (8, nn), ("a0", o["m_num_imm"]): (8, ni),
                ("a0", o["m_imm_pos"]): (8, ipos), ("a0", o["m_imm_len"]): (8, ilen), ("a0", o["m_needed_len"]): (8, ipos + ilen), ("a0", o["m_skipped"]): (8, 0)}

    for g, unit, what in ((nodes, 1, "nodes"), (imm, 3, "values")):
        for w in (W1, W10):
            for n in (0, 1, 7, 8, 9, 11):
                need = n * unit * w
                for ipos, ilen in ((1, 1), (41, 61), (1, 200)):
                    for ln in sorted({2 if (ipos, ilen) == (1, 1) else ipos + ilen, ipos + ilen + need - 1, ipos + ilen + need, ipos + ilen + need + 1, 512}):
                        if ln < ipos + ilen:
                            continue

                        def post(x, ln=ln, ipos=ipos, ilen=ilen, need=need, n=n):
                            a, b, c = (end(x, "a0", o[k]) for k in ("m_imm_pos", "m_imm_len", "m_needed_len"))
                            if any(not isinstance(v, int) for v in a | b | c):
                                return "?"
                            if max(a) + max(b) > ln:
                                return "the record is %d bytes long in a buffer of %d" % (max(a) + max(b), ln)
                            if c != {ipos + ilen + need}:
                                return "the needed length is %s instead of %d" % (sorted(c), ipos + ilen + need)
                            if ipos + ilen + need <= ln and (max(a) + max(b) != ipos + ilen + need or end(x, "a0", o["m_skipped"]) != {0}):
                                return "%d entries that fit are not all stored" % n
                        cs.run(R, "append %d %s (%d bytes each) to %d of %d bytes" % (n, what, unit * w, ipos + ilen, ln), g, {"BUF": ln},
                               mem(ln, 4, 3, ipos, ilen), {1: n}, width=w, post=post)
            # the counts are single bytes
            for n, have in ((8, 119), (8, 120), (8, 126), (3, 127), (9, 118), (8, 250), (1, 255)):
                def post(x, have=have, n=n, k="m_num_nodes" if unit == 1 else "m_num_imm"):
                    a = end(x, "a0", o[k])
                    if any(not isinstance(v, int) for v in a):
                        return "?"
                    return None if max(a) < 256 else "%d entries are counted in one byte" % max(a)
                cs.run(R, "append %d %s to a record with %d" % (n, what, have), g, {"BUF": 100000}, mem(100000, have, have, 1281, 3900), {1: n}, width=w, post=post)
    ct = cs.fn(r"cali::CompressedSnapshotRecord::CompressedSnapshotRecord[(]unsigned long, unsigned char[*][)]")
    for ln in (0, 1, 2, 100):
        cs.run(R, "a record in %d bytes" % ln, ct, {"BUF": ln}, {}, {1: ln, 2: ("p", "BUF", 0)})
    lst = cs.fn(r"cali::CompressedSnapshotRecord::append[(]unsigned long, cali::Entry const[*][)]", noinl=[r"^cali::CompressedSnapshotRecord::append[(]unsigned long, (unsigned|cali::Node)"])
    for n in (0, 7, 8, 9, 20):
        for ref in (True, False):
            m = {}
            for k in range(n):
                m[("a2", 24 * k)] = (8, ("p", "live:n%d" % k, 0))
                m[("a2", 24 * k + 8)] = (8, 0 if ref else 2)
            seen = []

            def calls(x, d, i, av, s):
                if "CompressedSnapshotRecord::append(" in d:
                    return E(ret=0)
            cs.run(R, "list of %d %s" % (n, "nodes" if ref else "values"), lst, {}, m, {1: n}, calls=calls)


# ---- encoding lengths
def widths(cs, ck, p):
    R = "encoded lengths"
    g = cs.fn(r"vlenc_u64$")
    for k in range(0, 65, 7):
        for v in sorted({(1 << min(k, 64)) - 1, 1 << k if k < 64 else (1 << 64) - 1}):
            want = max(1, (v.bit_length() + 6) // 7)

            def post(x, want=want):
                got = {rv for ins, rv, st, mem, facts in x.exits}
                if any(not isinstance(r, int) for r in got):
                    return "?"
                return None if got == {want} else "%s bytes are reported for a value that takes %d" % (sorted(got), want)
            cs.run(R, "integer of %d bits" % v.bit_length(), g, {"BUF": want}, {}, {0: v, 1: ("p", "BUF", 0)}, post=post)
    for pat, n in ((r"cali_variant_pack$", 20), (r"cali::Entry::pack[(]", 30)):
        g = cs.fn(pat)
        k = len(g.params) - 1
        for w in (W1, W10):
            def post(x, n=n, w=w):
                got = {rv for ins, rv, st, mem, facts in x.exits}
                if any(not isinstance(r, int) for r in got):
                    return "?"
                return None if max(got) <= n * w // 10 else "reports %d bytes" % max(got)
            cs.run(R, "%s, integers of %d byte%s" % (pat.split("[")[0].rstrip("$"), w, "s" * (w > 1)), g, {"BUF": n * w // 10}, {}, {k: ("p", "BUF", 0)}, width=w, post=post)


# ---- trace chunks
def trace(cs, ck, p):
    R = "trace chunks"
    S = "trace::TraceBufferChunk"
    o = {n: field(p, S, n) for n in ("m_size", "m_pos", "m_nrec", "m_data")}
    fits = cs.fn(r"trace::TraceBufferChunk::fits[(]")
    save = cs.fn(r"trace::TraceBufferChunk::save_snapshot[(]")
    E24 = p.struct("cali::Entry")["size"]
    ct = cs.fn(r"trace::TraceBufferChunk::TraceBufferChunk[(]unsigned long[)]")
    for size in (0, 1, 4096):
        def post(x, size=size):
            a, b = end(x, "a0", o["m_size"]), end(x, "a0", o["m_data"])
            if any(v == "?" or v == "T" for v in a | b):
                return "?"
            for ptr in b:
                if not isinstance(ptr, tuple) or ptr[1] not in x.caps:
                    return "?"
                if max(a) > x.caps[ptr[1]]:
                    return "a chunk of %d bytes says it has %d" % (x.caps[ptr[1]], max(a))
            return None
        cs.run(R, "a chunk of %d bytes" % size, ct, {}, {}, {1: size}, post=post)

    def mem(size, pos, n):
        m = {("a0", o["m_size"]): (8, size), ("a0", o["m_pos"]): (8, pos), ("a0", o["m_nrec"]): (8, 5), ("a0", o["m_data"]): (8, ("p", "BUF", 0))}
        for k in range(n):
            m[("REC", k * E24)] = (8, ("p", "live:n%d" % k, 0))
        return m
    ok = 0
    for n in (1, 2, 5, 20, 80):
        worst = 10 * (n > 0) + 30 * n
        for size in (0, 8, worst // 2, worst, worst + 1, worst + 500, 4096):
            for pos in sorted({0, 1, max(0, size - worst - 2), max(0, size - worst - 1), max(0, size - worst), max(0, size - worst + 1), max(0, size - worst + 31), max(0, size - 30 * n), max(0, size - 1), size}):
                if pos > size:
                    continue
                x = B(p, fits, {"BUF": size}, mem=mem(size, pos, n), params={1: ("p", "REC", 0), 2: n})
                try:
                    x.run()
                except Limit:
                    cs.und += 1
                    continue
                rv = {e[1] for e in x.exits}
                if rv - {0, 1}:
                    cs.und += 1
                    continue
                if 1 not in rv:
                    if size - pos > 3 * worst + 64:
                        ck.bad(R, "%d entries at %d of %d bytes" % (n, pos, size), "%s:%d" % (fits.base_f.rel(), fits.base_f.line), "a record of at most %d bytes is refused" % worst)
                    continue
                ok += 1
                for w in (W1, W10):
                    cs.run(R, "%d entries at %d of %d bytes, integers of %d" % (n, pos, size, w), save, {"BUF": size}, mem(size, pos, n), {1: ("p", "REC", 0), 2: n}, width=w)
    ck.floor("records that fit a trace chunk", ok, 10)
    typestate(cs, ck, p)


def typestate(cs, ck, p):
    """a chunk receives a record only after it was found to fit"""
    R = "a record is only saved where it fits"
    n = 0
    for f in p.functions():
        if not f.blocks or f.rel().startswith(("src/services/trace/TraceBufferChunk",)) or "/test" in f.rel():
            continue
        if not any(i.is_call and i.callee and dem(f, i).startswith("trace::TraceBufferChunk::save_snapshot(") for i in f.ins):
            continue
        m = P.inlined(p, f.mod.rel, ["^" + re.escape(f.dem) + "$"], NOINL + [r"^trace::TraceBufferChunk", r"^cali::"])
        g = [x for x in m.functions if x.name == f.name and x.blocks][0]

        class T(AbsInt):
            MAX = 40000
            WIDEN = 2000
            bad = None

            def eval_(self, i, s):
                r = AbsInt.eval_(self, i, s)
                if i.op == "load" and i.ty == "ptr" and r == "T":
                    # whatever it is, it stays there until it is changed
                    r = self.sym(i, s)
                    self.write(self.val(i.a[0], s), 8, r, s)
                return r

            def call(self, i, av, s):
                d = dem(self.fn, i) if i.callee else ""
                if d.startswith("trace::TraceBufferChunk::fits("):
                    c = (repr(av[0]), repr(av[1:]))
                    return [E(ret=1, st=s.st | {c}), E(ret=0)]
                if d.startswith("trace::TraceBufferChunk::save_snapshot("):
                    if "T" in (av[0],) or (repr(av[0]), repr(av[1:])) not in s.st:
                        if av[0] == "T" and s.st:
                            self.unk = True
                        else:
                            self.bad = i
                    return E(st=frozenset())
                if re.match(r"trace::TraceBufferChunk::(TraceBufferChunk|UsageInfo)", d):
                    return E(ret=None)
                if d.startswith(("operator new",)) or i.callee in ("_Znwm", "_Znam"):
                    return E(ret=("p", "new%d.%d" % (i.id, 0), 0))
                if d.startswith(("cali::Log", "std::basic_ostream", "std::operator<<", "std::ostream", "cali::Channel")):
                    return E(ret=None)
                # whatever else may change the buffers
                return E(ret=None, pure=not d.startswith(("trace::", "cali::Caliper::flush", "cali::Caliper::clear")), st=frozenset() if d.startswith(("trace::", "cali::Caliper::flush", "cali::Caliper::clear")) else s.st)
        x = T(g, st0=frozenset())
        x.unk = False
        try:
            x.run()
        except Limit:
            cs.und += 1
            continue
        n += 1
        if x.bad is None and x.unk:
            cs.und += 1
            continue
        ck.decide(x.bad is None, R, re.sub(r"[(]anonymous namespace[)]::", "", f.qname), "%s:%d" % (f.rel(), f.line),
                  "a record is saved in a chunk that was not asked, or was found too small")
    ck.floor("places that save records in trace chunks", n, 1)


# ---- growing buffers
def growing(cs, ck, p):
    for S, R in (("cali::NodeBuffer", "node buffers"), ("cali::SnapshotBuffer", "record buffers")):
        o = {n: field(p, S, n) for n in ("m_pos", "m_reserved_len", "m_buffer", "m_count")}

        def mem(pos, res):
            return {("a0", o["m_pos"]): (8, pos), ("a0", o["m_reserved_len"]): (8, res), ("a0", o["m_buffer"]): (8, ("p", "BUF", 0)), ("a0", o["m_count"]): (8, 1)}

        def after(x):
            a, l, q = end(x, "a0", o["m_buffer"]), end(x, "a0", o["m_reserved_len"]), end(x, "a0", o["m_pos"])
            if any(not isinstance(v, int) for v in l | q):
                return "?"
            for ptr in a:
                if not isinstance(ptr, tuple) or ptr[1] not in x.caps:
                    return "?"
                if max(l) > x.caps[ptr[1]]:
                    return "a buffer of %d bytes is recorded as %d bytes" % (x.caps[ptr[1]], max(l))
                if max(q) > x.caps[ptr[1]]:
                    return "%d bytes are recorded in a buffer of %d" % (max(q), x.caps[ptr[1]])
            return None
        imp = cs.fn(re.escape(S) + r"::import[(]")
        for res in (0, 1, 100):
            for size in (0, 1, 99, 100, 101, 10000):
                def post(x, size=size):
                    r = after(x)
                    for ins, rv, st, m2, facts in x.exits:
                        if isinstance(rv, tuple) and rv[0] == "p" and rv[1] in x.caps and x.caps[rv[1]] - (rv[2] or 0) < size:
                            r = "a buffer of %d bytes is handed out for %d" % (x.caps[rv[1]], size)
                    return r
                cs.run(R, "import %d bytes with %d reserved" % (size, res), imp, {"BUF": res}, mem(min(res, 50), res), {1: size}, post=post)
        if S == "cali::NodeBuffer":
            app = cs.fn(re.escape(S) + r"::append[(]cali::NodeBuffer::NodeInfo const&[)]", noinl=[r"^cali_variant_size$", r"^cali::Variant::size[(]"])
            for res, pos in ((0, 0), (100, 0), (100, 20), (100, 50), (100, 95), (100, 100), (8192, 8000), (8192, 8142), (8192, 8141), (8192, 8192), (8192, 6000), (8192, 5142), (8192, 5143)):
                for vs in (0, 8, 49, 50, 51, 3000):
                    for w in (W1, W10):
                        for par in (True, False):
                            def calls(x, d, i, av, s, vs=vs):
                                if d.startswith(("cali_variant_size", "cali::Variant::size(")):
                                    return E(ret=vs)
                            m = mem(pos, res)
                            m[("a1", 16)] = (8, 7 if par else -1)
                            m[("a1", 0)] = (8, 3)
                            cs.run(R, "append a value of %d bytes at %d of %d, integers of %d%s" % (vs, pos, res, w, "" if par else ", no parent"), app, {"BUF": res}, m, {}, width=w, calls=calls, post=after)
        else:
            app = cs.fn(re.escape(S) + r"::append[(]cali::CompressedSnapshotRecord const&[)]")
            C = "cali::CompressedSnapshotRecord"
            for res, pos in ((0, 0), (100, 0), (100, 40), (100, 98), (100, 99), (100, 100), (8192, 8000)):
                for size in (2, 60, 61, 500):
                    m = mem(pos, res)
                    m[("a1", field(p, C, "m_imm_pos"))] = (8, 1)
                    m[("a1", field(p, C, "m_imm_len"))] = (8, size - 1)
                    m[("a1", field(p, C, "m_buffer"))] = (8, ("p", "SRC", 0))
                    cs.run(R, "append a record of %d bytes at %d of %d" % (size, pos, res), app, {"BUF": res, "SRC": size}, m, {}, post=after)


# ---- the memory pool
def pool(cs, ck, p):
    R = "memory pool"
    C = "cali::MemoryPool::MemoryPoolImpl::Chunk"
    I = "cali::MemoryPool::MemoryPoolImpl"
    co = {n: field(p, C, n) for n in ("ptr", "wmark", "size")}
    g = cs.fn(re.escape(I) + r"::allocate[(]", noinl=[r"::expand[(]"])
    ex = cs.fn(re.escape(I) + r"::expand[(]")

    def calls(x, d, i, av, s):
        if "std::vector<" in d and I + "::Chunk" in d:
            n = re.search(r">::(\w+)[(]", d)
            n = n.group(1) if n else ""
            if n == "empty":
                return E(ret=0 if x.have else 1)
            if n == "back":
                return E(ret=("p", "CH", 0))
            if n in ("push_back", "emplace_back"):
                m = {}
                for k in (0, 8, 16):
                    c = x.cellv(av[1], s, k)
                    m[("CH", k)] = (8, c if c is not None else "T")
                return E(ret=None, mem=m)
        if d.startswith(I + "::expand("):
            n = av[1]
            if not isinstance(n, int):
                return None
            ln = max(n, 65536)
            x.caps["NEWCHUNK"] = ln
            return E(ret=None, mem={("CH", co["ptr"]): (8, ("p", "NEWCHUNK", 0)), ("CH", co["wmark"]): (8, 0), ("CH", co["size"]): (8, ln)})

    class A(B):
        have = True
        """addresses of chunks are multiples of 16: alignment arithmetic works on the offset"""

        def eval_(self, i, s):
            if i.op in ("ptrtoint", "inttoptr"):
                v = self.val(i.a[0], s)
                if isinstance(v, tuple) and v[0] == "p":
                    return v
            if i.op in ("add", "sub", "and"):
                a, b = self.val(i.a[0], s), self.val(i.a[1], s)
                for u, v in ((a, b), (b, a)):
                    if isinstance(u, tuple) and u[0] == "p" and u[2] is not None and isinstance(v, int):
                        if i.op == "add":
                            return ("p", u[1], u[2] + (v - (1 << 64) if v >> 63 else v))
                        if i.op == "and":
                            return ("p", u[1], (u[2] & v) & ((1 << 64) - 1))
                        if u is a:
                            return ("p", u[1], u[2] - v)
                if i.op == "sub" and all(isinstance(u, tuple) and u[0] == "p" and u[2] is not None for u in (a, b)) and a[1] == b[1]:
                    return a[2] - b[2]
            return B.eval_(self, i, s)

    f = g.base_f
    w = "%s:%d" % (f.rel(), f.line)
    for have, size, wm in ((True, 1000, 0), (True, 1000, 1), (True, 1000, 960), (True, 1000, 983), (True, 1000, 984), (True, 1000, 990), (True, 1000, 1000), (True, 65536, 65500), (False, 0, 0)):
        for n in (1, 8, 15, 16, 17, 40, 72, 1000, 70000):
            for al in (1, 8, 16):
                for expand in (0, 1):
                    mem = {("CH", co["ptr"]): (8, ("p", "CHUNK", 0)), ("CH", co["wmark"]): (8, wm), ("CH", co["size"]): (8, size)} if have else {}
                    x = A(p, g, {"CHUNK": size}, mem=mem, params={1: n, 2: al, 3: expand}, calls=calls)
                    x.have = have
                    try:
                        x.run()
                    except Limit:
                        cs.und += 1
                        continue
                    inst = "%d bytes aligned to %d at %d of %d%s" % (n, al, wm, size, ", expandable" if expand else "")
                    msg = None
                    for ins, rv, st, m2, facts in x.exits:
                        if ins.op != "ret":
                            continue
                        if rv == 0:
                            if expand:
                                msg = "no memory although the pool can grow"
                            continue
                        if not isinstance(rv, tuple) or rv[0] != "p" or rv[1] not in x.caps or rv[2] is None:
                            msg = "?"
                            break
                        c = m2.get(("CH", co["wmark"]))
                        wm2 = c[1] if c else None
                        if rv[2] + n > x.caps[rv[1]]:
                            msg = "hands out bytes %d to %d of a chunk of %d" % (rv[2], rv[2] + n, x.caps[rv[1]])
                        elif rv[1] == "CHUNK" and rv[2] < wm:
                            msg = "hands out memory that is in use: offset %d of %d used" % (rv[2], wm)
                        elif not isinstance(wm2, int):
                            msg = "?"
                            break
                        elif wm2 < rv[2] + n:
                            msg = "the mark %d leaves bytes up to %d unprotected" % (wm2, rv[2] + n)
                        elif rv[2] % al:
                            msg = "offset %d is not aligned to %d" % (rv[2], al)
                    if msg == "?" or not x.exits:
                        cs.und += 1
                        continue
                    cs.n += 1
                    ck.decide(msg is None, R, inst, w, msg or "")
    # a new chunk is as large as it says, and large enough
    cz = field(p, I, "chunksize")
    for n in (1, 65535, 65536, 65537, 1 << 20):
        def post(x, n=n):
            for ins, rv, st, m2, facts in x.exits:
                if ins.op != "ret":
                    continue
                q, s2 = m2.get(("CH", co["ptr"]), (0, "?"))[1], m2.get(("CH", co["size"]), (0, "?"))[1]
                if not isinstance(q, tuple) or q[1] not in x.caps or not isinstance(s2, int):
                    return "?"
                if s2 > x.caps[q[1]] or s2 < n:
                    return "a chunk of %d bytes for %d says it has %d" % (x.caps[q[1]], n, s2)
                if m2.get(("CH", co["wmark"]), (0, "?"))[1] != 0:
                    return "the new chunk is not empty"
            return None
        cs.run(R, "expand by %d" % n, ex, {}, {("a0", cz): (8, 65536)}, {1: n}, calls=calls, post=post)


# ---- fixed arrays of the C interface
def carrays(cs, ck, p):
    R = "argument arrays of the C interface"
    NO = [r"^cali::(Caliper|Channel|FixedSize|Snapshot|Compressed|Attribute)"]
    k = 0
    for f in p.functions():
        if not f.blocks or not f.mod.lib or not re.match(r"cali_\w+$", f.qname) or f.rel() != "src/caliper/cali.cpp":
            continue
        ps = [j for j, q in enumerate(f.params) if q[1] == "i32"]
        if not ps or sum(q[1] == "ptr" for q in f.params) < 2:
            continue
        g = cs.fn("^" + re.escape(f.dem) + "$", noinl=NO)
        if not any(i.op == "alloca" and isinstance(i.y, int) and i.y >= 512 for i in g.ins):
            continue
        k += 1
        for n in (-1, 0, 1, 63, 64, 65, 100000):
            cs.run(R, "%s with %d entries" % (f.qname, n), g, {}, {}, {j: n & 0xffffffff for j in ps})
    ck.count("functions of the C interface with a fixed array", k)


def body(ck):
    p = P.program()
    ck.rule("snapshot records", "a builder stores an entry only while there is room, counts every entry it does not store, and removes entries within the record; "
            "a record's builder has the record's storage and capacity")
    ck.rule("compressed records", "entries are encoded within the temporary buffer and stored only when the whole record still fits; the needed length counts all entries; "
            "entries that fit are stored; the counts stay within their byte")
    ck.rule("encoded lengths", "an encoded integer takes at most 10 bytes, a value 20, an entry 30, and the reported length is what is written")
    ck.rule("trace chunks", "a chunk has the memory it says it has, and a record that is said to fit is written within the chunk")
    ck.rule("a record is only saved where it fits", "on every path to the saving of a record, that chunk was asked for that record and said that it fits")
    ck.rule("node buffers", "the buffer is enlarged before a node is appended or imported, so that it is written within the buffer")
    ck.rule("record buffers", "the buffer is enlarged before a record is appended or imported, so that it is written within the buffer")
    ck.rule("memory pool", "memory that is handed out lies within its chunk, is aligned, was not handed out before and is not handed out again")
    ck.rule("argument arrays of the C interface", "counts from the caller are limited to the fixed arrays they are copied to")
    cs = Case(ck, p)
    builder(cs, ck, p)
    compressed(cs, ck, p)
    widths(cs, ck, p)
    trace(cs, ck, p)
    growing(cs, ck, p)
    pool(cs, ck, p)
    carrays(cs, ck, p)
    ck.count("cases", cs.n)
    ck.count("cases, not decided", cs.und)
    ck.floor("cases", cs.n, 300)
