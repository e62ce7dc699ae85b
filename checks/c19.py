"""C19: flushing and finishing never lose or duplicate recorded data."""
import os
import re
import build
import prog as P
from absint import AbsInt, E, Limit
from check import Broken
from util import dem, field

TITLE = "Flushing and finishing never lose or duplicate recorded data"
TECHNIQUE = ("path-sensitive abstract interpretation of the flush, finish and exit paths and of every buffer's flush and clear "
             "functions over small concrete shapes of the buffer lists; the event and delivery sequences of all paths are compared with the protocol")
NOTE = ("all paths of the flush, output, clear, finish and exit functions for 0-3 channels; both buffering services on lists of 0-3 thread buffers; "
        "ends of the process that run no exit function and records refused by a full buffer are outside the property")

NOINL = [r"^(void |bool )?cali::util::callback<.*>::(operator\(\)|empty)", r"^std::", r"^[a-z ]*__gnu_cxx::", r"cali::Log::", r"siglock::", r"^[a-z:_ ]*& std::", r"^bool std::", r"^void std::",
         r"Caliper::(flush|flush_and_write|finalize|release_thread|delete_channel|clear|create_attribute|set|begin|end|get_channel|activate_channel|deactivate_channel)\(",
         r"GlobalData::~GlobalData", r"GlobalData::add_thread_data", r"ThreadData::ThreadData", r"Channel::(operator|Channel)", r"Blackboard::", r"SnapshotRecord", r"SnapshotBuilder::"]


class Tr(AbsInt):
    """trace of events and named calls; shared pointers and function objects keep the identity of what they hold"""
    NAMED = {}

    def __init__(self, p, f, **kw):
        self.p = p
        self.unknown = 0
        AbsInt.__init__(self, f, **kw)

    def cell(self, v, s, off=0):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get((v[1], v[2] + off))
            if c:
                return c[1]
        return None

    def deref(self, v, s):
        c = self.cell(v, s)
        return c if c is not None and isinstance(v, tuple) and v[1].startswith("alloca") else v

    def add(self, s, *ev):
        return s.st + (ev,)

    def event(self, i, av, s):
        m = re.search(r"Events::(\w+)$", self.fn.path(i.args[0]))
        return m.group(1) if m else "?"

    def call(self, i, av, s):
        d = dem(self.fn, i)
        if "callback<" in d and "::empty" in d:
            return self.empty(i, av, s)
        if "callback<" in d and "operator()" in d:
            return E(st=self.add(s, "event", self.event(i, av, s)) if self.keep_event(i, av, s) else s.st)
        r = self.named(d, i, av, s)
        if r is not None:
            return r
        if re.search(r"(__shared_ptr|shared_ptr|Channel)::(__shared_ptr|shared_ptr|Channel)\(.*(const&|&&)\)", d) or re.search(r"shared_ptr<.*>::(__)?shared_ptr\(.*(const&|&&)\)", d) or re.search(r"cali::Channel::Channel\(cali::Channel", d):
            v = self.cell(av[1], s)
            if v is None and isinstance(av[1], tuple) and av[1][0] == "p":
                v = ("p", "*(%s+%s)" % (av[1][1], av[1][2]), 0)
            return E(mem={(av[0][1], av[0][2]): (8, v)} if isinstance(av[0], tuple) and av[0][2] is not None and v is not None else {})
        if re.search(r"__shared_ptr(_access)?<.*>::(operator->|get|operator\*|_M_get)\(", d):
            v = self.cell(av[0], s)
            if v is None and isinstance(av[0], tuple) and av[0][0] == "p":
                v = ("p", "*(%s+%s)" % (av[0][1], av[0][2]), 0)
            return E(v if v is not None else "T")
        return self.other(d, i, av, s)

    def keep_event(self, i, av, s):
        return True

    def empty(self, i, av, s):
        return E()

    def named(self, d, i, av, s):
        return None

    def other(self, d, i, av, s):
        return E()


def traces(r):
    return {st for ins, rv, st, mem, facts in r.exits if ins.op == "ret"}


def show(ts):
    return " | ".join(sorted("; ".join(" ".join(map(str, e)) for e in t) or "nothing" for t in ts))[:400]


def fns(p, pat):
    return [f for f in p.functions() if re.search(pat, f.dem) and f.blocks]


def where(f):
    return "%s:%d" % (f.rel(), f.line)


def inl(p, f, noinl=NOINL, root=None):
    m = P.inlined(p, f.mod.rel, [root or "^" + re.escape(f.dem) + "$"], noinl)
    for g in m.functions:
        if g.name == f.name and g.blocks:
            return g
    raise Broken("anchor not found: " + f.dem[:80])


# ---- the flush protocol
def flush(ck, p):
    f = ck.need(fns(p, r"^cali::Caliper::flush\([^$]*\)$"), "Caliper::flush")[0]
    g = inl(p, f, root=r"^cali::Caliper::flush[(]")

    class F(Tr):
        def keep_event(self, i, av, s):
            return True

        def call(self, i, av, s):
            d = dem(self.fn, i)
            if re.search(r"^std::function<.*>::function\(std::function<.*(const&|&&)\)", d) and isinstance(av[0], tuple):
                v = self.cell(av[1], s)
                return E(mem={(av[0][1], av[0][2]): (8, v if v is not None else ("s", "fn:" + str(av[1][1])))})
            if re.search(r"^std::function<.*>::function<", d) and isinstance(av[0], tuple):
                return E(mem={(av[0][1], av[0][2]): (8, ("s", "fn:wrapped"))})
            if "callback<" in d and "operator()" in d:
                e = self.event(i, av, s)
                own = self.fn.path(i.args[0])
                # the channel must be the one given: first argument of the member function
                args = tuple(self.deref(a, s) for a in av[1:])
                what = ()
                if e == "flush_evt":
                    a = av[-1]
                    what = ("as given",) if a == ("p", "a4", 0) or self.cell(a, s) == ("s", "fn:a4") else ("wrapped",)
                elif ("p", "a1", 0) not in args:
                    what = ("of another channel",)
                return E(st=self.add(s, e, *what))
            return Tr.call(self, i, av, s)

        def empty(self, i, av, s):
            return E(int(self.nopost) if "postprocess" in self.event(i, av, s) else "T")
    for nopost in (0, 1):
        r = F(p, g, st0=())
        r.nopost = nopost
        got = traces(r.run())
        seq = lambda w: (("pre_flush_evt",), ("flush_evt", w), ("post_flush_evt",))
        want = [{seq("wrapped")}] + ([{seq("as given")}] if nopost else [])
        ck.decide(got in want, "flush protocol", "Caliper::flush " + ("without post-processing" if nopost else "with post-processing"), where(f), "possible sequences: " + show(got))
    # the function object that post-processes
    lam = [x for x in fns(p, r"^cali::Caliper::flush\(.*\)::(\$_\d+|'lambda\d*'\(.*\))::operator\(\)\(")]
    for x in lam:
        h = inl(p, x, root=r"^cali::Caliper::flush[(].*::operator[(][)][(]")

        class L(Tr):
            def call(self, i, av, s):
                d = dem(self.fn, i)
                if re.search(r"^std::vector<cali::Entry.*>::vector\(std::vector<cali::Entry.*const&", d):
                    v = self.cell(av[1], s) or ("s", "rec:" + str(av[1][1]))
                    return E(mem={(av[0][1], av[0][2]): (8, v)})
                if "callback<" in d and "operator()" in d:
                    return E(st=self.add(s, self.event(i, av, s), self.rec(av[-1], s), av[-1]))
                if re.search(r"^std::function<.*>::operator\(\)\(", d):
                    return E(st=self.add(s, "deliver", self.rec(av[2], s), av[2]))
                return Tr.call(self, i, av, s)

            def rec(self, v, s):
                c = self.cell(v, s)
                return "record" if c == ("s", "rec:a2") or v == ("p", "a2", 0) else "other"
        got = traces(L(p, h, st0=()).run())
        good = bool(got)
        for t in got:
            good = good and [e[:2] for e in t] == [("postprocess_snapshot", "record"), ("deliver", "record")] and t[0][2] == t[1][2]
        ck.decide(good, "post-processing", "record callback of Caliper::flush", where(x), "possible sequences: " + show({tuple(e[:2] for e in t) for t in got}))
    if not lam:
        ck.count("not decided", 1)


def write(ck, p):
    f = ck.need(fns(p, r"^cali::Caliper::flush_and_write\("), "Caliper::flush_and_write")[0]
    g = inl(p, f)
    lists = {"channel_blackboard", "process_blackboard", "thread_blackboard"}

    class W(Tr):
        def named(self, d, i, av, s):
            if re.search(r"Blackboard::snapshot\(", d):
                m = re.search(r"(\w+_blackboard)$", self.fn.path(i.args[0]))
                return E(st=self.add(s, "read", m.group(1) if m else "?"))
            return None
    got = traces(W(p, g, st0=()).run())
    good = bool(got)
    for t in got:
        ev = [e for e in t if e[0] == "event"]
        good = good and ev == [("event", "write_output_evt")] and t[-1] == ev[0] and sorted(e[1] for e in t if e[0] == "read") == sorted(lists)
    ck.decide(good, "output protocol", "Caliper::flush_and_write", where(f), "possible sequences: " + show(got))
    f = ck.need(fns(p, r"^cali::Caliper::clear\("), "Caliper::clear")[0]
    g = inl(p, f)

    class C(Tr):
        def keep_event(self, i, av, s):
            return True

        def call(self, i, av, s):
            d = dem(self.fn, i)
            if "callback<" in d and "operator()" in d:
                own = self.fn.path(i.args[0])
                arg = self.deref(av[-1], s)
                src = str(av[0])
                return E(st=self.add(s, self.event(i, av, s), "own" if "(a1+" in src and arg == ("p", "a1", 0) else "other"))
            return Tr.call(self, i, av, s)
    got = traces(C(p, g, st0=()).run())
    ck.decide(got == {(("clear_evt", "own"),)}, "clear is own", "Caliper::clear", where(f), "possible sequences: " + show(got))


# ---- finishing
class Fin(Tr):
    """all_channels holds n channels; state: (number deleted, trace)"""

    def __init__(self, p, f, n, flags, foff):
        self.n, self.flags, self.foff, self.lost = n, flags, foff, []
        Tr.__init__(self, p, f, st0=(0, ()))

    def add(self, s, *ev):
        return (s.st[0], s.st[1] + (ev,))

    def chan(self, v, s):
        c = self.cell(v, s)
        for x in (v, c):
            m = re.match(r"\*?\(?(?:chan|body)(\d+)\b", x[1]) if isinstance(x, tuple) and x[0] == "p" else None
            if m:
                return int(m.group(1))
        return "?"

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[2] == self.foff:
            m = re.match(r"\*\(chan(\d+)\+0\)$|body(\d+)$", ptr[1])
            if m:
                return self.flags[int(m.group(1) or m.group(2))]
        return None

    def named(self, d, i, av, s):
        k = s.st[0]
        m = re.search(r"std::vector<cali::Channel.*>::(\w+|operator\[\])\(", d)
        if m and re.search(r"all_channels$", self.fn.path(i.args[0])):
            q = m.group(1)
            if q == "empty":
                return E(int(k >= self.n))
            if q == "size":
                return E(self.n - k)
            if q in ("front", "begin", "back", "operator[]", "at"):
                if q in ("operator[]", "at") and av[1] != 0:
                    self.lost.append(q)
                    return E()
                return E(("p", "chan%d" % (self.n - 1 if q == "back" else k), 0) if k < self.n else "T")
            if q != "end":
                self.lost.append(q)
            return E()
        if re.search(r"Caliper::flush_and_write\(", d):
            return E(st=self.add(s, "write", self.chan(av[1], s)))
        if re.search(r"Caliper::delete_channel\(", d):
            t = self.add(s, "delete", self.chan(av[1], s))
            return E(st=(k + 1, t[1]))
        if re.search(r"normal_iterator<cali::Channel\*.*>::operator[*>-]", d):
            return E(self.cell(av[0], s) or "T")
        return None


def finish(ck, p):
    f = ck.need(fns(p, r"^cali::Caliper::finalize\("), "Caliper::finalize")[0]
    g = inl(p, f)
    foff = field(p, "cali::ChannelBody", "flush_on_exit")
    import itertools
    for n in (0, 1, 2, 3):
        for flags in itertools.product((0, 1), repeat=n):
            r = Fin(p, g, n, flags, foff)
            try:
                r.run()
            except Limit:
                ck.count("not decided", 1)
                continue
            got = {st[1] for st in traces(r)}
            if r.lost:
                ck.count("not decided", 1)
                continue
            per = lambda k: ((("write", k),) if flags[k] else ()) + (("delete", k),)
            want = [tuple(e for k in o for e in per(k)) for o in (range(n), range(n - 1, -1, -1))]
            ck.decide(len(got) == 1 and list(got)[0] in want, "finish protocol", "finalize with %d channels, flush on exit: %s" % (n, "".join(map(str, flags)) or "-"), where(f), "possible sequences: " + show(got))


class Exit(Tr):
    """a destructor or function that shuts the runtime down"""

    def __init__(self, p, f, case, cells):
        self.case, self.cells = case, cells
        Tr.__init__(self, p, f, st0=())

    def load(self, i, ptr, s):
        if not (isinstance(ptr, tuple) and ptr[0] == "p"):
            return None
        if ptr[1].startswith("@") and "s_init_lock" in ptr[1]:
            return self.case["lock"]
        if ptr[1].startswith("@") and "gObj" in ptr[1] and ptr[2] in (0, None) or ptr[1] == "a0" and self.cells.get("a0") == "g" and ptr[2] == 0:
            return ("p", "G", 0) if self.case["g"] else 0
        if ptr[1] == "TLS" and ptr[2] == 0 or ptr[1] == "a0" and self.cells.get("a0") == "t" and ptr[2] == 0:
            return ("p", "T0", 0) if self.case["t"] else 0
        if ptr[1] == "T0" and ptr[2] == self.cells["initial"]:
            return self.case["initial"]
        return None

    def named(self, d, i, av, s):
        if "thread-local wrapper" in d and "tObj" in d or "threadlocal.address" in d:
            return E(("p", "TLS", 0))
        if re.search(r"add_thread_data\(", d):
            return E(av[1], mem={("TLS", 0): (8, av[1])})
        if d.startswith("operator new"):
            return E(("p", "newT", 0))
        if re.search(r"ThreadData::ThreadData\(", d):
            return E()
        if re.search(r"siglock::is_locked", d):
            return E(0)
        if re.search(r"Caliper::(finalize|release_thread)\(", d):
            th = self.cell(av[0], s, self.cells["T"])
            ok = th not in (0, None) and self.cell(av[0], s, self.cells["G"]) not in (0, None)
            return E(st=self.add(s, re.search(r"Caliper::(\w+)\(", d).group(1), "with thread data" if ok else "without thread data"))
        if re.search(r"GlobalData::~GlobalData\(", d):
            return E(st=self.add(s, "delete runtime"))
        if re.search(r"^cali::Caliper::(Caliper\(\)|instance)|^_ZN4cali7CaliperC[12]Ev$", d):
            # a handle, valid or not
            o = av[0] if av else None
            if isinstance(o, tuple) and o[0] == "p":
                g, t = (("p", "G", 0), ("p", "T0", 0)) if self.case["g"] and self.case["lock"] == 0 else (0, 0)
                return E(mem={(o[1], o[2] + self.cells["G"]): (8, g), (o[1], o[2] + self.cells["T"]): (8, t), (o[1], o[2] + self.cells["S"]): (1, 0)})
        return None


def at_exit(ck, p):
    """functions registered with atexit exactly once on every path that makes the runtime"""
    f = ck.need(fns(p, r"^cali::Caliper::instance\("), "Caliper::instance")[0]
    g = inl(p, f, NOINL + [r"GlobalData::(GlobalData|init)\(", r"make_default_channel"])

    class I(Tr):
        def keep_event(self, i, av, s):
            return False

        def load(self, i, ptr, s):
            if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1].startswith("@") and "s_init_lock" in ptr[1]:
                return 1
            return None

        def named(self, d, i, av, s):
            m = re.match(r"(__cxa_)?atexit\b|at_quick_exit\b", d)
            if m:
                return E(0, st=self.add(s, "register", av[0][1] if isinstance(av[0], tuple) and av[0][0] == "f" else self.fn.path(i.args[0])))
            if re.search(r"GlobalData::GlobalData\(", d):
                return E(st=self.add(s, "make"))
            return None
    got = traces(I(p, g, st0=()).run())
    out = None
    for t in got:
        regs = [e[1] for e in t if e[0] == "register"]
        if any(e[0] == "make" for e in t):
            out = set(regs) if out is None else out & set(regs)
        elif regs:
            ck.bad("every way out", "start of the runtime", where(f), "registers an exit function without making the runtime")
    return {x.lstrip("@") for x in out or ()}


def exits(ck, p):
    late = at_exit(ck, p)
    handlers = [f for f in p.functions() if f.name in late and f.blocks]
    ini = field(p, "cali::Caliper::ThreadData", "is_initial_thread")
    G, T, S = (field(p, "cali::Caliper", x) for x in ("sG", "sT", "m_is_signal"))
    ways = [("t", ck.need(fns(p, r"S_TLSObject::~S_TLSObject\("), "S_TLSObject")[0]), ("r", ck.need(fns(p, r"^cali::Caliper::release\("), "Caliper::release")[0])]
    # an exit function runs before the destructors of static objects, which then find the runtime gone
    ways += [("h", f) for f in handlers] or [("g", f) for f in ck.need(fns(p, r"S_GObject::~S_GObject\("), "S_GObject")[:1]]
    for kind, f in ways:
        g = inl(p, f, NOINL + [r"^cali::Caliper::Caliper[(][)]", r"^cali::Caliper::instance"])
        for lock in (0, 1, 2):
            for gp in (0, 1):
                for t in (0, 1):
                    for initial in (0, 1):
                        if lock == 0 and not gp or initial and not t or lock == 1 and gp:
                            continue
                        if kind == "t" and lock == 0 and not t and initial:
                            continue
                        case = {"lock": lock, "g": gp, "t": t, "initial": initial}
                        got = traces(Exit(p, g, case, {"a0": kind, "initial": ini, "G": G, "T": T, "S": S}).run())
                        active = lock == 0 and gp
                        fin = (("finalize", "with thread data"), ("delete runtime",))
                        if kind == "t":
                            want = () if not (active and t) else fin if initial else (("release_thread", "with thread data"),)
                        else:
                            want = fin if active else ()
                        if kind == "r" and not t:
                            continue
                        name = {"t": "end of a thread", "g": "end of the program", "h": "end of the program", "r": "Caliper::release"}[kind]
                        ck.decide(got == {want}, "every way out", "%s: %s, %s" % (name, "active" if active else "inactive", "no thread data" if not t else "initial thread" if initial else "other thread"),
                                  where(f), "possible sequences: %s; expected: %s" % (show(got), show({want})))


# ---- every buffer
BUFS = (("trace", "src/services/trace/Trace.cpp", "Trace", "TraceBuffer", "tbuf_list", "chunks", r"trace::TraceBufferChunk::", "chunk"),
        ("aggregate", "src/services/aggregate/Aggregate.cpp", "Aggregate", "ThreadDB", "m_tdb_list", "db", r"aggregate::AggregationDB::", "db"))


class Bufs(Tr):
    """a service with a list of n thread buffers; trace of what is done to which buffer"""

    def __init__(self, p, f, svc, node, retired, off, stopped=()):
        self.off, self.ret, self.node = off, retired, node
        n = len(retired)
        mem = {("a0", off["list"]): (8, ("p", "N0", 0) if n else 0)}
        for k in range(n):
            mem[("N%d" % k, off["next"])] = (8, ("p", "N%d" % (k + 1), 0) if k + 1 < n else 0)
            mem[("N%d" % k, off["prev"])] = (8, ("p", "N%d" % (k - 1), 0) if k else 0)
            mem[("N%d" % k, off["retired"])] = (1, retired[k])
            mem[("N%d" % k, off["stopped"])] = (1, int(k in stopped))
            if off["ptr"]:
                mem[("N%d" % k, off["buf"])] = (8, ("p", "B%d" % k, 0))
        Tr.__init__(self, p, f, st0=(), mem=mem)

    def distinct(self, o):
        return re.match(r"[NB]\d+$", o)

    def which(self, v):
        """the index of the buffer an object pointer belongs to"""
        if not (isinstance(v, tuple) and v[0] == "p"):
            return "?"
        if v[1][:1] == "B" and v[1][1:].isdigit() and v[2] == 0:
            return int(v[1][1:])
        if v[1][:1] == "N" and v[1][1:].isdigit() and not self.off["ptr"] and v[2] == self.off["buf"]:
            return int(v[1][1:])
        return "?"

    def event(self, i, av, s):
        return "?"

    def call(self, i, av, s):
        d = dem(self.fn, i)
        m = re.search(r"^std::atomic<bool>::(store|load|exchange|operator bool|operator=)\(", d) or re.search(r"^std::__atomic_base<bool>::(store|load|exchange)", d)
        if m and isinstance(av[0], tuple) and av[0][0] == "p":
            a = av[0]
            if m.group(1) in ("store", "operator=", "exchange"):
                st = s.st
                if a[2] == self.off["stopped"] and a[1][:1] == "N":
                    st = st + (("stopped", int(a[1][1:]), av[1]),)
                c = s.mem.get((a[1], a[2]))
                return E(c[1] if c and m.group(1) == "exchange" else "T", st=st, mem={(a[1], a[2]): (1, av[1])})
            c = s.mem.get((a[1], a[2]))
            return E(c[1] if c else "T")
        m = re.search(r"(?:TraceBufferChunk|AggregationDB)::(\w+|~\w+)\(", d)
        if m and not d.startswith("std::"):
            k = m.group(1)
            if k in ("flush", "reset", "clear"):
                given = ()
                if k == "flush":
                    fn = [self.cell(a, s) for a in av[1:]] + list(av[1:])
                    given = (("s", "fn:a2") in fn or ("p", "a2", 0) in fn,)
                return E(st=s.st + ((k, self.which(av[0])) + given,))
            return E()
        if re.search(r"^std::function<.*>::function\(std::function<.*(const&|&&)\)", d) and isinstance(av[0], tuple):
            v = self.cell(av[1], s)
            return E(mem={(av[0][1], av[0][2]): (8, v if v is not None else ("s", "fn:" + str(av[1][1])))})
        if d.startswith("operator delete") and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][1][:1] == "N" and av[0][1][1:].isdigit():
            return E(st=s.st + (("delete", int(av[0][1][1:])),))
        if "threadlocal" in d or "dbg" in d:
            return E()
        return E()


def chain(mem, off, n):
    """the list reachable from the service object, None when unresolved"""
    out, v, prev = [], mem.get(("a0", off["list"]), (8, "T"))[1], 0
    while v != 0:
        if not (isinstance(v, tuple) and v[0] == "p" and re.match(r"N\d+$", v[1]) and v[2] == 0) or len(out) > n:
            return None
        out.append(int(v[1][1:]))
        v = mem.get((v[1], off["next"]), (8, "T"))[1]
    return out


def buffers(ck, p):
    import itertools
    for svc, rel, cls, node, lst, buf, obj, kind in BUFS:
        pre = "(anonymous namespace)::" + cls
        sub = pre + "::" + node
        try:
            off = {"list": field(p, pre, lst), "ptr": svc == "trace"}
            for x in ("stopped", "retired", "next", "prev"):
                off[x] = field(p, sub, x)
            off["buf"] = field(p, sub, buf)
        except Exception:
            ck.count("not decided", 1)
            continue
        for what in ("flush", "clear"):
            fs = [f for f in fns(p, r"^\(anonymous namespace\)::%s::%s_cb\(" % (cls, what)) if f.mod.rel == rel]
            f = ck.need(fs, "%s::%s_cb" % (cls, what))[0]
            g = inl(p, f, NOINL + [r"TraceBufferChunk::", r"AggregationDB::"], root=r"^.anonymous namespace.::%s::%s_cb[(]" % (cls, what))
            act = "flush" if what == "flush" else "reset" if svc == "trace" else "clear"
            for n in (0, 1, 2, 3):
                for ret, stopped in [(r, ()) for r in itertools.product((0, 1), repeat=n)] + ([((0,) * n, (n - 1,)), ((1,) * n, (0,))] if n else []):
                    r = Bufs(p, g, svc, node, ret, off, stopped)
                    try:
                        r.run()
                    except Limit:
                        ck.count("not decided", 1)
                        continue
                    ends = [(st, mem) for ins, rv, st, mem, facts in r.exits if ins.op == "ret"]
                    if not ends:
                        raise Broken("no path through " + f.dem[:60])
                    case = "%s service: %s with %d thread buffers, retired: %s" % (svc, what, n, "".join(map(str, ret)) or "-") + (", buffer %d full and stopped" % stopped[0] if stopped else "")
                    unres = False
                    msgs = set()
                    for st, mem in ends:
                        if any("?" in e for e in st):
                            unres = True
                            continue
                        live = set()      # a buffer stopped before may stay so when it is only flushed
                        for e in st:
                            if e[0] == "stopped":
                                (live.add if e[2] else live.discard)(e[1])
                        left = chain(mem, off, n)
                        if left is None:
                            unres = True
                            continue
                        dels = sorted(e[1] for e in st if e[0] == "delete")
                        acts = sorted(e[1] for e in st if e[0] == act)
                        gone = [k for k in range(n) if ret[k]] if what == "clear" else []
                        # a buffer that goes away need not be emptied
                        must = [k for k in range(n) if k not in gone]
                        if [k for k in acts if k in must] != must or len(acts) != len(set(acts)):
                            msgs.add("buffers %s: %s" % (act, acts))
                        if any(e[0] in ("flush", "reset", "clear") and e[0] != act for e in st):
                            msgs.add("other operations on a buffer")
                        if what == "flush" and any(e[0] == "flush" and not e[2] for e in st):
                            msgs.add("records are not handed to the caller's function")
                        if dels != gone or left != [k for k in range(n) if k not in gone]:
                            msgs.add("buffers kept: %s, deleted: %s" % (left, dels))
                        if live - set(gone):
                            msgs.add("recording stays stopped for buffers %s" % sorted(live))
                    if unres and not msgs:
                        ck.count("not decided", 1)
                        continue
                    ck.decide(not msgs, "every buffer", case, where(f), "; ".join(sorted(msgs)))


# ---- what one buffer delivers
class Rec(Tr):
    """vectors of entries and the records handed on; objects VEC are vectors of known length: {path suffix: (object name, element size, length)}"""
    VECS = {}

    def vec(self, i):
        if not i.args:
            return None
        pa = self.fn.path(i.args[0])
        for k, v in self.VECS.items():
            if pa.endswith("::" + k):
                return v
        return None

    def items(self, v, s):
        c = self.cell(v, s)
        return c[1][2:] if isinstance(c, tuple) and c[0] == "s" and c[1][:2] == "v:" else None

    def content(self, v, s):
        """a text that identifies an entry object"""
        c = self.cell(v, s)
        if isinstance(c, tuple) and c[0] == "s" and c[1][:2] == "e:":
            return c[1][2:]
        n, x = self.cell(v, s), self.cell(v, s, 16)
        return "<%s=%s>" % (self.txt(n), self.txt(x))

    def txt(self, v):
        return "?" if v is None or v == "T" else str(v)

    def put(self, v, items, s, **kw):
        return E(mem={(v[1], v[2]): (8, ("s", "v:" + items))}, **kw)

    def it(self, v, s):
        c = self.cell(v, s)
        return c if c is not None else v

    def other(self, d, i, av, s):
        m = re.search(r"^(?:void |cali::Entry& )?std::vector<cali::Entry, std::allocator<cali::Entry>>::(\w+|~vector|operator\[\])\W", d)
        if m and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][1].startswith("alloca"):
            k, o = m.group(1), av[0]
            if k == "vector":
                if len(av) > 1 and "vector(std::vector" in d:
                    return self.put(o, self.items(av[1], s) or "?", s)
                return self.put(o, "" if len(av) == 1 else "?", s)
            if k in ("push_back", "emplace_back"):
                old = self.items(o, s)
                new = self.content(av[1], s) if k == "push_back" or "emplace_back<cali::Entry" in d else "?"
                return self.put(o, ("?" if old is None else old + ";" + new), s)
            if k in ("reserve", "~vector", "size", "empty", "begin", "end", "data", "cbegin", "cend"):
                return E()
            if k == "clear":
                return self.put(o, "", s)
            return self.put(o, "?", s)
        m = re.search(r" std::vector<cali::Entry, std::allocator<cali::Entry>>::(\w+)[<(]", " " + d)
        if m and av and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][1].startswith("alloca") and m.group(1) not in ("begin", "end", "cbegin", "cend", "size", "data"):
            a, b, old = av[-2], av[-1], self.items(av[0], s)
            if m.group(1) == "insert" and old is not None and len(av) == 4 and all(isinstance(x, tuple) and x[0] == "p" and x[2] is not None for x in (a, b)) and a[1] == b[1]:
                return self.put(av[0], old + "".join(";%s+%d" % (a[1], x) for x in range(a[2], b[2], 24)), s)
            return self.put(av[0], "?", s)
        v = self.vec(i)
        if v:
            name, size, n = v
            m = re.search(r">::(\w+|operator\[\])\(", d)
            k = m.group(1) if m else ""
            if k in ("begin", "cbegin", "front", "data"):
                return E(("p", name, 0))
            if k in ("end", "cend"):
                return E(("p", name, size * n))
            if k == "size":
                return E(n)
            if k == "empty":
                return E(int(n == 0))
            if k in ("operator[]", "at"):
                return E(("p", name, size * av[1]) if isinstance(av[1], int) else "T")
            return E()
        m = re.search(r"normal_iterator<.*?>::(operator\*|operator->|operator\+\+|__normal_iterator|base)\(", d)
        if m and isinstance(av[0], tuple) and av[0][0] == "p":
            k = m.group(1)
            c = self.cell(av[0], s)
            if k == "__normal_iterator":
                w = self.cell(av[1], s) if len(av) > 1 else None
                return E(mem={(av[0][1], av[0][2]): (8, w if w is not None else "T")})
            if k == "operator++":
                size = [z for n, z, l in self.VECS.values() if isinstance(c, tuple) and c[0] == "p" and c[1] == n]
                if size and c[2] is not None:
                    return E(av[0] if len(av) == 1 else c, mem={(av[0][1], av[0][2]): (8, ("p", c[1], c[2] + size[0]))})
                return E(mem={(av[0][1], av[0][2]): (8, "T")})
            return E(c if c is not None else "T")
        m = re.search(r"__gnu_cxx::operator(==|!=)<", d)
        if m:
            a, b = self.it(av[0], s), self.it(av[1], s)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "p" and a[1] == b[1]:
                return E(int((a[2] == b[2]) == (m.group(1) == "==")))
            return E()
        m = re.search(r"\bstd::back_inserter<", d)
        if m:
            return E(av[0])
        m = re.search(r"\bstd::copy(_n)?<cali::Entry", d)
        if m and len(av) == 3:
            a, b, o = av
            if isinstance(o, tuple) and o[0] == "p" and o[1].startswith("alloca"):
                t = self.cell(o, s)
                if isinstance(t, tuple) and t[0] == "p":
                    o = t
                old = self.items(o, s)
                if isinstance(a, tuple) and a[0] == "p" and a[2] is not None and old is not None:
                    n = b if m.group(1) else (b[2] - a[2]) // 24 if isinstance(b, tuple) and b[0] == "p" and b[1] == a[1] and b[2] is not None else None
                    if isinstance(n, int):
                        return self.put(o, old + "".join(";%s+%d" % (a[1], a[2] + 24 * j) for j in range(n)), s, ret=o)
                return self.put(o, "?", s)
            return E()
        if re.search(r"^std::function<.*>::operator\(\)\(", d):
            it = self.items(av[2], s)
            return E(st=self.add(s, "deliver", it if it is not None else "?"))
        if re.search(r"^std::function<.*>::function\(std::function<.*(const&|&&)\)", d) and isinstance(av[0], tuple):
            v = self.cell(av[1], s)
            return E(mem={(av[0][1], av[0][2]): (8, v if v is not None else ("s", "fn:" + str(av[1][1])))})
        return E()


VL, EL = 2, 5     # sizes the model gives to an encoded number and an encoded entry


class Chunk(Rec):
    def __init__(self, p, f, off, chunks):
        self.plan, self.recs, mem = {}, [], {}
        for k, recs in enumerate(chunks):
            o, pos = "a0" if k == 0 else "K%d" % k, 0
            for n in recs:
                self.plan[("D%d" % k, pos)] = n
                self.recs.append("".join(";D%d+%d" % (k, pos + VL + EL * j) for j in range(n)))
                pos += VL + EL * n
            mem[(o, off["m_data"])] = (8, ("p", "D%d" % k, 0))
            mem[(o, off["m_pos"])] = (8, pos)
            mem[(o, off["m_nrec"])] = (8, len(recs))
            mem[(o, off["m_next"])] = (8, ("p", "K%d" % (k + 1), 0) if k + 1 < len(chunks) else 0)
        Tr.__init__(self, p, f, st0=(), mem=mem)

    def distinct(self, o):
        return re.match(r"[KD]\d+$", o)

    def adv(self, cell, by, s):
        c = self.cell(cell, s)
        if isinstance(c, int) and isinstance(cell, tuple):
            return {(cell[1], cell[2]): (8, c + by)}
        return {(cell[1], cell[2]): (8, "T")} if isinstance(cell, tuple) and cell[0] == "p" and cell[2] is not None else {}

    def named(self, d, i, av, s):
        if re.match(r"vldec_u64\b", d):
            n = self.plan.get((av[0][1], av[0][2])) if isinstance(av[0], tuple) and av[0][0] == "p" else None
            return E(n if n is not None else "T", mem=self.adv(av[1], VL, s), st=s.st if n is not None else self.add(s, "lost", str(av[0])))
        if re.search(r"Entry::unpack\(", d):
            b = av[2]
            t = "%s+%d" % (b[1], b[2]) if isinstance(b, tuple) and b[0] == "p" and b[2] is not None else "?"
            mem = self.adv(av[3], EL, s)
            mem[(av[0][1], av[0][2])] = (8, ("s", "e:" + t))
            return E(mem=mem)
        if re.search(r"TraceBufferChunk::flush\(", d):
            fn = self.cell(av[2], s)
            return E(st=self.add(s, "rest", av[0][1] if isinstance(av[0], tuple) and av[0][2] == 0 else "?", fn in (("s", "fn:a2"),) or av[2] == ("p", "a2", 0)))
        if re.search(r"~TraceBufferChunk\(", d):
            return E(st=self.add(s, "destroy", av[0][1] if isinstance(av[0], tuple) else "?"))
        if re.search(r"TraceBufferChunk::reset\(", d):
            return E(st=self.add(s, "destroy", av[0][1] if isinstance(av[0], tuple) else "?"))
        return None


def chunk(ck, p):
    off = {x: field(p, "trace::TraceBufferChunk", x) for x in ("m_data", "m_pos", "m_nrec", "m_next", "m_size")}
    f = ck.need(fns(p, r"^trace::TraceBufferChunk::flush\("), "TraceBufferChunk::flush")[0]
    g = inl(p, f, NOINL + [r"Entry::(un)?pack", r"vl(dec|enc)_u64"], root=r"^trace::TraceBufferChunk::flush[(]")
    for chunks in ([[]], [[1]], [[2, 1]], [[0, 2]], [[1, 2, 1]], [[], [1]], [[1], [2]], [[1, 1], [0, 1]], [[1], [1], [2]]):
        r = Chunk(p, g, off, chunks)
        try:
            r.run()
        except Limit:
            ck.count("not decided", 1)
            continue
        bad, und = set(), False
        for st in traces(r):
            got = [e[1] for e in st if e[0] == "deliver"]
            rest = [e for e in st if e[0] == "rest"]
            n = len(chunks)
            if rest:
                if len(rest) > 1 or not re.match(r"K\d$", rest[0][1]) or st[-1] != rest[0]:
                    bad.add("chunks after the first are flushed %d times" % len(rest))
                    continue
                if not rest[0][2]:
                    und = True
                n = int(rest[0][1][1:])
            want = ["".join(";D%d+%d" % (k, q) for q in w) for k, w in self_recs(chunks[:n])]
            if any("?" in x for x in got):
                und = True
            elif got != want:
                bad.add("entries delivered: %s; recorded: %s" % (got, want))
            if any(e[0] == "lost" for e in st) and not bad:
                bad.add("reads at a position where no record starts")
        if und and not bad:
            ck.count("not decided", 1)
            continue
        ck.decide(not bad, "record for record", "trace buffer with records of %s entries" % chunks, where(f), "; ".join(sorted(bad))[:300])
    # saving
    f = ck.need(fns(p, r"^trace::TraceBufferChunk::save_snapshot\("), "TraceBufferChunk::save_snapshot")[0]
    g = inl(p, f, NOINL + [r"Entry::(un)?pack", r"vl(dec|enc)_u64"], root=r"^trace::TraceBufferChunk::save_snapshot[(]")
    for n in (0, 1, 2, 3):
        r = Save(p, g, off, n)
        try:
            r.run()
        except Limit:
            ck.count("not decided", 1)
            continue
        bad = set()
        for ins, rv, st, mem, facts in r.exits:
            if ins.op != "ret":
                continue
            pos, nrec = mem.get(("a0", off["m_pos"])), mem.get(("a0", off["m_nrec"]))
            want = ((("size", n, "D0", 100),) + tuple(("entry", "S", 24 * k, "D0", 100 + VL + EL * k) for k in range(n))) if n else ()
            if st != want:
                bad.add("writes " + show({st}))
            if (pos[1], nrec[1]) != ((100 + VL + EL * n, 8) if n else (100, 7)):
                bad.add("position %s after, %s records" % (pos[1], nrec[1]))
        ck.decide(not bad, "record for record", "trace buffer: saving a record of %d entries" % n, where(f), "; ".join(sorted(bad))[:300])
    # emptying
    f = ck.need(fns(p, r"^trace::TraceBufferChunk::reset\("), "TraceBufferChunk::reset")[0]
    g = inl(p, f, NOINL + [r"~TraceBufferChunk"], root=r"^trace::TraceBufferChunk::reset[(]")
    for n in (1, 2):
        r = Chunk(p, g, off, [[1]] * n)
        r.run()
        bad = set()
        for ins, rv, st, mem, facts in r.exits:
            if ins.op != "ret":
                continue
            v = {x: mem.get(("a0", off[x]), (8, "T"))[1] for x in ("m_pos", "m_nrec", "m_next")}
            if v["m_pos"] != 0 or v["m_nrec"] != 0:
                bad.add("position %s, %s records" % (v["m_pos"], v["m_nrec"]))
            if v["m_next"] != 0 and ("destroy", "K1") not in st:
                bad.add("the next chunk is kept")
            if v["m_next"] != 0 and any(e[0] == "destroy" for e in st) and "reset" not in g.dem:
                bad.add("the next chunk is deleted and kept")
        ck.decide(not bad, "emptied", "trace buffer of %d chunks" % n, where(f), "; ".join(sorted(bad))[:300])


def self_recs(chunks):
    for k, recs in enumerate(chunks):
        pos = 0
        for n in recs:
            yield k, [pos + VL + EL * j for j in range(n)]
            pos += VL + EL * n


class Save(Tr):
    def __init__(self, p, f, off, n):
        Tr.__init__(self, p, f, st0=(), params={1: ("p", "S", 0), 2: n}, mem={
            ("a0", off["m_data"]): (8, ("p", "D0", 0)), ("a0", off["m_pos"]): (8, 100), ("a0", off["m_nrec"]): (8, 7), ("a0", off["m_size"]): (8, 100000), ("a0", off["m_next"]): (8, 0)})

    def named(self, d, i, av, s):
        if re.match(r"vlenc_u64\b", d):
            return E(VL, st=self.add(s, "size", av[0], *(av[1][1:] if isinstance(av[1], tuple) else ("?",))))
        if re.search(r"Entry::pack\(", d):
            return E(EL, st=self.add(s, "entry", *((av[0][1:] if isinstance(av[0], tuple) else ("?",)) + (av[1][1:] if isinstance(av[1], tuple) else ("?",)))))
        return None


class Agg(Rec):
    """an aggregation database: entries are (count, key length, (kernel counts...))"""

    def __init__(self, p, f, off, entries):
        self.off = off
        nk = sum(len(e[2]) for e in entries)
        self.VECS = {"m_entries": ("ENT", off["ent"], len(entries)), "m_keyents": ("KEY", 24, 99), "m_kernels": ("KER", off["ker"], nk), "result_attrs": ("RES", off["res"], 9), "aggr_attrs": ("AGA", 8, 9)}
        mem, kpos, epos = {}, 0, 0
        self.want = []
        for k, (c, kl, kers) in enumerate(entries):
            b = k * off["ent"]
            for x, v in (("count", c), ("key_idx", epos), ("key_len", kl), ("kernels_idx", kpos), ("num_kernels", len(kers)), ("next_entry_idx", 0)):
                mem[("ENT", b + off[x])] = (8, v)
            keys = ["KEY+%d" % (24 * (epos + j)) for j in range(kl)]
            vals = []
            for a, kc in enumerate(kers):
                q = (kpos + a) * off["ker"]
                mem[("KER", q + off["kcount"])] = (4, kc)
                for x in ("min", "max", "sum"):
                    mem[("KER", q + off["k" + x])] = (8, ("s", "ty"))
                    mem[("KER", q + off["k" + x] + 8)] = (8, ("s", "%s%d" % (x, kpos + a)))
                    if kc:
                        vals.append((a, x, str(("s", "%s%d" % (x, kpos + a)))))
            if c:
                self.want.append((keys, vals, c))
            kpos += len(kers)
            epos += kl
        for a in range(9):
            for x in ("min", "max", "sum", "avg"):
                mem[("RES", a * off["res"] + off["r" + x])] = (8, ("s", "attr:%s%d" % (x, a)))
        mem[("a1", off["count_attr"])] = (8, ("s", "attr:count"))
        mem[("a1", off["slot_attr"])] = (8, ("s", "attr:slot"))
        Tr.__init__(self, p, f, st0=(), mem=mem)

    def distinct(self, o):
        return o in ("ENT", "KEY", "KER", "RES", "AGA")


def aggdb(ck, p):
    import itertools
    D = "aggregate::"
    off = {"ent": 48, "ker": 56, "res": 32}
    try:
        for x in ("count", "key_idx", "key_len", "kernels_idx", "num_kernels", "next_entry_idx"):
            off[x] = field(p, D + "AggregateEntry", x)
        for x in ("min", "max", "sum", "count"):
            off["k" + x] = field(p, D + "AggregateKernel", x)
        for x in ("min", "max", "sum", "avg"):
            off["r" + x] = field(p, D + "ResultAttributes", x + "_attr")
        for x in ("count_attr", "slot_attr"):
            off[x] = field(p, D + "AttributeInfo", x)
    except Exception:
        ck.count("not decided", 1)
        return
    f = ck.need(fns(p, r"^aggregate::AggregationDB::flush\("), "AggregationDB::flush")[0]
    g = inl(p, f, NOINL + [r"Variant::div"], root=r"^aggregate::AggregationDB::flush[(]")
    cases = [[], [(0, 1, ())], [(3, 1, ())], [(0, 1, ()), (7, 2, ())], [(0, 1, ()), (7, 0, ()), (0, 2, ()), (9, 1, ())],
             [(4, 1, ()), (7, 2, (5,))], [(0, 1, ()), (7, 1, (5, 0)), (8, 1, (0, 6))], [(0, 1, ()), (1, 3, (0, 2, 1))], [(2, 1, ()), (1, 1, ()), (1, 1, ())]]
    for ents in cases:
        r = Agg(p, g, off, ents)
        try:
            r.run()
        except Limit:
            ck.count("not decided", 1)
            continue
        bad, und = set(), False
        for st in traces(r):
            got = [e[1] for e in st if e[0] == "deliver"]
            if any(x == "?" or x.startswith("?") for x in got):
                und = True
                continue
            if len(got) != len(r.want):
                bad.add("%d records delivered" % len(got))
                continue
            for x, (keys, vals, c) in zip(got, r.want):
                its = [y for y in x.split(";") if y]
                ks = [y for y in its if y.startswith("KEY")]
                rest = [re.match(r"<(.*?)=(.*)>$", y) for y in its if not y.startswith("KEY")]
                if any(y is None or y.group(1) == "?" for y in rest):
                    und = True
                    continue
                kv = {}
                for y in rest:
                    kv.setdefault(y.group(1), []).append(y.group(2))
                if sorted(ks) != sorted(keys):
                    bad.add("key entries %s instead of %s" % (ks, keys))
                if kv.get(str(("s", "attr:count"))) != [str(c)]:
                    bad.add("a record seen %d times is reported with count %s" % (c, kv.get(str(("s", "attr:count")))))
                for q in ("min", "max", "sum"):
                    for a in range(9):
                        w = [v for b, z, v in vals if (b, z) == (a, q)]
                        h = kv.get(str(("s", "attr:%s%d" % (q, a))), [])
                        if h == ["?"] and w:
                            und = True
                        elif h != w:
                            bad.add("%s of attribute %d: %s instead of %s" % (q, a, h, w))
        if und and not bad:
            ck.count("not decided", 1)
            continue
        ck.decide(not bad, "record for record", "aggregation buffer with (count, key length, value counts) %s" % ents, where(f), "; ".join(sorted(bad))[:300])
    # emptying returns to the constructed state
    f = ck.need(fns(p, r"^aggregate::AggregationDB::clear\("), "AggregationDB::clear")[0]
    c0 = ck.need(fns(p, r"^aggregate::AggregationDB::AggregationDB\("), "AggregationDB::AggregationDB")[0]
    res = []
    for h in (c0, f):
        g = inl(p, h, NOINL, root=r"^aggregate::AggregationDB::%s[(]" % h.dem.split("(")[0].split("::")[-1])
        r = Shape(p, g, off, h is c0)
        r.run()
        res.append({st for st in traces(r)})
    built, cleared = res
    und = any("?" in str(x) for st in built | cleared for x in st)
    if und or not built or not cleared:
        ck.count("not decided", 1)
        return
    b = {tuple(sorted(st)) for st in built}
    c = {tuple(sorted(st)) for st in cleared}
    ck.decide(c <= b and c, "emptied", "aggregation buffer", where(f), "as made: %s; after clearing: %s" % (show({tuple(x) for x in b}), show({tuple(x) for x in c})))


class Shape(Tr):
    """the sizes of the vectors of an aggregation database and the state of the first entry, as the state ((name, value), ...)"""
    VS = {"m_entries": None, "m_keyents": None, "m_kernels": None, "m_hashmap": None}

    def __init__(self, p, f, off, made):
        self.off, self.made = off, made
        n = 0 if made else 5
        st = (("first count", "unset" if made else "5"), ("m_entries", n), ("m_hashmap", "unset" if made else "used"), ("m_kernels", n), ("m_keyents", n))
        Tr.__init__(self, p, f, st0=st, mem={})

    def upd(self, s, k, v):
        d = dict(s.st)
        d[k] = v
        return tuple(sorted(d.items()))

    def stored(self, i, ptr, v, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1] == "ENT" and ptr[2] == self.off["count"]:
            return self.upd(s, "first count", str(v) if isinstance(v, int) else "?")
        return None

    def named(self, d, i, av, s):
        m = re.search(r"std::vector<.*>::(\w+|~vector|operator\[\])(<.*>)?\(", d)
        if not m or not i.args:
            return None
        pa = self.fn.path(i.args[0])
        nm = [k for k in self.VS if pa.endswith("::" + k)]
        if not nm:
            return None
        nm, k = nm[0], m.group(1)
        n = dict(s.st)[nm]
        if k in ("reserve", "vector", "~vector"):
            return E()
        if k == "size" and nm != "m_hashmap":
            return E(n if isinstance(n, int) else "T")
        if nm == "m_hashmap":
            if k == "assign":
                z = self.cell(av[2], s)
                return E(st=self.upd(s, nm, "zero" if z == 0 else "?"))
            if k == "size":
                return E()
            return E(st=self.upd(s, nm, "?"))
        if k in ("operator[]", "at", "front", "back", "data"):
            a = av[1] if len(av) > 1 else 0 if k in ("front", "data") else None
            return E(("p", "ENT", self.off["ent"] * a) if nm == "m_entries" and isinstance(a, int) else "T")
        if k in ("push_back", "emplace_back") and isinstance(n, int):
            st = self.upd(s, nm, n + 1)
            if nm == "m_entries" and n == 0:
                c = self.cell(av[1], s, self.off["count"])
                st = tuple(sorted({**dict(st), "first count": str(c) if isinstance(c, int) else "?"}.items()))
            return E(st=st)
        if k == "resize":
            st = self.upd(s, nm, av[1] if isinstance(av[1], int) else "?")
            if nm == "m_entries" and n == 0 and len(av) == 2:
                st = tuple(sorted({**dict(st), "first count": "?"}.items()))
            return E(st=st)
        if k == "clear":
            return E(st=self.upd(s, nm, 0))
        return E(st=self.upd(s, nm, "?"))


# ---- receivers of records
SINK = r"(QueryProcessor::process_record|CaliWriter::write_snapshot|Aggregator::add|Formatter::process_record|FormatProcessor::process_record|RegionProfile\w*::operator\(\))\("


class Sink(Tr):
    """trace of filter questions and of what is handed to a consumer"""

    def __init__(self, p, f, passes):
        self.passes = passes
        Tr.__init__(self, p, f, st0=())

    def keep_event(self, i, av, s):
        return self.event(i, av, s) == "process_snapshot"

    def named(self, d, i, av, s):
        if re.search(r"RecordSelector::(pass|operator\(\))\(", d):
            return E(self.passes, st=self.add(s, "filter"))
        if re.search(SINK, d):
            return E(st=self.add(s, "deliver"))
        if "Preprocessor::process" in d:
            return E(st=self.add(s, "preprocess"))
        return None

    def event(self, i, av, s):
        e = Tr.event(self, i, av, s)
        return e

    def call(self, i, av, s):
        d = dem(self.fn, i)
        if "callback<" in d and "operator()" in d:
            return E(st=self.add(s, "deliver") if self.event(i, av, s) == "process_snapshot" else s.st)
        return Tr.call(self, i, av, s)


def sinks(ck, p):
    n = 0
    for f in p.functions():
        m = re.match(r"(.*)::(\$_\d+|'lambda\d*'\(.*?\))::operator\(\)\(cali::CaliperMetadataAccessInterface&, std::vector<cali::Entry, std::allocator<cali::Entry>> const&\)", f.dem)
        if not m or not f.blocks or "/test/" in f.rel() or "/tools/" in f.rel() or f.dem.startswith("cali::Caliper::flush("):
            continue
        g = inl(p, f, NOINL + [r"QueryProcessor::", r"CaliWriter::", r"Aggregator::", r"Preprocessor::", r"RecordSelector::", r"Formatter::", r"CaliperMetadataDB::", r"FormatProcessor::", r"MPI_"],
                root="^" + re.escape(f.dem).replace("'", ".").replace("\\$", "[$]").replace("\\ ", " ").replace("\\&", "&").replace("\\,", ",").replace("\\<", "<").replace("\\>", ">"))
        ds = [dem(g, i) for i in g.ins if i.is_call and i.callee]
        if not any(re.search(SINK, d) or "callback<" in d and "operator()" in d for d in ds):
            continue
        for passes in (0, 1):
            try:
                got = traces(Sink(p, g, passes).run())
            except Limit:
                ck.count("not decided", 1)
                continue
            filt = any("RecordSelector::" in d for d in ds)
            if not filt and not passes:
                continue
            want = ("deliver",) if passes else ()
            bad = {t for t in got if tuple(e[0] for e in t if e[0] == "deliver") != want}
            n += 1
            ck.decide(got and not bad, "receivers", "record callback in %s%s" % (m.group(1).split("(")[0] or "?", "" if not filt else ", record %s" % ("passes the filter" if passes else "is filtered out")),
                      where(f), "possible sequences: " + show(bad))
    ck.count("receivers of records", n)


# ---- requests to flush
class Api(Tr):
    """trace of output requests; channels exist or not, the flag is set or not"""

    def __init__(self, p, f, case, **kw):
        self.case = case
        Tr.__init__(self, p, f, st0=(), **kw)

    def call(self, i, av, s):
        d = dem(self.fn, i)
        m = re.search(r"Caliper::(flush_and_write|clear|finalize|flush)\(", d)
        if m:
            return E(st=self.add(s, m.group(1)))
        m = re.search(r"ConfigManager::(flush)\(|ChannelController::(flush)\(", d)
        if m:
            return E(st=self.add(s, "flush configurations"))
        if re.search(r"Caliper::set\(", d):
            return E(st=self.add(s, "set"))
        if re.search(r"(Variant::to_bool|cali_variant_to_bool)\b", d):
            return E(self.case.get("flag", "T"))
        if re.search(r"Channel::operator bool\(|shared_ptr<.*>::operator bool\(|::operator bool\(\) const", d) and "Channel" in d:
            return E(self.case["channel"])
        if re.search(r"Channel::is_active\(", d):
            return E(self.case.get("active", "T"))
        return Tr.call(self, i, av, s)


NOAPI = NOINL + [r"Caliper::Caliper", r"Caliper::(get|set)\(", r"ConfigManager::", r"Variant::to_bool", r"cali_variant_to_bool", r"Channel::operator bool", r"ChannelController::channel\("]


def requests(ck, p):
    for pat, byid in ((r"^cali_flush$", 0), (r"^cali_channel_flush$", 1)):
        f = ck.need(fns(p, pat), pat)[0]
        g = inl(p, f, NOAPI, root=pat)
        for chan in (0, 1):
            for opts in (0, 1):
                r = Api(p, g, {"channel": chan}, params={byid: opts})
                got = traces(r.run())
                want = () if not chan else (("flush_and_write",),) + ((("clear",),) if opts else ())
                ck.decide(got == {want}, "requests", "%s, channel %s, %s" % (f.dem, "known" if chan else "unknown", "clear" if opts else "keep"), where(f), "possible sequences: %s" % show(got))
    f = ck.need(fns(p, r"^cali::ChannelController::flush\("), "ChannelController::flush")[0]
    g = inl(p, f, NOAPI)
    for chan in (0, 1):
        got = traces(Api(p, g, {"channel": chan}).run())
        want = (("flush_and_write",),) if chan else ()
        ck.decide(got == {want}, "requests", "ChannelController::flush, channel %s" % ("created" if chan else "not created"), where(f), "possible sequences: %s" % show(got))
    # the built-in configuration manager writes once
    for f in fns(p, r"^cali::internal::init_builtin_configmanager\(.*::operator\(\)\("):
        if "const" in f.dem.split(")")[-1]:
            pass
        g = inl(p, f, NOAPI, root=r"^cali::internal::init_builtin_configmanager[(].*::operator[(][)][(]")
        for flag in (0, 1):
            got = traces(Api(p, g, {"channel": 1, "flag": flag}).run())
            want = () if flag else (("flush configurations",), ("set",))
            ck.decide(got == {want}, "requests", "CALI_CONFIG output, %s" % ("already written" if flag else "not written yet"), where(f), "possible sequences: %s" % show(got))


def pairs(ck, p):
    """services that deliver their own records can be cleared"""
    import services
    n = 0
    for m in p.mods.values():
        if "/test/" in m.rel or not m.rel.startswith("src/"):
            continue
        by = {}
        for f, evt, tgt, ins in services.registrations(p, m):
            by.setdefault(f.name, (f, set()))[1].add(evt)
        for f, evts in by.values():
            if "flush_evt" in evts:
                n += 1
                ck.decide("clear_evt" in evts, "flush and clear", re.sub(r"\(.*?\)::", "", f.dem.split("(")[0] if not f.dem.startswith("(") else f.dem[f.dem.index("::") + 2:].split("(")[0]), where(f), "delivers records on flush but is not told when the channel is cleared")
    ck.floor("flush and clear", n, 2)


# ---- saving a record: the thread's buffer, overflow
PTR = 9     # CALI_TYPE_PTR


class Own(Bufs):
    """process_snapshot / thread start / thread end of a buffering service; the thread's own buffer is N0 or none"""

    def __init__(self, p, f, svc, node, n, off, case, **kw):
        self.case = case
        Bufs.__init__(self, p, f, svc, node, (0,) * n, off)
        for k, v in kw.get("cells", {}).items():
            self.mem0[k] = v
        if n:
            self.mem0[("N0", off["stopped"])] = (1, case.get("stopped", 0))
        self.params = kw.get("params", {})

    def distinct(self, o):
        return re.match(r"[NBC]\d+$", o)

    def which(self, v):
        if isinstance(v, tuple) and v[0] == "p" and v[1] in ("B8", "B9") and v[2] == 0:
            return int(v[1][1:])
        return Bufs.which(self, v)

    def call(self, i, av, s):
        d = dem(self.fn, i)
        if re.search(r"Caliper::is_signal\(", d):
            return E(self.case.get("signal", 0))
        if re.search(r"Caliper::get_blackboard_entry\(", d):
            a = av[0]
            have = self.case["own"]
            return E(mem={(a[1], a[2]): (8, 0), (a[1], a[2] + 8): (8, PTR if have else 0), (a[1], a[2] + 16): (8, ("p", "N0", 0) if have else 0)})
        if d.startswith("operator new"):
            size = av[0]
            if size == self.off["size"]:
                return E(("p", "N9", 0))
            if size == self.off.get("bufsize"):
                b = "B8" if any(e == ("made", 9) for e in s.st) else "B9"
                return E(("p", b, 0), st=s.st + (("made", int(b[1:])),))
            return E()
        m = re.match(r"std::atomic<bool>::atomic\(bool\)", d)
        if m and isinstance(av[0], tuple) and av[0][0] == "p" and av[0][2] is not None:
            return E(mem={(av[0][1], av[0][2]): (1, av[1])})
        if re.search(r"Caliper::set\(", d):
            return E(st=s.st + (("own buffer", self.cell(av[2], s, 8)),))
        m = re.search(r"Caliper::(flush_and_write|clear|flush)\(", d)
        if m:
            return E(st=s.st + ((m.group(1), self.fn.path(i.args[1]).split("/")[-1].split("::")[-1] if i.args[1].startswith("%") else "?"),))
        m = re.search(r"TraceBufferChunk::(fits|append|save_snapshot|TraceBufferChunk)\(|AggregationDB::(process_snapshot)\(", d)
        if m:
            k = m.group(1) or m.group(2)
            if k == "fits":
                b = self.which(av[0])
                full = b == 0 and not self.case.get("fits", 1) and not any(e[0] == "clear" for e in s.st)
                return E(0 if full else 1)
            if k == "TraceBufferChunk":
                return E()
            if k == "append":
                return E(st=s.st + (("append", self.which(av[0]), self.which(av[1])),))
            return E(st=s.st + (("save", self.which(av[0])),))
        return Bufs.call(self, i, av, s)


def linked(mem, off, n):
    """the list from the service object in order with correct back links; None when broken or unresolved"""
    out, v, prev = [], mem.get(("a0", off["list"]), (8, "T"))[1], 0
    while v != 0:
        if not (isinstance(v, tuple) and v[0] == "p" and re.match(r"N\d+$", v[1]) and v[2] == 0) or len(out) > n:
            return None
        b = mem.get((v[1], off["prev"]), (8, 0))[1]
        if b != prev:
            return None
        out.append(int(v[1][1:]))
        prev, v = v, mem.get((v[1], off["next"]), (8, "T"))[1]
    return out


def saving(ck, p):
    for svc, rel, cls, node, lst, buf, obj, kind in BUFS:
        pre = "(anonymous namespace)::" + cls
        sub = pre + "::" + node
        try:
            off = {"list": field(p, pre, lst), "ptr": svc == "trace", "buf": field(p, sub, buf)}
            for x in ("stopped", "retired", "next", "prev"):
                off[x] = field(p, sub, x)
            pol = field(p, pre, "policy") if svc == "trace" else None
        except Exception:
            ck.count("not decided", 1)
            continue
        enums = policies(p, rel) if svc == "trace" else {}
        fs = [f for f in fns(p, r"^\(anonymous namespace\)::%s::process_snapshot_cb\(" % cls) if f.mod.rel == rel]
        f = ck.need(fs, cls + "::process_snapshot_cb")[0]
        g = inl(p, f, NOINL + [r"TraceBufferChunk::", r"AggregationDB::", r"Caliper::"], root=r"^.anonymous namespace.::%s::process_snapshot_cb[(]" % cls)
        off["size"], off["bufsize"] = sizes(g)
        # own buffer: first of the list when it exists
        cases = []
        for own in (0, 1):
            for sig in (0, 1):
                for n in (0, 1, 2):
                    if own and not n:
                        continue
                    for stopped in ((0, 1) if own else (0,)):
                        for fits, po in ((1, None),) + (tuple((0, k) for k in enums) if own and not stopped and svc == "trace" else ()):
                            cases.append((own, sig, n, stopped, fits, po))
        for own, sig, n, stopped, fits, po in cases:
            r = Own(p, g, svc, node, n, off, {"own": own, "signal": sig, "stopped": stopped, "fits": fits}, cells={("a0", pol): (4, enums[po])} if po else {})
            try:
                r.run()
            except Limit:
                ck.count("not decided", 1)
                continue
            bad, und = set(), False
            for ins, rv, st, mem, facts in r.exits:
                if ins.op != "ret":
                    continue
                saves = [e[1] for e in st if e[0] == "save"]
                lost = [e for e in st if e[0] in ("flush", "reset", "delete")]
                if "?" in saves or any("?" in e for e in st):
                    und = True
                    continue
                li = linked(mem, off, n + 1)
                old = list(range(n))
                if lost:
                    bad.add("removes data: %s" % show({tuple(lost)}))
                if not own and sig or stopped:
                    if saves:
                        bad.add("saves while recording is off")
                    if li != old:
                        bad.add("list of buffers %s" % li)
                    continue
                if not own:
                    if li is None or sorted(li) != sorted(old + [9]):
                        bad.add("list of buffers %s" % li)
                    if ("own buffer", ("p", "N9", 0)) not in st:
                        bad.add("the thread does not remember its buffer")
                    c = mem.get(("N9", off["buf"]), (8, "?"))[1] if svc == "trace" else None
                    if svc == "trace" and (saves != [9] or c != ("p", "B9", 0)) or svc != "trace" and len(saves) != 1:
                        bad.add("saves %s" % saves)
                    continue
                if li != old:
                    bad.add("list of buffers %s" % li)
                acts = [e for e in st if e[0] in ("flush_and_write", "clear", "append")]
                if fits:
                    if saves != [0] or acts:
                        bad.add("saves to %s after %s" % (saves, show({tuple(acts)})))
                elif po == "Grow":
                    head = mem.get(("N0", off["buf"]), (8, "?"))[1]
                    ok = saves and len(saves) == 1 and saves[0] in (8, 9) and len(acts) == 1 and (
                        acts[0] == ("append", saves[0], 0) and head == ("p", "B%d" % saves[0], 0) or acts[0] == ("append", 0, saves[0]) and head == ("p", "B0", 0))
                    if not ok:
                        bad.add("saves to %s after %s" % (saves, show({tuple(acts)})))
                elif po == "Flush":
                    if saves != [0] or [e[0] for e in acts] != ["flush_and_write", "clear"]:
                        bad.add("saves to %s after %s" % (saves, show({tuple(acts)})))
                elif po == "Stop":
                    if saves or acts or mem.get(("N0", off["stopped"]), (1, 0))[1] != 1:
                        bad.add("saves to %s after %s, recording goes on: %s" % (saves, show({tuple(acts)}), mem.get(("N0", off["stopped"]))))
            if und and not bad:
                ck.count("not decided", 1)
                continue
            what = "%s service: record %s, %d buffers%s%s%s" % (svc, "from a signal" if sig else "", n, ", first of the thread" if not own else "", ", stopped" if stopped else "", ", full, policy %s" % po if po else "")
            ck.decide(not bad, "every record", what.replace(" ,", ","), where(f), "; ".join(sorted(bad))[:300])
        # the end of a thread marks its buffer, and only that
        fs = [f for f in fns(p, r"^\(anonymous namespace\)::%s::release_thread_cb\(" % cls) if f.mod.rel == rel]
        for f in fs:
            g = inl(p, f, NOINL + [r"TraceBufferChunk::", r"AggregationDB::", r"Caliper::"], root=r"^.anonymous namespace.::%s::release_thread_cb[(]" % cls)
            for own, n in ((0, 0), (0, 2), (1, 1), (1, 2)):
                r = Own(p, g, svc, node, n, off, {"own": own})
                r.run()
                bad = set()
                for ins, rv, st, mem, facts in r.exits:
                    if ins.op != "ret":
                        continue
                    ret = [mem.get(("N%d" % k, off["retired"]), (1, 0))[1] for k in range(n)]
                    if "T" in ret:
                        continue
                    if ret != [int(own and k == 0) for k in range(n)] or linked(mem, off, n) != list(range(n)) or any(e[0] in ("flush", "reset", "delete") for e in st):
                        bad.add("buffers marked: %s, list: %s" % (ret, linked(mem, off, n)))
                ck.decide(not bad, "every record", "%s service: end of a thread %s buffer, %d buffers" % (svc, "with" if own else "without", n), where(f), "; ".join(sorted(bad))[:300])


def sizes(g):
    """what operator new is asked for: the list node first, then the buffer"""
    out = []
    for i in g.ins:
        if i.is_call and i.callee and dem(g, i).startswith("operator new"):
            v = i.args[0]
            if re.match(r"#\d+$", str(v)) and int(v[1:]) not in out:
                out.append(int(v[1:]))
    return (out + [None, None])[:2]


def policies(p, rel):
    src = open(os.path.join(build.REPO, rel)).read()
    m = re.search(r"enum\s+(?:class\s+)?BufferPolicy[^{]*\{([^}]*)\}", src)
    out = {}
    if m:
        for k, x in enumerate(m.group(1).split(",")):
            out[x.split("=")[0].strip()] = k
    return {k: v for k, v in out.items() if k}


def body(ck):
    ck.rule("flush protocol", "flushing a channel announces the flush, delivers its records and announces the end, each exactly once, in this order, to the channel flushed")
    ck.rule("post-processing", "each record is post-processed on a copy and then handed on exactly once")
    ck.rule("output protocol", "writing output reads all three blackboards and notifies the output services exactly once")
    ck.rule("clear is own", "clearing addresses only the channel cleared")
    ck.rule("finish protocol", "finalization writes each channel that asks for it exactly once before it deletes it, and deletes every channel exactly once")
    ck.rule("every way out", "whichever of thread end, program end and release comes first finalizes the runtime once, with thread data to work on; later ones do nothing")
    ck.rule("every buffer", "flushing a service delivers every thread buffer exactly once and keeps it; clearing empties every buffer, removes exactly those of finished threads, and recording goes on")
    ck.rule("record for record", "what is saved is delivered once, entry for entry, and nothing else")
    ck.rule("emptied", "an emptied buffer holds no record and is as it was when it was made")
    ck.rule("receivers", "whoever asks for a channel's records hands each one on exactly once, unless its filter rejects it")
    ck.rule("requests", "a request to flush writes the channel's output once, before it clears, and clears only when asked to")
    ck.rule("flush and clear", "a service that delivers records of its own forgets them when the channel is cleared")
    ck.rule("every record", "a record is saved once in the buffer of its thread, which is on the list of buffers, and what was recorded before stays or has been written; a finished thread's buffer is marked and kept")
    p = P.program()
    for step in (flush, write, finish, exits, buffers, chunk, aggdb, saving, sinks, requests, pairs):
        try:
            step(ck, p)
        except Limit:
            ck.count("not decided", 1)
