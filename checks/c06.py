"""C06: channel activation, isolation and removal."""
import itertools, re
import flow, loops, prog, services, vcalls
from absint import AbsInt, E

TITLE = "only active channels observe events and record snapshots"
TECHNIQUE = ("guard analysis over the reverse call graph from every channel-addressed notification to its asynchronous sources, loop-structure "
             "analysis of the notifications to all channels, and path-sensitive abstract interpretation of activation and removal")
NOTE = ("services whose library is absent from the build (CUPTI, ROCm, PAPI, Umpire, libpfm) are not analysed; which channel an activation test "
        "looks at is matched by its variable only")

SINK = re.compile(r"^cali::Caliper::(push_snapshot|push_snapshot_replace)\(cali::ChannelBody\*|^cali::Caliper::(memory_region_begin|memory_region_end|begin|end|set)\(cali::ChannelBody\*")
# events that are only raised for an active channel
GATED = {"pre_begin_evt", "post_begin_evt", "pre_set_evt", "pre_end_evt", "async_event", "track_mem_evt", "untrack_mem_evt", "snapshot", "process_snapshot"}
TOALL = {"create_attr_evt", "create_thread_evt", "release_thread_evt"}
NOINL = [r"^(void |bool )?cali::util::callback<.*>::(operator\(\)|empty)", r"^std::", r"^[a-z ]*__gnu_cxx::", r"cali::Log::", r"siglock::", r"Channel::(operator|Channel)", r"Caliper::flush_and_write",
         r"^[a-z:_ ]*& std::", r"^bool std::", r"^void std::", r"Caliper::(create_attribute|set|begin|end)\("]
EXC = {"create_channel", "finalize"}


class Active:
    """which branch edges and return values imply 'the channel is active'"""
    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.busy = set()

    def is_test(self, f, v, depth=0):
        """value v (i1/int) is true only if an is_active() test succeeded"""
        v, pol = flow.norm_cond(f, v)
        i = f.get(v)
        if i is None or not pol and not (i.op.startswith("icmp.") and i.a[1] == "#0"):
            return v == "#0" and pol
        if i.op.startswith("icmp."):
            if i.a[1] == "#0" and (i.op == "icmp.ne") == pol:
                return self.is_test(f, i.a[0], depth + 1)
            return False
        if i.op in ("zext", "trunc", "freeze"):
            return self.is_test(f, i.a[0], depth + 1)
        if i.op == "load":
            return f.path(i.a[0]).endswith("is_active")
        if i.op == "and":
            return any(self.is_test(f, a, depth + 1) for a in i.a)
        if i.op == "select":
            return i.a[2] == "#0" and (self.is_test(f, i.a[0], depth + 1) or self.is_test(f, i.a[1], depth + 1))
        if i.op == "phi" and depth < 12:
            if f.key in self.busy:
                return all(a == "#0" or self.is_test(f, a, depth + 1) for a in i.a)
            self.busy.add(f.key)
            fr = reach(f, self)
            self.busy.discard(f.key)
            return all(a == "#0" or self.is_test(f, a, depth + 1) or not fr.reaches(b) for a, b in zip(i.a, i.x))
        if i.is_call and i.callee:
            d = self.p.dem(i.callee)
            if re.search(r"::is_active\(", d):
                return True
            t = self.p.target(i)
            return t is not None and depth < 6 and self.test_fn(t)
        return False

    def test_fn(self, f):
        if f.key in self.memo:
            return self.memo[f.key]
        self.memo[f.key] = False
        rs = [i for i in f.ins if i.op == "ret" and i.a]
        r = bool(rs)
        fr = None
        for i in rs:
            if self.is_test(f, i.a[0]):
                continue
            r = False
        self.memo[f.key] = r
        return r


class reach:
    """blocks reachable from entry without an edge that implies activity"""
    def __init__(self, f, act):
        self.f = f
        seen, wl = set(), [0]
        while wl:
            b = wl.pop()
            if b in seen:
                continue
            seen.add(b)
            t = f.blocks[b][-1]
            for k, s in enumerate(f.succ[b]):
                if t.op == "br" and len(f.succ[b]) == 2 and f.succ[b][0] != f.succ[b][1]:
                    v, pol = flow.norm_cond(f, t.a[0])
                    c = f.get(v)
                    if c is not None and c.op in ("icmp.eq", "icmp.ne") and c.a[1] == "#0":
                        v, pol = c.a[0], pol == (c.op == "icmp.ne")
                    if k == (0 if pol else 1) and act.is_test(f, v):
                        continue
                wl.append(s)
        self.seen = seen

    def reaches(self, b):
        return b in self.seen


def body(ck):
    p = prog.program()
    ck.rule("source is gated", "code that addresses a channel's services from outside the runtime's own event delivery (signal handler, thread, interception "
                               "or tool callback, lifecycle callback) tests that the channel is active on every path to the notification")
    ck.rule("delivered to all", "attribute and thread lifecycle events go to every existing channel, async and memory events to every active channel: one loop over "
                                "that list, not left early, each iteration notifies exactly once")
    ck.rule("channel snapshot", "taking a snapshot for a channel asks that channel's services once for their values and then hands them the record once")
    ck.rule("activation", "activating, deactivating and deleting a channel change exactly that channel's flag and its entries in the channel lists; deletion "
                          "announces the end first, removes the channel, and finishes its services last")
    ck.assume.append(NOTE)
    sources(ck, p)
    listloops(ck, p)
    snapshots(ck, p)
    lists(ck, p)


def sources(ck, p):
    act = Active(p)
    disp = vcalls.Dispatch(p)
    reg = {}
    for e, fs in disp.events.items():
        for f in fs:
            reg.setdefault(f.key, set()).add(e)
    starts = []
    for f in p.functions():
        if f.rel().startswith(("src/tools", "test", "src/mpi-rt/test")):
            continue
        for i in f.ins:
            if not i.is_call or not i.callee:
                continue
            d = p.dem(i.callee)
            if SINK.match(d):
                starts.append((f, i, d))
            elif "cali::util::callback<" in d and "::operator()" in d and re.search(r"Events::(process_snapshot|snapshot)$", f.path(i.args[0])) and not f.qname.startswith("cali::Caliper::"):
                starts.append((f, i, "process_snapshot"))
    ck.floor("calls that address one channel", len(starts), 15)
    fr = {}
    roots = []

    def unguarded(f, i):
        if f.key not in fr:
            fr[f.key] = reach(f, act)
        return fr[f.key].reaches(i.bb)

    nsrc = 0
    for f0, i0, d in starts:
        if f0.qname.startswith("cali::Caliper::") or not f0.rel().startswith("src"):
            continue
        isupd = re.match(r"cali::Caliper::(begin|end|set)\(", d)
        if isupd:
            continue        # these raise events only for an active channel (C05)
        nsrc += 1
        # climb
        seen, wl, found = set(), [(f0, i0, (f0.qname,))], []
        while wl:
            f, i, ch = wl.pop()
            if not unguarded(f, i):
                continue
            if f.key in seen:
                continue
            seen.add(f.key)
            ev = reg.get(f.key)
            if ev:
                late = ev - GATED
                if late:
                    found.append((f, ch, "callback of " + ", ".join(sorted(late))))
                cs = [c for c in p.callers().get(f.key, ()) if c[2] == "direct" and not p.dem(c[0].name).startswith(("std::", "void std::"))]
            else:
                cs = p.callers().get(f.key, ())
                cs = [c for c in cs if c[0].key != f.key]
                ref = [c for c in cs if c[2] != "direct"]
                cs = [c for c in cs if c[2] == "direct"]
                enc = re.match(r"(.*)::'lambda\d*'\(.*?\)(?: const)?::operator\(\)\(", f.dem)
                outer = [g for g in p.functions() if enc and g.dem == enc.group(1)] if enc and not cs else []
                if outer:
                    # a function object handed to a callee: runs where its creator runs
                    pre = f.dem[:f.dem.rindex("::operator()")]
                    for g in outer:
                        us = [j for j in g.ins if j.is_call and j.callee and pre in p.dem(j.callee)]
                        cs = cs + [(g, j, "direct") for j in us]
                    ref = []
                if not ref and not cs and not re.match(r"(cali_|_ZN4cali7Caliper)", f.name) and f.mod.rel.startswith("src/services") and not f.local and "cali::" in f.qname:
                    continue        # an internal member function nobody calls
                if ref or not cs:
                    found.append((f, ch, "entered from outside" if not ref else "its address is taken in " + ref[0][0].qname))
            for g, j, k in cs:
                wl.append((g, j, ch + (g.qname,)))
        nm = lambda s: re.sub(r"\(anonymous namespace\)::", "", s)
        found = [x for x in found if not api(x[0])]
        for g, ch, why in found:
            ck.bad("source is gated", "%s -> %s" % (nm(g.qname), re.sub(r"\(.*", "", d)), i0.where(),
                   "%s reaches %s without a test that the channel is active (%s; via %s)" % (nm(g.qname), re.sub(r"\(.*", "", d), why, " <- ".join(map(nm, ch))))
        if not found:
            ck.ok("source is gated", "%s -> %s" % (nm(f0.qname), re.sub(r"\(.*", "", d)), i0.where())
    ck.count("channel notifications traced to their sources", nsrc)


def api(f):
    """std::function plumbing of registered callbacks"""
    return f.dem.startswith(("std::", "void std::", "bool std::"))


def listloops(ck, p):
    n = 0
    want = {e: "all_channels" for e in TOALL}
    want.update({"async_event": "active_channels", "track_mem_evt": "active_channels", "untrack_mem_evt": "active_channels"})
    roots = [f for f in p.functions() if f.rel().startswith("src/caliper/Caliper.cpp") and f.qname.startswith("cali::Caliper::") and "ChannelBody*" not in f.dem.split("(")[1][:22]]
    per = {}
    for f in roots:
        per.setdefault(f.mod.rel, []).append(f)
    done = {}
    for rel, fs in per.items():
        m = prog.inlined(p, rel, [r"^cali::Caliper::[a-z_]+\(", r"^cali::Caliper::Caliper\("], NOINL)
        names = {f.name for f in fs}
        for f in m.functions:
            if f.name not in names:
                continue
            cfg = loops.Cfg(f)
            sites = {}
            for i in f.ins:
                if i.is_call and i.callee and i.bb in cfg.reach:
                    d = p.dem(i.callee)
                    if "cali::util::callback<" in d and "::operator()" in d:
                        e = re.search(r"Events::(\w+)$", f.path(i.args[0]))
                        e = e.group(1) if e else "create_attr_evt"
                        if e in want:
                            sites.setdefault(e, []).append(i)
            for e, ss in sites.items():
                done.setdefault(e, 0)
                # several loops (of inlined callees) may raise the same event: decide each loop
                groups = []
                for i in ss:
                    L = frozenset(cfg.loop_of(i.bb))
                    for g in groups:
                        if g[0] == L:
                            g[1].append(i)
                            break
                    else:
                        groups.append((L, [i]))
                for L, g in groups:
                    msg = None
                    if not L:
                        msg = "not raised in a loop over the channels"
                    else:
                        msg = cfg.once_per_iteration({i.bb for i in g}, L)
                        ls = listof(f, L, cfg)
                        if msg is None and ls and ls != {want[e]}:
                            msg = "the loop runs over %s, not %s" % (",".join(sorted(ls)), want[e])
                    done[e] += 1
                    ck.decide(msg is None, "delivered to all", "%s in %s" % (e, f.qname), g[0].where(), "%s: %s" % (e, msg))
    for e in want:
        ck.decide(done.get(e, 0) > 0, "delivered to all", e + " is raised", "", "no place raises %s for the channels" % e)


def listof(f, L, cfg):
    """names of the channel lists a loop iterates: those whose begin/end/[] feeds the loop's blocks or the blocks just before it"""
    out = set()
    pre = {b for b in cfg.reach if any(s in L for s in cfg.succ[b])}
    h = cfg.headers(L)
    for b in L | pre:
        for i in f.blocks[b]:
            if i.is_call:
                for a in i.args:
                    mm = re.search(r"GlobalData::(\w*channels)$", f.path(a))
                    if mm:
                        out.add(mm.group(1))
    if not out:
        for i in f.ins:
            if i.is_call and i.bb in cfg.reach:
                for a in i.args:
                    mm = re.search(r"GlobalData::(\w*channels)$", f.path(a))
                    if mm:
                        out.add(mm.group(1))
    if len(out) > 1:
        # prefer the ones inside the loop or its immediate predecessors that call begin()/end()
        near = set()
        for b in L | pre:
            for i in f.blocks[b]:
                if i.is_call and i.callee and re.search(r"::(begin|end|cbegin|cend|size)\(", f.mod.demangle.get(i.callee, i.callee) if isinstance(f.mod.demangle, dict) else i.callee):
                    for a in i.args:
                        mm = re.search(r"GlobalData::(\w*channels)$", f.path(a))
                        if mm:
                            near.add(mm.group(1))
        out = near or out
    return out


def snapshots(ck, p):
    fs = [f for f in p.functions() if re.match(r"cali::Caliper::(push_snapshot|push_snapshot_replace|pull_snapshot)\(", f.dem)]
    ck.need(fs, "Caliper::push_snapshot")
    for rel in sorted({f.mod.rel for f in fs}):
        m = prog.inlined(p, rel, [r"^cali::Caliper::(push_snapshot|push_snapshot_replace|pull_snapshot)\("], NOINL + [r"Blackboard::", r"FixedSizeSnapshotRecord", r"SnapshotBuilder::"])
        for f in m.functions:
            if f.name not in {x.name for x in fs}:
                continue
            kind = re.match(r"cali::Caliper::(\w+)\(", f.dem).group(1)

            class R(AbsInt):
                def call(self, i, av, s):
                    d = p.dem(i.callee) if i.callee else "?"
                    if "callback<" in d:
                        if "::empty" in d:
                            return E(0)
                        e = re.search(r"Events::(\w+)$", self.fn.path(i.args[0]))
                        own = self.fn.path(i.args[0]).startswith("a1")
                        return E(st=s.st + ((e.group(1) if e else "?", own),))
                    return E()
            r = R(f, st0=()).run()
            want = (("snapshot", True),) + ((("process_snapshot", True),) if kind != "pull_snapshot" else ())
            got = {st for ins, rv, st, mem, facts in r.exits if ins.op == "ret"}
            ck.decide(got == {want}, "channel snapshot", kind, "%s:%d" % (f.rel(), f.line), "notifications on the paths: %s" % sorted(got))


class Lists(AbsInt):
    def __init__(self, p, f, case):
        self.p, self.case = p, case
        AbsInt.__init__(self, f, st0=())

    def lst(self, a):
        m = re.search(r"GlobalData::(\w*channels)$", self.fn.path(a))
        return m.group(1) if m else None

    def cell(self, v, s):
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get((v[1], v[2]))
            return c[1] if c else "T"
        return v

    def stored(self, i, ptr, v, s):
        if self.fn.path(i.a[1]).endswith("is_active"):
            own = self.own(self.fn.path(i.a[1]))
            return s.st + (("active", v) if own else ("active-other", v),)
        return None

    def own(self, pa):
        return True

    def call(self, i, av, s):
        d = self.p.dem(i.callee) if i.callee else "?"
        if "callback<" in d:
            if "::empty" in d:
                return E(0)
            e = re.search(r"Events::(\w+)$", self.fn.path(i.args[0]))
            return E(st=s.st + (("event", e.group(1) if e else "?"),))
        m = re.search(r"std::vector<cali::Channel.*>::(\w+)[(<]", d)
        if m and i.args:
            # with a struct return the list is the second argument
            l = self.lst(i.args[0])
            k = m.group(1)
            if l:
                if k in ("begin", "cbegin"):
                    return E(("s", "begin:" + l))
                if k in ("end", "cend"):
                    return E(("s", "end:" + l))
                if k == "erase":
                    v = av[1]
                    v = v if isinstance(v, tuple) and v[0] == "s" else self.cell(v, s)
                    return E(st=s.st + (("erase", l, v[1] if isinstance(v, tuple) and v[0] == "s" else "?"),))
                if k in ("emplace_back", "push_back"):
                    return E(st=s.st + (("add", l, self.fn.path(i.args[1]) == "a1"),))
                if k in ("size", "empty", "front", "back", "operator"):
                    return E()
        if re.search(r"normal_iterator<cali::Channel.*std::find<", d) or re.search(r"\bstd::find<__gnu_cxx::__normal_iterator<cali::Channel", d):
            a, b = av[0], av[1]
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "s" and a[1][:6] == "begin:" and b[1] == "end:" + a[1][6:] and self.fn.path(i.args[2]) == "a1":
                l = a[1][6:]
                return E(("s", "at:" + l if self.case.get(l) else "end:" + l))
            return E(st=s.st + (("find", "over the wrong range or for another channel"),))
        m = re.search(r"__gnu_cxx::operator(==|!=)<cali::Channel", d)
        if m:
            a, b = self.cell(av[0], s), self.cell(av[1], s)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "s":
                eq = a == b
                return E(int(eq == (m.group(1) == "==")))
            return E()
        if re.search(r"normal_iterator<cali::Channel.*>::__normal_iterator", d):
            v = self.cell(av[1], s)
            if isinstance(av[0], tuple) and av[0][0] == "p":
                return E(mem={(av[0][1], av[0][2]): (8, v)})
        return E()


def lists(ck, p):
    pat = [r"^cali::Caliper::(delete_channel|activate_channel|deactivate_channel)\("]
    fs = [f for f in p.functions() if re.match(pat[0], f.dem)]
    ck.need(fs, "Caliper::delete_channel/activate_channel/deactivate_channel")
    nm = {f.name for f in fs}
    for rel in sorted({f.mod.rel for f in fs}):
        m = prog.inlined(p, rel, pat, NOINL)
        for f in m.functions:
            if f.name not in nm:
                continue
            kind = re.match(r"cali::Caliper::(\w+)\(", f.dem).group(1)
            for ac, al in ((1, 1), (0, 1), (0, 0)):
                if kind == "activate_channel" and not al:
                    continue
                case = {"active_channels": ac, "all_channels": al}
                r = Lists(p, f, case).run()
                got = {st for ins, rv, st, mem, facts in r.exits if ins.op == "ret"}
                ch = []
                if kind == "activate_channel":
                    ch = [("active", 1)] + ([] if ac else [("add", "active_channels", True)])
                    pre = post = ()
                elif kind == "deactivate_channel":
                    ch = [("active", 0)] + ([("erase", "active_channels", "at:active_channels")] if ac else [])
                    pre = post = ()
                else:
                    ch = [("active", 0)] + ([("erase", "active_channels", "at:active_channels")] if ac else []) + ([("erase", "all_channels", "at:all_channels")] if al else [])
                    pre, post = (("event", "pre_finish_evt"),), (("event", "finish_evt"),)
                good = bool(got)
                for st in got:
                    a = st[:len(pre)] == pre and (not post or st[-1:] == post)
                    mid = st[len(pre):len(st) - len(post)]
                    # the flag of a channel that is not active may be left alone
                    opt = sorted(ch) == sorted(mid) or (not ac and kind != "activate_channel" and sorted(c for c in ch if c[0] != "active") == sorted(mid))
                    good = good and a and opt
                ck.decide(good, "activation", "%s, channel %s" % (kind, "active" if ac else "inactive" if al else "already deleted"), "%s:%d" % (f.rel(), f.line),
                          "possible effects: %s" % "; ".join(" -> ".join(" ".join(map(str, a)) for a in st) for st in sorted(got)))
