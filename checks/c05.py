"""C05: event protocol of region updates."""
import itertools, re
import absint, loops, prog
from absint import AbsInt, E

TITLE = "region updates follow the event protocol and stay balanced"
TECHNIQUE = ("path-sensitive abstract interpretation of every update operation over all property, stack and activation cases; the set of "
             "action sequences of each case is compared with the protocol, and loop structure analysis shows each channel is notified once")
NOTE = ("the blackboard, the metadata tree and the callbacks themselves are opaque here; unwinding out of a callback is not followed; "
        "the number of elements of the channel list is unbounded (loop rule), all other inputs are finite and enumerated")

NOINL = [r"^(void |bool )?cali::util::callback<.*>::(operator\(\)|empty)", r"Blackboard::[a-z_]+\(", r"^cali::Attribute::[A-Za-z_]+\(", r"MetadataTree::[a-z_]+[(<]",
         r"^cali::Entry::[A-Za-z_]+\(", r"^cali::Node::[a-z_]+\(", r"LockfreeIntrusiveTree<.*>::[a-z_]+\(", r"^cali::Variant::[A-Za-z_]+\(", r"^std::lock_guard", r"siglock::", r"^cali::operator[!=]=", r"cali::Log::"]
KEYID = 777
NODES = ("remove_first_in_path", "replace_first_in_path", "wrong remove_first_in_path", "wrong replace_first_in_path")
MERGED, CURRENT = ("p", "merged-node", 0), ("p", "current-node", 0)


class Run(AbsInt):
    def __init__(self, p, f, case, attr, data):
        self.p, self.case, self.attr, self.data = p, case, attr, data
        self.evsites = {}
        self.problems = []
        self.edges = set()
        AbsInt.__init__(self, f, st0=())

    def enter(self, b, prev, s):
        if prev is not None:
            self.edges.add((prev, b))
        AbsInt.enter(self, b, prev, s)

    def act(self, s, a):
        return s.st if s.st and s.st[-1] == a else s.st + (a,)

    def load(self, i, ptr, s):
        pa = self.fn.path(i.a[0])
        if pa.endswith("stack_error"):
            return self.case["error"]
        if pa.endswith("is_active"):
            return self.case["active"]
        return None

    def stored(self, i, ptr, v, s):
        if self.fn.path(i.a[1]).endswith("stack_error"):
            return self.act(s, ("stack_error", v))
        return None

    def node(self, v, s, off=0):
        """first word of the object at address v"""
        if isinstance(v, tuple) and v[0] == "p" and v[2] is not None:
            c = s.mem.get((v[1], v[2] + off))
            return c[1] if c else "T"
        return "T"

    def bb(self, i):
        pa = self.fn.path(i.args[0] if not i.args[0].startswith("alloca") else i.args[1])
        for a in i.args[:2]:
            m = re.search(r"::(\w*blackboard)$", self.fn.path(a))
            if m:
                return m.group(1)
        return "?"

    def bbv(self, i, av):
        for a in av[:2]:
            if isinstance(a, tuple) and a[0] == "p":
                for nm, k in self.case["bbs"].items():
                    if (a[1], a[2]) == k:
                        return nm
        return self.bb(i)

    def call(self, i, av, s):
        d = self.p.dem(i.callee) if i.callee else "?"
        c = self.case
        if "callback<" in d:
            if "::empty" in d:
                return E(0)
            e = re.search(r"Events::(\w+)$", self.fn.path(i.args[0]))
            e = e.group(1) if e else "?"
            self.evsites.setdefault(e, set()).add(i)
            return E(st=self.act(s, ("event", e) + self.payload(av, s)))
        if re.match(r"cali::Attribute::properties", d):
            return E(c["prop"])
        if re.match(r"cali::Attribute::id\(", d):
            return E(KEYID)
        if re.match(r"cali::Attribute::(is_|skip_|store_)", d):
            q = re.match(r"cali::Attribute::(\w+)\(", d).group(1)
            bit = {"store_as_value": "CALI_ATTR_ASVALUE", "skip_events": "CALI_ATTR_SKIP_EVENTS", "is_hidden": "CALI_ATTR_HIDDEN"}.get(q)
            return E(int(bool(c["prop"] & c["flags"][bit])) if bit in c["flags"] else "T")
        m = re.match(r"cali::Blackboard::(\w+)\(", d)
        if m:
            op = m.group(1)
            if op == "get":
                return E(mem={(av[0][1], av[0][2]): ("p", "merged-node", 0) if c["slot"] != "empty" else 0, (av[0][1], av[0][2] + 8): "T", (av[0][1], av[0][2] + 16): "T"},
                         st=self.act(s, ("get", self.bbv(i, av), av[2])))
            if op == "set":
                vis = av[3]
                return E(st=self.act(s, ("set", self.bbv(i, av), av[1], self.name(self.node(av[2], s)), vis)))
            if op == "del":
                return E(st=self.act(s, ("del", self.bbv(i, av), av[1])))
            return E()
        m = re.match(r"cali::Entry::(\w+)\((.*)\)", d)
        if m:
            q, pr = m.group(1), m.group(2)
            if q == "Entry":
                v = ("s", "new-value" if self.same(av[1], self.attr, s) and self.same(av[2], self.data, s) else "wrong value") if "Attribute" in pr else av[1] if "Node" in pr else 0
                if pr.startswith("cali::Entry"):
                    v = self.node(av[1], s)
                return E(mem={(av[0][1], av[0][2]): v, (av[0][1], av[0][2] + 8): "T", (av[0][1], av[0][2] + 16): "T"})
            if q == "empty":
                n = self.node(av[0], s)
                return E(int(n == 0) if n in (0, MERGED, CURRENT) or isinstance(n, tuple) and n[0] == "p" and (n[1] in NODES or n[1].startswith("child-of ")) else "T")
            if q == "node":
                return E(self.node(av[0], s))
            if q == "attribute":
                n = self.node(av[0], s)
                if n == MERGED:
                    return E(KEYID if c["slot"] in ("match", "value") else 888)
                if n == CURRENT:
                    return E(KEYID)
                return E(0xffffffffffffffff if n == 0 else "T")
            if q == "get" and len(av) > 2:
                n = self.node(av[1], s)
                if n in (MERGED, CURRENT):
                    v = CURRENT if c["slot"] == "below" else MERGED if c["slot"] in ("match", "value") else 0
                    if n == CURRENT:
                        v = CURRENT
                else:
                    v = 0 if n == 0 else "T"
                return E(mem={(av[0][1], av[0][2]): v, (av[0][1], av[0][2] + 8): "T", (av[0][1], av[0][2] + 16): "T"})
            if q in ("value",) and i.ty == "void" and av and isinstance(av[0], tuple):
                n = self.node(av[1], s) if len(av) > 1 else "T"
                return E(mem={(av[0][1], av[0][2]): ("s", "value-of " + self.name(n))})
            if q == "value":
                v = ("s", "value-of " + self.name(self.node(av[0], s)))
                return E(("agg", (v, v)) if i.ty == "{}" else v)
            return E()
        m = re.match(r"(?:[\w:]+[*&]? )?cali::(?:\w+::)?MetadataTree::(\w+)", d)
        if m:
            q = m.group(1)
            if q == "root":
                return E(("p", "tree-root", 0))
            if q == "get_child":
                ok = len(av) > 3 and self.same(av[1], self.attr, s) and self.same(av[2], self.data, s)
                return E(("p", ("" if ok else "wrong ") + "child-of " + self.name(av[3] if len(av) > 3 else "T"), 0))
            if q == "remove_first_in_path":
                ok = len(av) > 2 and av[1] == MERGED and self.same(av[2], self.attr, s)
                return E(("p", ("" if ok else "wrong ") + q, 0))
            if q == "replace_first_in_path":
                ok = len(av) > 3 and self.name(av[1]) == ("null" if c["slot"] == "empty" else "merged-node") and self.same(av[2], self.attr, s) and self.same(av[3], self.data, s)
                return E(("p", ("" if ok else "wrong ") + q, 0))
            return E(("p", q, 0))
        m = re.match(r"cali::(?:Node|util::LockfreeIntrusiveTree<.*>)::(\w+)\(", d)
        if m:
            return E(("p", "parent-of " + self.name(av[0]), 0)) if m.group(1) == "parent" else E(None)
        if re.match(r"cali::operator(==|!=)", d) or re.match(r"cali::Variant::operator(==|!=)", d) or "variant_eq" in d:
            # comparison of the value given with the value stored
            eq = c["value"]
            if "!=" in d:
                return E(1 - eq)
            return E(eq)
        if re.match(r"std::lock_guard|.*siglock::", d):
            return E()
        return E(None)

    def icmp(self, i, a, b, s):
        if a in (MERGED, CURRENT) and b in (MERGED, CURRENT) and i.op in ("icmp.eq", "icmp.ne"):
            return int((a == b) == (i.op == "icmp.eq"))
        if i.op in ("icmp.eq", "icmp.ne"):
            # existing attributes and nodes, and those that were created, are not null; a path without one of its regions is not empty
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "p" and (x[1] == "*(a%d+0)" % self.attr or x[1] in NODES or x[1].startswith("child-of ")):
                    if y == 0 or y == ("p", "tree-root", 0) and x[1] in NODES:
                        return int(i.op == "icmp.ne")
        return AbsInt.icmp(self, i, a, b, s)

    def payload(self, av, s):
        """what is wrong with the arguments of a notification"""
        bad = ()
        if len(av) > 2:
            b = self.node(av[2], s)
            if not (isinstance(b, tuple) and isinstance(av[0], tuple) and b[0] == "p" and b[1] == av[0][1]):
                bad += ("another channel's body",)
        for k, want, what in ((3, "a%d" % self.attr, "attribute"), (4, "a%d" % (self.attr + 1), "value")):
            if len(av) > k and av[k] != ("p", want, 0):
                n = self.name(self.node(av[k], s))
                if what == "value" and self.data is None:
                    c = self.case["slot"]
                    if n != "value-of " + ("current-node" if c == "below" else "merged-node"):
                        bad += ("the value is %s" % n,)
                elif n != "*(%s+0)" % want:
                    bad += ("not the operation's " + what,)
        return bad

    def same(self, v, k, s):
        return k is not None and (v == ("p", "a%d" % k, 0) or self.name(self.node(v, s)) == "*(a%d+0)" % k)

    def name(self, v):
        if v == 0:
            return "null"
        if isinstance(v, tuple) and v[0] == "p":
            r = v[1]
            m = re.match(r"\*\((merged-node|current-node)\+\d+\)$", r)
            return "parent-of " + m.group(1) if m else r
        if isinstance(v, tuple) and v[0] == "s":
            return v[1]
        return "?"


def expect(kind, case, fl, chan):
    """allowed action sequences, without blackboard reads; events that must happen for every (active) channel"""
    prop = case["prop"]
    skip = prop & fl["CALI_ATTR_SKIP_EVENTS"]
    asval = prop & fl["CALI_ATTR_ASVALUE"]
    vis = int(not prop & fl["CALI_ATTR_HIDDEN"])
    scope = prop & fl["CALI_ATTR_SCOPE_MASK"]
    key = KEYID if asval else 2 if prop & fl["CALI_ATTR_UNALIGNED"] else 1
    if chan:
        bb = "channel_blackboard"
    else:
        bb = {fl["CALI_ATTR_SCOPE_THREAD"]: "thread_blackboard", fl["CALI_ATTR_SCOPE_PROCESS"]: "process_blackboard"}.get(scope)
    ev = not skip and (not chan or case["active"])
    E1 = lambda n: [("event", n)] if ev else []
    if case["error"] and not chan:
        return [[]], []
    if kind == "begin":
        what = "new-value" if asval else "child-of " + ("merged-node" if case["slot"] != "empty" else "null")
        up = [("set", bb, key, what, vis)] if bb else []
        return [E1("pre_begin_evt") + up + E1("post_begin_evt")], [x[1] for x in E1("pre_begin_evt") + E1("post_begin_evt")]
    if kind == "set":
        what = "new-value" if asval else "replace_first_in_path"
        up = [("set", bb, key, what, vis)] if bb else []
        return [E1("pre_set_evt") + up], [x[1] for x in E1("pre_set_evt")]
    # end
    if bb is None:
        return [[]], []
    slot = case["slot"]
    bad = slot in ("empty", "other") or slot == "below" and key != 2 or kind == "end_with_value_check" and not case["value"]
    if bad:
        return [[("stack_error", 1)]], []
    if asval:
        return [E1("pre_end_evt") + [("del", bb, key)]], [x[1] for x in E1("pre_end_evt")]
    n = "parent-of merged-node" if slot in ("match", "value") else "remove_first_in_path"
    return [E1("pre_end_evt") + [("del", bb, key)], E1("pre_end_evt") + [("set", bb, key, n, vis)]], [x[1] for x in E1("pre_end_evt")]


def body(ck):
    p = prog.program()
    ck.rule("protocol", "for every combination of attribute scope, flags, stack state and activation, the operation's possible action sequences are "
                        "exactly those of the protocol: pre-event (with the channel's own body, the attribute and the value begun, set or ended), update of the scope's own blackboard at the attribute's key, post-event; "
                        "an end without matching begin only marks the error")
    ck.rule("every channel once", "an event is raised at one place, for each active channel exactly once per operation: the loop covers the list of "
                                  "active channels, cannot be left early and no iteration passes without it")
    ck.rule("error is reported", "on the way to the error mark a message is logged")
    ck.assume.append(NOTE)
    fl = p.enumerators("CALI_ATTR_")
    fl.setdefault("CALI_ATTR_SCOPE_MASK", 60)
    ck.need(fl.get("CALI_ATTR_SCOPE_THREAD"), "enum cali_attr_properties")
    f0 = [f for f in p.functions() if re.match(r"cali::Caliper::(begin|end|end_with_value_check|set)\(", f.dem)]
    ck.need(f0, "Caliper::begin/end/set")
    ncase = nseq = 0
    for rel in sorted({f.mod.rel for f in f0}):
        m = prog.inlined(p, rel, [r"^cali::Caliper::(begin|end|end_with_value_check|set)\("], NOINL)
        names = {f.name for f in f0}
        for f in sorted((f for f in m.functions if f.name in names), key=lambda f: f.dem):
            kind = re.match(r"cali::Caliper::(\w+)\(", f.dem).group(1)
            chan = "ChannelBody*" in f.dem
            attr = 2 if chan else 1
            w = "%s:%d" % (f.rel(), f.line)
            label = "%s%s" % (kind, " (channel)" if chan else "")
            bbs = {}
            for i in f.ins:
                if i.op == "getelementptr":
                    pass
            scopes = [fl["CALI_ATTR_SCOPE_THREAD"], fl["CALI_ATTR_SCOPE_PROCESS"], fl.get("CALI_ATTR_SCOPE_TASK", 24), 0] if not chan else [fl["CALI_ATTR_SCOPE_THREAD"], fl.get("CALI_ATTR_SCOPE_CHANNEL", 0)]
            bodies = [0, fl["CALI_ATTR_ASVALUE"], fl["CALI_ATTR_UNALIGNED"], fl["CALI_ATTR_ASVALUE"] | fl["CALI_ATTR_UNALIGNED"], fl.get("CALI_ATTR_NESTED", 256), fl.get("CALI_ATTR_NESTED", 256) | fl["CALI_ATTR_UNALIGNED"]]
            slots = ["match", "below", "other", "empty"] if kind.startswith("end") else ["other", "empty"]
            seen_log = []
            for scope, body, skip, hid, slot, err, act, val in itertools.product(
                    scopes, bodies, (0, fl["CALI_ATTR_SKIP_EVENTS"]), (0, fl["CALI_ATTR_HIDDEN"]), slots, (0,) if chan else (0, 1), (0, 1) if chan else (1,),
                    (1, 0) if kind == "end_with_value_check" else (1,)):
                if err and (hid or slot != slots[0]):
                    continue
                case = {"prop": scope | body | skip | hid, "slot": slot, "error": err, "active": act, "value": val, "bbs": bbs, "flags": fl}
                r = Run(p, f, case, attr, None if kind.startswith("end") else attr + 1).run()
                ncase += 1
                want, evs = expect(kind, case, fl, chan)
                got = set()
                for ins, rv, st, mem, facts in r.exits:
                    if ins.op != "ret":
                        continue
                    got.add(tuple(a for a in st if a[0] != "get"))
                    for a in st:
                        if a[0] == "get" and want != [[]]:
                            # the slot read must be the slot written
                            ex = [x for x in want[0] if x[0] in ("set", "del")]
                            if ex and (a[1], a[2]) != (ex[0][1], ex[0][2]):
                                got.add((("read", a[1], a[2]),))
                nseq += len(got)
                # without channels the events are absent
                full = {tuple(x) for x in want}
                ok = set(full)
                if not chan:
                    # the list of channels may be empty in each loop
                    for x in full:
                        n = [k for k, a in enumerate(x) if a[0] == "event"]
                        for r_ in range(1, len(n) + 1):
                            for sub in itertools.combinations(n, r_):
                                ok.add(tuple(a for k, a in enumerate(x) if k not in sub))
                inst = "%s scope=%d flags=%#x slot=%s%s%s%s" % (label, scope, case["prop"] & ~fl["CALI_ATTR_SCOPE_MASK"], slot, " after-error" if err else "", "" if act else " inactive", "" if val else " other-value")
                extra, missing = got - ok, [x for x in full if x not in got]
                if len(full) > 1:
                    missing = [] if full & got else missing
                    # both alternatives of an end: restore the parent, or remove when the parent is the root
                    if not missing and not all(x in got for x in full):
                        missing = [x for x in full if x not in got]
                    # below another entry the parent cannot be the root
                    if slot == "below":
                        missing = [x for x in missing if x[-1][0] != "del"]
                ck.decide(not extra and not missing, "protocol", inst, w,
                          "possible actions %s; the protocol requires %s" % (sorted(map(fmt, extra)) or sorted(map(fmt, got)), sorted(map(fmt, full))))
                # structure of notification
                if not chan and not extra and not missing:
                    cfg = loops.Cfg(f, r.edges)
                    for e in evs:
                        sites = {i.bb for i in r.evsites.get(e, ())}
                        L = cfg.loop_of(next(iter(sites))) if sites else set()
                        msg = None
                        if not L or any(b not in L for b in sites):
                            msg = "not raised in one loop over the channels"
                        else:
                            msg = cfg.once_per_iteration(sites, L)
                            lists = set()
                            for i in f.ins:
                                if i.is_call and i.bb in cfg.reach:
                                    for a in i.args:
                                        mm = re.search(r"GlobalData::(\w*channels)$", f.path(a))
                                        if mm:
                                            lists.add(mm.group(1))
                            if msg is None and lists and lists != {"active_channels"}:
                                msg = "the loop runs over " + ",".join(sorted(lists))
                        ck.decide(msg is None, "every channel once", "%s %s flags=%#x" % (label, e, case["prop"]), w, "%s: %s" % (e, msg))
                elif chan and evs:
                    cfg = loops.Cfg(f, r.edges)
                    for e in evs:
                        sites = {i.bb for i in r.evsites.get(e, ())}
                        again = any(b2 in cfg.from_(cfg.succ[b]) for b in sites for b2 in sites)
                        ck.decide(bool(sites) and not again, "every channel once", "%s %s flags=%#x" % (label, e, case["prop"]), w, "%s can be raised more than once" % e)
            if kind.startswith("end"):
                logs(ck, p, f, label)
    ck.floor("update operations x cases", ncase, 100)
    ck.count("action sequences", nseq)


def logs(ck, p, f, label):
    """every store of the error mark is reached only through a log message"""
    lg = {i.bb for i in f.ins if i.is_call and i.callee and re.search(r"cali::Log::(stream|get_stream|verbosity)\(", p.dem(i.callee))}
    cfg = loops.Cfg(f)
    for i in f.ins:
        if i.op == "store" and f.path(i.a[1]).endswith("stack_error"):
            direct = i.bb in cfg.from_([0], lg)
            # feasible only when the stored entry is empty: checked per case below
            ck.count("error marks", 1)
    for slot in ("other", "empty"):
        case = {"prop": 20, "slot": slot, "error": 0, "active": 1, "value": 0, "bbs": {}, "flags": {}}

        class R(Run):
            def call(self, i, av, s):
                d = self.p.dem(i.callee) if i.callee else ""
                if "cali::Log::" in d:
                    return E(None, st=self.act(s, ("log",)))
                return Run.call(self, i, av, s)
        r = R(p, f, case, 1, 2).run()
        ok = all(("log",) in st for ins, rv, st, mem, facts in r.exits if ins.op == "ret" and any(a[0] == "stack_error" for a in st))
        ck.decide(ok, "error is reported", "%s slot=%s" % (label, slot), "%s:%d" % (f.rel(), f.line), "the error is marked on a path without any message")


def fmt(t):
    return " -> ".join(" ".join(map(str, a)) for a in t) or "(nothing)"
