"""C21: process-wide data in snapshots is as current as thread data."""
import re
import prog as P
from absint import E, Limit
from check import Broken
from util import dem, field
from c19 import Tr, traces, show, fns, where, inl, NOINL

TITLE = "Snapshots see the current content of the thread and process blackboards"
TECHNIQUE = ("path-sensitive abstract interpretation of the snapshot, refresh and update functions: record content and blackboard accesses of all "
             "paths are compared with the protocol")
NOTE = ("the refresh, snapshot and update functions for every scope, value/reference, aligned and hidden combination and every relation of the update counters; "
        "that the blackboard itself returns what was stored is C33; data beyond a record's capacity is outside the property")


# ---- snapshots
NO = [r"^cali::Blackboard::", r"^cali::FixedSizeSnapshotRecord", r"^cali::SnapshotBuilder::", r"^std::", r"siglock::", r"^(void |bool )?cali::util::callback<", r"^cali::Log::", r"^[a-z:_ ]*& std::", r"^(bool|void) (std|__gnu_cxx)::", r"^__gnu_cxx::"]
BB = ("thread_blackboard", "process_blackboard", "channel_blackboard")


class Snap(Tr):
    """client state: (content of records, events, process lock held, version seen under the lock)"""
    COUNT = {0: 0, 1: 1, 2: 2}

    def __init__(self, p, f, now, cached, off, fresh):
        self.now, self.cached, self.off, self.fresh, self.lost = now, cached, off, fresh, []
        Tr.__init__(self, p, f, st0=((), (), 0, 0))

    def distinct(self, o):
        return o.startswith("B:") or o.startswith("V:")

    # records
    def content(self, st, x):
        return dict(st[0]).get(x)

    def put(self, st, x, c):
        d = dict(st[0])
        d[x] = tuple(c)
        return (tuple(sorted(d.items())),) + st[1:]

    def initial(self, x):
        if x == "process_snapshot":
            return ("process: current",) if self.fresh else ("process: old",)
        return () if x == "given" else ("left over",)

    def get(self, st, x):
        c = self.content(st, x)
        return c if c is not None else self.initial(x)

    def rec(self, v, s):
        """name of the record behind a builder or record pointer"""
        for x in (v, self.cell(v, s)):
            if isinstance(x, tuple) and x[0] == "p":
                if x[1].startswith("B:"):
                    return x[1][2:]
                m = re.match(r"a(\d)$", x[1])
                if m:
                    return "given"
        return None

    def view(self, vs, s):
        """content of a view passed as values or as a reference"""
        for v in vs:
            for x in (v, self.cell(v, s)):
                if isinstance(x, tuple) and x[0] == "p" and x[1].startswith("V:"):
                    return tuple(x[1][2:].split("|")) if x[1] != "V:" else ()
                if isinstance(x, tuple) and x[0] in "ps" and self.istrigger(x):
                    return ("trigger",)
        return None

    def istrigger(self, x):
        return x[1] == "a2"

    def load(self, i, ptr, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[2] == self.off and ptr[1].startswith("*(a0"):
            return self.cached
        return None

    def stored(self, i, ptr, val, s):
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[2] == self.off and ptr[1].startswith("*(a0"):
            return s.st[:1] + (s.st[1] + (("cached", val - self.now if isinstance(val, int) else "?"),),) + s.st[2:]
        return None

    def call(self, i, av, s):
        d = dem(self.fn, i)
        st = s.st
        if re.match(r"std::(lock_guard|unique_lock|scoped_lock)<std::mutex>::", d):
            if "~" in d or "unlock" in d:
                return E(st=st[:2] + (2 if st[2] == 1 else st[2], st[3]))
            if re.search(r"process_blackboard_lock$", self.fn.path(i.args[-1])):
                return E(st=st[:2] + (1,) + st[3:])
            return E()
        m = re.search(r"FixedSizeSnapshotRecord<.*>::(reset|builder|view)\(", d)
        if m:
            x = re.search(r"(\w+)$", self.fn.path(i.args[0])).group(1)
            if m.group(1) == "reset":
                return E(st=self.put(st, x, ()))
            if m.group(1) == "builder":
                return E(("p", "B:" + x, 0))
            return E(("agg", (("p", "V:" + "|".join(self.get(st, x)), 0), ("s", "len"))))
        m = re.search(r"SnapshotBuilder::(append|remove|view)\(", d)
        if m:
            x = self.rec(av[0], s)
            if x is None:
                self.lost.append(d[:50])
                return E()
            if m.group(1) == "view":
                return E(("agg", (("p", "V:" + "|".join(self.get(st, x)), 0), ("s", "len"))))
            if m.group(1) == "remove":
                return E(st=self.put(st, x, self.get(st, x) + ("without target" if self.deref(av[1], s) == ("p", "a4", 0) else "without something",)))
            v = self.view(av[1:], s)
            if v is None:
                self.lost.append(d[:50])
                return E()
            return E(st=self.put(st, x, self.get(st, x) + v))
        m = re.search(r"Blackboard::(snapshot|count)\(", d)
        if m:
            q = re.search(r"(\w+)$", self.fn.path(i.args[0])).group(1)
            if m.group(1) == "count":
                return E((self.now + (0, 1, 2)[st[2]]) & 0xffffffff if q == "process_blackboard" else "T")
            x = self.rec(av[1], s)
            if x is None or q not in BB:
                self.lost.append(d[:50])
                return E()
            tag = q.split("_")[0]
            if tag == "process":
                tag = "process: current" if st[2] == 1 else "process: read without the lock"
            return E(st=self.put(st, x, self.get(st, x) + (tag,)))
        if "callback<" in d and "operator()" in d:
            e = self.event(i, av, s)
            if e == "snapshot":
                x = self.rec(av[-1], s)
                if x is None:
                    self.lost.append(e)
                    return E()
                return E(st=self.put(st, x, self.get(st, x) + ("measured",)))
            if e == "process_snapshot":
                v = self.view(av[-1:], s)
                return E(st=st[:1] + (st[1] + ((e, v),),) + st[2:])
            return E(st=st[:1] + (st[1] + ((e, None),),) + st[2:])
        return E()


def snapshots(ck, p):
    off = field(p, "cali::Caliper::ThreadData", "process_bb_count")
    full = {"pull_context": ("given", {"thread": 1, "process: current": 1}),
            "pull_snapshot": ("given", {"thread": 1, "process: current": 1, "trigger": 1, "measured": 1}),
            "push_snapshot": (None, {"thread": 1, "process: current": 1, "trigger": 1, "measured": 1}),
            "push_snapshot_replace": (None, {"thread": 1, "process: current": 1, "trigger": 1, "measured": 1, "without target": 1})}
    for q, (out, want) in full.items():
        f = ck.need(fns(p, r"^cali::Caliper::%s\(" % q), "Caliper::" + q)[0]
        g = inl(p, f, NO, root=r"^cali::Caliper::%s[(]" % q)
        for name, now, cached, fresh in (("unchanged", 7, 7, True), ("changed", 7, 6, False), ("changed often", 0x7ffffff0, 3, False), ("counter wrapped around", 0x80000000, 0x7fffffff, False),
                                         ("counter wrapped far around", 5, 0x7ffffff0, False)):
            r = Snap(p, g, now, cached, off, fresh)
            try:
                r.run()
            except Limit:
                ck.count("not decided", 1)
                continue
            inst = "Caliper::%s, process data %s" % (q, name)
            if r.lost:
                ck.count("not decided", 1)
                continue
            bad = []
            n = 0
            for ins, rv, st, mem, facts in r.exits:
                if ins.op != "ret":
                    continue
                n += 1
                evs = [e for e in st[1] if e[0] == "process_snapshot"]
                if out:
                    c = r.get(st, out)
                    if evs:
                        bad.append("hands the record to the services")
                else:
                    if len(evs) != 1 or evs[0][1] is None:
                        bad.append("the record is handed over %d times" % len(evs))
                        continue
                    c = evs[0][1]
                have = {x: c.count(x) for x in c}
                if have != want:
                    bad.append("record has [%s]" % ", ".join(c))
                if "without target" in c and c.index("without target") < max(c.index(x) for x in ("thread", "process: current") if x in c):
                    bad.append("the replaced entry is removed before the blackboard data is added")
                if "without target" in c and "trigger" in c and c.index("without target") > c.index("trigger"):
                    bad.append("the replaced entry is removed after the new one is added")
                cach = [e[1] for e in st[1] if e[0] == "cached"]
                # versions: 0 before the lock, 1 under it, 2 after it; the copy has version 1
                if not fresh and (not cach or cach[-1] == "?" or cach[-1] > 1):
                    bad.append("the copy of the process data is marked with %s" % ("no version" if not cach else "a later version than it has"))
            if not n:
                raise Broken("no path through " + f.dem[:60])
            ck.decide(not bad, "snapshot content", inst, where(f), "; ".join(sorted(set(bad)))[:300])


# ---- updates
SCOPE = {"thread": "thread_blackboard", "process": "process_blackboard"}


class Upd(Tr):
    """trace of (operation, blackboard, key, visible, locked section)"""

    def __init__(self, p, f, prop, pm):
        self.prop, self.lost = prop, []
        Tr.__init__(self, p, f, st0=((), 0, 0), params=pm)

    def load(self, i, ptr, s):
        if "stack_error" in self.fn.path(i.a[0]):
            return 0
        return None

    def call(self, i, av, s):
        d = dem(self.fn, i)
        ev, held, sec = s.st
        if re.match(r"std::(lock_guard|unique_lock|scoped_lock)<std::mutex>::", d):
            if "~" in d or "unlock" in d:
                return E(st=(ev, 0, sec))
            m = re.search(r"(\w+)_lock$", self.fn.path(i.args[-1]))
            return E(st=(ev, m.group(1) if m else "?", sec + 1))
        if re.search(r"Attribute::properties\(", d):
            return E(self.prop)
        if re.search(r"Attribute::id\(", d):
            return E(("s", "id"))
        m = re.search(r"Blackboard::(get|set|del|exchange)\(", d)
        if m:
            k = 1 if i.args and self.fn.path(i.args[0]).endswith("blackboard") else 2
            q = re.search(r"(\w+)$", self.fn.path(i.args[k - 1]))
            key = av[k] if len(av) > k else "?"
            vis = av[k + 2] if m.group(1) in ("set", "exchange") else None
            if isinstance(vis, int):
                vis &= 1
            return E(st=(ev + ((m.group(1), q.group(1) if q else "?", key, vis, held, sec),), held, sec))
        return E()


def updates(ck, p):
    ops = []
    consts = props(p)
    if not consts:
        ck.count("not decided", 1)
        return
    for q, chan in [(x, False) for x in ("begin", "end", "end_with_value_check", "set", "get", "get_blackboard_entry", "exchange")] + [(x, True) for x in ("begin", "end", "set", "get")]:
        fs = [f for f in fns(p, r"^cali::Caliper::%s\(" % q) if ("ChannelBody*" in f.dem) == chan]
        f = ck.need(fs, "Caliper::%s" % q)[0]
        # the overload with an attribute
        fs = [x for x in fs if "Attribute const&" in x.dem]
        f = ck.need(fs, "Caliper::%s" % q)[0]
        g = inl(p, f, NO + [r"^cali::Attribute::", r"MetadataTree::", r"^cali::Entry::", r"::log_stack", r"^cali::Variant::"], root=r"^%s$" % posix(f.dem))
        for scope in ("thread", "process") if not chan else ("channel",):
            for asv in (0, 1):
                for una in (0, 1):
                    for hid in (0, 1):
                        prop = consts["SCOPE_" + ("THREAD" if scope == "channel" else scope.upper())] | consts["ASVALUE"] * asv | consts["UNALIGNED"] * una | consts["HIDDEN"] * hid | consts["SKIP_EVENTS"]
                        if q == "exchange" and not asv:
                            continue
                        r = Upd(p, g, prop, {})
                        try:
                            r.run()
                        except Limit:
                            ck.count("not decided", 1)
                            continue
                        name = "Caliper::%s%s, %s scope, %s%s%s" % (q, " on a channel" if chan else "", scope, "value" if asv else "reference", ", unaligned" if una else "", ", hidden" if hid else "")
                        bb = scope + "_blackboard"
                        key = ("s", "id") if asv else consts["UKEY"] if una else consts["RKEY"]
                        bad, unres, some = [], False, False
                        for ins, rv, st, mem, facts in r.exits:
                            if ins.op != "ret":
                                continue
                            sec = None
                            for op, b, k, vis, held, sc in st[0]:
                                some = True
                                if b == "?" or k == "T" or vis == "T":
                                    unres = True
                                    continue
                                if b != bb:
                                    bad.append("%ss in the %s" % (op, b.replace("_", " ")))
                                if k != key:
                                    bad.append("%ss slot %s" % (op, k[1] if isinstance(k, tuple) else k))
                                if vis is not None and vis != 1 - hid:
                                    bad.append("%ss the entry as %s" % (op, "visible" if vis else "hidden"))
                                if bb != "thread_blackboard" and held != bb:
                                    bad.append("%ss without the lock" % op)
                                if op == "get":
                                    sec = sc
                                if op in ("set", "del") and not asv and sec != sc and bb != "thread_blackboard":
                                    bad.append("%ss from data read in an earlier critical section" % op)
                        if unres:
                            ck.count("not decided", 1)
                            continue
                        ops.append(name)
                        if not some:
                            bad.append("never uses the blackboard")
                        ck.decide(not bad, "update place", name, where(f), "; ".join(sorted(set(bad)))[:300])
    ck.floor("update cases", len(ops), 20)


def posix(x):
    return re.sub(r"([()\[\]*.+?^${}|])", lambda m: "[%s]" % m.group(1) if m.group(1) not in "^[]" else "." , x)


def props(p):
    """property constants, read from the header's enumeration by its uses in the code"""
    import os
    import build
    s = open(os.path.join(build.REPO, "include/caliper/common/cali_types.h")).read()
    v = {}
    for n, x in re.findall(r"CALI_ATTR_(\w+)\s*=\s*(\d+)", s):
        v[n] = int(x)
    s = open(os.path.join(build.REPO, "src/caliper/Caliper.cpp")).read()
    for n, x in re.findall(r"constexpr\s+cali_id_t\s+(\w+)_KEY\s*\{\s*(\d+)\s*\}", s):
        v[{"REGION": "RKEY", "UNALIGNED": "UKEY"}.get(n, n)] = int(x)
    return v if {"SCOPE_THREAD", "SCOPE_PROCESS", "ASVALUE", "UNALIGNED", "HIDDEN", "SKIP_EVENTS", "RKEY", "UKEY"} <= set(v) else None


def body(ck):
    p = P.program()
    ck.rule("snapshot content", "on every path a snapshot holds the thread's and the process data once each, the process data copied under its lock after the last change (also when the update counter has wrapped around), and the trigger and measurement data; the complete record is what the services get")
    ck.rule("update place", "every update and query of an attribute's value uses the blackboard of the attribute's scope, its slot and its visibility, process and channel blackboards under their lock, with read and write in one critical section")
    for step in (snapshots, updates):
        try:
            step(ck, p)
        except Limit:
            ck.count("not decided", 1)
