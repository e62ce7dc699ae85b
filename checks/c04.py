"""C04: nested Caliper calls never re-enter the runtime; signal-context snapshots do not allocate."""
import os, re
from collections import defaultdict
import access, locks, prog, services, sigctx, vcalls, ir
from flow import Explorer, Limit, cond_key
from c01 import bindings

TITLE = "interrupted or nested Caliper calls never re-enter the runtime"

TECHNIQUE = ("must-hold analysis of the per-thread reentrancy guard, finite evaluation of the guard test, typestate of signal-safe "
             "handles, context-sensitive reachability from signal handlers with constant propagation")
NOTE = ("signal handlers are those installed with sigaction; nested entry points are those plus the malloc-family and I/O interception "
        "callbacks and the C functions documented as async-signal safe; logging, snapshot callbacks that act only when the trigger "
        "carries their own attribute, and the C++ library's internals are not covered")

CB = r"^(void |bool )?cali::util::callback<.*>::operator\(\)"
FREE_FIELDS = {"lock", "is_initial_thread"}


def guard(ck, p):
    n = 0
    for rel, m0 in sorted(p.mods.items()):
        if not any("siglock::lock" in f.dem for f in m0.functions):
            continue
        td = [s for s in m0.structs if re.search(r"Caliper::ThreadData$", s["n"])]
        fields = {f[0] for s in td for f in s["fields"]} - FREE_FIELDS
        m, roots = access.lock_module(p, rel, [CB])
        raised = {}
        todo = []
        for f in roots:
            try:
                lf = locks.LockFlow(f, prune_eh=True)
            except Limit:
                lf = locks.JoinFlow(f)
            raised[f.dem] = any(o and o[0] == "acq" and o[1] == locks.SIG for o in lf.ops.values())
            last = f.qname.rsplit("::", 1)[-1]
            if access.is_structor(f.dem) or last in ("instance", "sigsafe_instance", "release") or "siglock" in f.dem:
                continue
            per = defaultdict(list)
            for i, pa, k, via in access.field_accesses(f):
                if lf.ops.get(i.id):
                    continue
                h = lf.held(i)
                if h is None or re.search(r"[CD][0-2]E", m.loc_fn(i.loc)):
                    continue
                d = p.dem(i.callee) if i.is_call and i.callee else ""
                s = None
                if "callback<" in d and "operator()" in d:
                    if "vents" in pa:
                        s = "event " + pa.rsplit("::", 1)[-1]
                else:
                    for c in access.comps(pa):
                        a, _, b = c.rpartition("::")
                        if a.endswith("Caliper::ThreadData") and b in fields or a.endswith("ChannelBody") and b == "channel_blackboard" \
                                or a.endswith("Caliper::GlobalData") and b in ("process_blackboard", "attribute_map"):
                            s = b
                if s is None or s == "stack_error" and k == "load":
                    continue
                per[s].append((i, locks.SIG in h))
            for s, l in per.items():
                todo.append((f, s, l))
        for f, s, l in todo:
            mm = re.match(r"(.*?)(?:::\$_\d+|::'lambda\d*'\(.*\))::operator\(\)", f.dem)
            if mm and any(raised.get(k) for k in raised if k.startswith(mm.group(1))):
                continue     # function object used by a function that holds the guard
            n += len(l)
            badl = [i for i, g in l if not g]
            ck.decide(not badl, "guard raised", "%s in %s" % (s, f.qname), badl[0].where() if badl else l[0][0].where(),
                      "%s is accessed while the thread's reentrancy guard is not raised: an interrupting or nested call would not notice "
                      "that the thread is inside Caliper" % s)
    return n


def table(ck, p):
    """Caliper::operator bool over all combinations of its inputs"""
    ob = [f for f in p.functions() if re.match(r"cali::Caliper::operator bool", f.dem)]
    ck.need(ob, "Caliper::operator bool")
    f0 = ob[0]
    m = prog.inlined(p, f0.mod.rel, ["^" + re.escape(f0.dem) + "$"], [r"siglock::(lock|unlock)\("])
    f = [x for x in m.functions if x.name == f0.name][0]
    n = 0
    for sg in (0, 1):
        for st in (0, 1):
            for sig in (0, 1):
                for lk in (0, 1, 2):
                    if not st and lk:
                        continue
                    want = int(bool(sg and st and not (sig and lk)))

                    class C(sigctx.Ctx):
                        def eval(self, i):
                            if i.op == "load":
                                pa = f.path(i.a[0])
                                if re.search(r"Caliper::sT$", pa):
                                    return st
                                if re.search(r"Caliper::sG$", pa):
                                    return sg
                                if re.search(r"m_is_signal$", pa):
                                    return sig
                                if re.search(r"ThreadData", pa) or "sT*" in pa:
                                    return lk
                                if pa == "a0":
                                    return sg
                                return "T"
                            return sigctx.Ctx.eval(self, i)
                    got = C(f, {}, lambda i: None).retval()
                    got = got & 1 if isinstance(got, int) else got
                    n += 1
                    ck.decide(got == want, "guard test", "runtime=%d thread=%d signal-safe=%d nesting=%d" % (sg, st, sig, lk),
                              "%s:%d" % (f0.rel(), f0.line), "Caliper::operator bool yields %s, must be %d" % (got, want))
    return n


def ctor_flag(ck, p):
    """instances handed out: sigsafe_instance marks the instance as signal-safe, instance() does not for live runtimes"""
    for f0 in p.functions():
        if not re.match(r"cali::Caliper::sigsafe_instance\(", f0.dem):
            continue
        m = prog.inlined(p, f0.mod.rel, ["^" + re.escape(f0.dem) + "$"], [])
        f = [x for x in m.functions if x.name == f0.name][0]
        st = [i for i in f.ins if i.op == "store" and re.search(r"m_is_signal$", f.path(i.a[1]))]
        ck.decide(bool(st) and all(i.a[0] in ("#1", "#true") for i in st), "guard test", "sigsafe_instance marks its instance", "%s:%d" % (f0.rel(), f0.line),
                  "an instance meant for signal handlers is not marked as such, so its validity test ignores the reentrancy guard")


def primitives(ck, p):
    for f in p.functions():
        mm = re.match(r".*siglock::(lock|unlock|is_locked)$", f.qname)
        if not mm:
            continue
        w = "%s:%d" % (f.rel(), f.line)
        if mm.group(1) == "is_locked":
            res = []
            for v in (0, 1, 3):
                class C(sigctx.Ctx):
                    def eval(self, i):
                        return v if i.op == "load" else sigctx.Ctx.eval(self, i)
                r = C(f, {}, lambda i: None).retval()
                res.append(r & 1 if isinstance(r, int) else r)
            ck.decide(res == [0, 1, 1], "guard counter", "is_locked", w, "is_locked() yields %s for nesting depths 0, 1, 3" % res)
            continue

        class C(sigctx.Ctx):
            def eval(self, i):
                return 5 if i.op == "load" else sigctx.Ctx.eval(self, i)
        c = C(f, {}, lambda i: None)
        st = [c.ev(i.a[0]) for i in f.ins if i.op == "store"] + ["rmw" for i in f.ins if i.op.startswith("atomicrmw")]
        want = [6] if mm.group(1) == "lock" else [4]
        rm = [i.op for i in f.ins if i.op.startswith("atomicrmw")]
        good = st == want or rm == ["atomicrmw.add" if want == [6] else "atomicrmw.sub"]
        ck.decide(good, "guard counter", mm.group(1), w, "%s() does not change the nesting depth by exactly one" % mm.group(1))


def handlers(p):
    h = []
    for f in p.functions():
        for i in f.ins:
            if i.op == "store" and i.a[0].startswith("@") and re.search(r"sigaction", f.path(i.a[1])):
                t = p.resolve(f.mod, i.a[0][1:].split("/")[0])
                if t:
                    h.append(t)
            elif i.is_call and i.callee in ("signal", "bsd_signal", "sigset"):
                t = p.resolve(f.mod, i.args[1].lstrip("@").split("/")[0]) if i.args[1].startswith("@") else None
                if t:
                    h.append(t)
    return h


def documented():
    """C functions whose comment promises async-signal safety"""
    out = set()
    t = open(os.path.join(ir.REPO, "include/caliper/cali.h")).read()
    for mm in re.finditer(r"/\*\*(.*?)\*/\s*(?:[\w\s\*]*?)\b(cali_\w+)\s*\(", t, re.S):
        if re.search(r"async-signal safe|safely called from a signal handler", mm.group(1)) and "not async-signal" not in mm.group(1):
            out.add(mm.group(2))
    return out


def nested_entries(p):
    out = {}
    for f in handlers(p):
        out[f.key] = (f, "signal handler")
    for m, nm, wr, hd, w in bindings(p):
        f = p.resolve(m, wr)
        if f is not None and nm in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc"):
            out[f.key] = (f, "wrapper of " + nm)
    for f in p.functions():
        for i in f.ins:
            if i.is_call and i.callee == "curious_register_callback":
                for a in i.args:
                    t = p.resolve(f.mod, a[1:].split("/")[0]) if a.startswith("@") else None
                    if t is not None:
                        out[t.key] = (t, "I/O callback")
    # functions that only decode data through immutable metadata are not affected by nesting
    doc = documented()
    raises = {f.name for f in p.functions() if f.dem.startswith("cali::Caliper::")
              and any((locks.op(f, i) or (0, 0))[1] == locks.SIG for i in f.ins if i.is_call)}
    for f in p.functions():
        if f.name in doc and any(i.is_call and i.callee in raises for i in f.ins):
            out[f.key] = (f, "documented as async-signal safe")
    return out


def typestate(ck, p):
    """instances from sigsafe_instance() are used only after a positive validity test; nested entries use no other kind"""
    ent = nested_entries(p)
    todo = dict(ent)
    for f in p.functions():
        if any(i.is_call and i.callee and "Caliper::sigsafe_instance" in p.dem(i.callee) for i in f.ins):
            todo.setdefault(f.key, (f, "uses sigsafe_instance"))
    bymod = defaultdict(list)
    for f, why in todo.values():
        bymod[f.mod.rel].append((f, why))
    n = 0
    for rel, l in sorted(bymod.items()):
        m = prog.inlined(p, rel, ["^" + re.escape(f.dem) + "$" for f, w in l], [r"^cali::Caliper::", r"^cali::Channel::"])
        for f0, why in l:
            f = m.byname.get(f0.name)
            if f is None:
                continue
            src = {}
            for i in f.ins:
                d = p.dem(i.callee) if i.is_call and i.callee else ""
                if re.match(r"cali::Caliper::sigsafe_instance\(", d):
                    src[f.root(i.args[0])] = i
                elif re.match(r"cali::Caliper::(instance\(|Caliper\(\))", d) and f0.key in ent:
                    n += 1
                    ck.bad("signal-safe handle", f0.qname, i.where(), "%s obtains a regular Caliper instance: called while the thread is inside "
                           "Caliper it re-enters the runtime" % why)
            if not src:
                continue
            test, bad = {}, []

            def step(i, st):
                if not i.is_call or not i.callee:
                    return st
                d = p.dem(i.callee)
                if not i.args:
                    return st
                if "sigsafe_instance(" in d:
                    return st - {f.root(i.args[0])}
                for a in i.args:
                    r = f.root(a) if a.startswith("%") else None
                    if r in src and f.path(a).startswith("alloca") and "*" not in f.path(a):
                        if re.match(r"cali::Caliper::(operator bool|is_signal|~Caliper|Caliper)\(|cali::Caliper::operator bool|llvm\.", d) or d.startswith("llvm."):
                            if "operator bool" in d:
                                test["%%%d" % i.id] = r
                        elif r not in st:
                            bad.append((i, d))
                return st

            def edge(fn, b, s, key, val, st):
                if key[0] == "v" and key[1] in test and val:
                    return st | {test[key[1]]}
                if key[0] == "v" and val:
                    j = fn.get(key[1])
                    # (c && more): the phi is false on the untested edge
                    if j is not None and j.op == "phi":
                        for v, pb in zip(j.a, j.x):
                            pass
                return st
            try:
                Explorer(f, frozenset(), step, edge=edge, prune_eh=True, track_all=True).run()
            except Limit:
                continue
            n += 1
            seen = set()
            for i, d in bad:
                if i.id not in seen:
                    seen.add(i.id)
                    ck.bad("signal-safe handle", f0.qname, i.where(), "%s is reached without a positive validity test of the instance" % ir.strip_params(d))
            if not bad:
                ck.ok("signal-safe handle", f0.qname, "%s:%d" % (f0.rel(), f0.line))
    return n, len(ent)


ALLOC = {"_Znwm", "_Znam", "malloc", "calloc", "realloc", "_ZnwmSt11align_val_t", "strdup", "posix_memalign", "fopen", "popen"}
FLUSH = re.compile(r"cali::Caliper::(flush|flush_and_write|create_attribute|clear|create_channel|delete_channel)\(")
LOG = re.compile(r"cali::Log::|std::(basic_)?o\w*stream|^std::operator<<|std::chrono")
GROW = re.compile(r"^(?:[\w:&<>, ]* )?std::(?:vector|back_insert_iterator)<.*>::(push_back|emplace_back|resize|insert)|std::back_insert")


def may_alloc(m, n, memo):
    if n in ALLOC:
        return n
    if n in memo:
        return memo[n]
    seen, wl = set(), [n]
    r = None
    while wl and r is None:
        x = wl.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in m.lib.get(x, ()):
            if y in ALLOC:
                r = y
                break
            wl.append(y)
    memo[n] = r
    return r


def sigpaths(ck, p):
    disp = vcalls.Dispatch(p)
    # callbacks receive the runtime itself as metadata interface
    disp._iface = [x for x in disp.iface() if x[0] == "_ZTVN4cali7CaliperE"]
    hs = handlers(p)

    def oracle(i):
        if not i.callee:
            return None
        d = p.dem(i.callee)
        if "Caliper::is_signal" in d:
            return 1
        if re.match(r"cali::Entry::empty\(", d):
            # lookup of a service's own attribute in the trigger information of a signal snapshot finds nothing
            r = i.fn.root(i.args[0])
            for u in i.fn.users.get(r, ()):
                if u.is_call and u.callee and u.args and u.args[0] == r and re.match(r"cali::SnapshotView::get\(", p.dem(u.callee)):
                    return 1
        return None

    def stop(i):
        d = p.dem(i.callee) if i.callee else ""
        return bool(FLUSH.match(d)) or bool(LOG.search(d[:60])) or d.endswith("::append") and False

    w = sigctx.Walk(p, disp, oracle, stop)
    w.run(hs)
    memo = defaultdict(dict)
    n = 0
    done = set()
    for k in w.order:
        cx = w.seen[k]
        f = cx.fn
        caps = [i for i in cx.calls() if i.callee and re.search(r"std::vector<.*>::capacity\(", p.dem(i.callee))]
        for i in cx.calls():
            if not i.callee:
                continue
            d = p.dem(i.callee)
            if LOG.search(d[:60]):
                continue
            fl = FLUSH.match(d)
            al = may_alloc(f.mod, i.callee, memo[f.mod.rel])
            if not fl and not al:
                continue
            n += 1
            cls = re.sub(r"\(anonymous namespace\)::", "", f.qname.rpartition("::")[0]) or f.rel()
            cls = re.sub(r"(::\w+)\(.*", r"\1", cls)
            key = "%s: %s" % (cls, (new_type(f, p, i, d) if fl or not al or i.callee in ALLOC else "allocation in " + re.sub(r"<.*", "", ir.strip_params(d))))
            if al and not fl and i.callee not in ALLOC and re.search(r"std::(vector|back_insert)", d):
                v = vec_path(f, p, i)
                if any(f.path(c.args[0]) == v for c in caps):
                    ck.ok("signal context", key, i.where() + " behind a capacity test")
                    continue
            if (key, i.where()) in done:
                continue
            done.add((key, i.where()))
            ck.bad("signal context", key, i.where(), "reachable from signal handler %s with Caliper::is_signal() true: %s" % (
                ", ".join(h.qname for h in hs), w.chain(k)))
    for k in w.order:
        f = w.seen[k].fn
        ck.ok("signal context", "function " + f.qname)
    return len(w.order), n, len(hs)


def new_type(f, p, i, d):
    """'new T' when the allocation is followed by T's constructor"""
    if i.callee in ALLOC:
        for u in f.users.get("%%%d" % i.id, ()):
            if u.is_call and u.callee and u.args and u.args[0] == "%%%d" % i.id and access.is_structor(p.dem(u.callee)):
                return "new " + ir.strip_params(p.dem(u.callee)).rpartition("::")[0].replace("(anonymous namespace)::", "")
    return ir.strip_params(d)


def vec_path(f, p, i):
    if "back_insert" in p.dem(i.callee):
        # iterator made from a container
        for j in f.ins:
            if j.is_call and j.callee and "back_inserter" in p.dem(j.callee):
                return f.path(j.args[-1])
    for a in i.args:
        if not a.startswith("%"):
            continue
        pa = f.path(a)
        if not pa.startswith("alloca"):
            return pa
    return ""


def body(ck):
    ck.rule("guard raised", "measurement state is accessed and event callbacks are invoked only while the thread's reentrancy guard is raised")
    ck.rule("guard test", "a signal-safe instance is valid exactly when the runtime exists and the thread is not inside Caliper")
    ck.rule("guard counter", "the guard counts nesting: lock adds one, unlock removes one, is_locked means non-zero")
    ck.rule("signal-safe handle", "entry points for signal or nested contexts obtain a signal-safe instance and use it only after testing it")
    ck.rule("signal context", "code reachable from a signal handler (with is_signal() true) neither allocates memory nor flushes")
    p = prog.program()
    ck.floor("guarded accesses", guard(ck, p), 60)
    primitives(ck, p)
    ck.floor("guard test combinations", table(ck, p), 12)
    ctor_flag(ck, p)
    n, e = typestate(ck, p)
    ck.floor("functions with signal-safe instances", n, 8)
    ck.floor("nested entry points", e, 4)
    a, b, h = sigpaths(ck, p)
    ck.floor("signal handlers", h, 1)
    ck.floor("functions reachable in signal context", a, 20)
    ck.count("allocation or flush sites judged", b)
