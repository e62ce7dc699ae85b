"""C03: locks are released on every path, never taken twice, and acquired in one order."""
import re
from collections import defaultdict
import access, locks, prog, services, vcalls
from flow import Limit

TITLE = "locks are released on every path and never deadlock"

TECHNIQUE = ("typestate and lock-order analysis over LLVM IR: path-sensitive lock balance on normal and exceptional exits, "
             "inlined must-hold locksets for double acquisition, interprocedural lock-order graph with cycle detection")
NOTE = ("every function of the library that acquires a lock, with its callees; callbacks invoked through function objects are "
        "resolved to the functions registered for the event; lock identity is the owning class and field, so two instances of one "
        "class count as one lock (nesting two instances of one class is reported unless both are taken by one scoped_lock)")

SIG = re.compile(r"^siglock$|spinlock::m_lock|first-member:(\(anonymous namespace\)::)?(siglock|cali::util::spinlock)")
KINDS = ("acq", "defer", "trydefer", "try", "adopt")
CB = r"^(void |bool )?cali::util::callback<.*>::operator\(\)"


def lockfn(d):
    """the lock primitives themselves"""
    return re.search(r"(spinlock|siglock)::|^std::(lock_guard|unique_lock|scoped_lock|shared_lock)<", d)


def name(l):
    return str(l).replace("(anonymous namespace)::", "")


def body(ck):
    ck.rule("balanced", "every lock acquired in the function is released on every normal and exceptional path out of it")
    ck.rule("no double acquisition", "no path acquires a non-recursive lock it already holds, in the function or through a callee")
    ck.rule("lock order", "the order in which locks are nested, through calls and event callbacks, is acyclic")
    p = prog.program()
    disp = vcalls.Dispatch(p)
    summ = {}      # fn key -> (acquires, calls)
    edges = defaultdict(list)
    info = {}
    nacq = 0
    for rel, m0 in sorted(p.mods.items()):
        m, roots = access.lock_module(p, rel, [CB])
        for f in roots:
            if lockfn(f.dem):
                continue
            ops = {i.id: locks.op(f, i) for i in f.ins if i.is_call}
            ops = {k: o for k, o in ops.items() if o}
            lf = None
            own = [o for o in ops.values() if o[0] in KINDS]
            if own:
                try:
                    lf = locks.LockFlow(f, ops=ops)
                except Limit:
                    lf = locks.JoinFlow(f)
                nacq += len(own)
                balance(ck, f, lf)
            info[f.key] = (f, ops, lf)
    # transitive acquisitions
    acq, calls = {}, {}
    for k, (f, ops, lf) in info.items():
        acq[k] = {(l, "") for o in ops.values() if o[0] in ("acq", "try", "adopt") or o[0] == "ul-lock"
                  for l in (o[1] if isinstance(o[1], tuple) else (o[1],)) if l and not SIG.search(str(l))}
        for i in f.ins:
            if i.is_call and i.id not in ops:
                ts = [t for t in disp.targets(i) if t.key in info]
                if ts:
                    calls.setdefault(k, []).append((i, ts))
    trans = {k: {l for l, _ in v} for k, v in acq.items()}
    why = {}
    ch = True
    while ch:
        ch = False
        for k, cs in calls.items():
            for i, ts in cs:
                for t in ts:
                    new = trans[t.key] - trans[k]
                    if new:
                        for l in new:
                            why[(k, l)] = t.key
                        trans[k] |= new
                        ch = True
    nn = 0
    for k, (f, ops, lf) in info.items():
        if lf is None:
            continue
        for i in f.ins:
            if not i.is_call:
                continue
            h = {x for x in (lf.held(i) or ()) if not SIG.search(str(x))}
            o = ops.get(i.id)
            if o and o[0] == "acq":
                ls = o[1] if isinstance(o[1], tuple) else (o[1],)
                for a in h:
                    for b in ls:
                        if a != b and b and not SIG.search(str(b)):
                            edges[(a, b)].append((f, i, None))
            elif h:
                for j, ts in calls.get(k, ()):
                    if j is i:
                        nn += 1
                        for t in ts:
                            for b in trans[t.key]:
                                if b in h:
                                    ck.bad("no double acquisition", "%s in %s" % (name(b), f.qname), i.where(),
                                           "%s is called while %s is held and acquires it again (%s)" % (t.qname, name(b), chain(info, why, t.key, b)))
                                else:
                                    for a in h:
                                        edges[(a, b)].append((f, i, t))
    for e, l in sorted(edges.items(), key=str):
        ck.analysed.setdefault("nesting " + name(e[0]) + " -> " + name(e[1]), len(l))
    g = defaultdict(set)
    for a, b in edges:
        g[a].add(b)
    for (a, b), l in sorted(edges.items(), key=str):
        # is a reachable from b
        seen, wl, par = set(), [b], {}
        while wl:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in g[x]:
                par.setdefault(y, x)
                wl.append(y)
        f, i, t = l[0]
        if a in seen:
            f2, i2, t2 = edges[(par[a], a)][0]
            ck.bad("lock order", "%s -> %s" % (name(a), name(b)), i.where(), "%s takes %s while holding %s; %s (%s) takes them in the opposite order" % (
                f.qname, name(b), name(a), f2.qname, i2.where()))
        else:
            ck.ok("lock order", "%s -> %s" % (name(a), name(b)), i.where())
    ck.floor("lock acquisitions (callees inlined)", nacq, 80)
    ck.count("calls made while a lock is held, with repository targets", nn)
    ck.count("functions summarised", len(info))
    ck.count("virtual call sites resolved", disp.nvirt)
    ck.count("event callback sites resolved", disp.nevt)


def chain(info, why, k, l):
    out = []
    for _ in range(8):
        out.append(info[k][0].qname)
        k = why.get((k, l))
        if k is None:
            break
    return " -> ".join(out)


def balance(ck, f, lf):
    if isinstance(lf, locks.JoinFlow):
        return
    seen = set()
    for ins, st, facts, cur in lf.ex.exits:
        if ins.op == "unreachable":
            continue
        for l, g, h in st:
            if h and (l, ins.id) not in seen:
                seen.add((l, ins.id))
                ck.bad("balanced", "%s in %s" % (name(l), f.qname), ins.where() if not ins.where().endswith(":") else f.rel() + ":" + str(f.line),
                       "%s is still held when the function %s; path: %s" % (name(l), "throws" if ins.op == "resume" else "returns", lf.ex.trace(cur)))
    if not seen:
        ck.ok("balanced", f.qname, "%s:%d" % (f.rel(), f.line))
    dbl = {(i.id, l): (i, l) for i, l in lf.double if not SIG.search(str(l))}
    for i, l in dbl.values():
        ck.bad("no double acquisition", "%s in %s" % (name(l), f.qname), i.where(), "%s is acquired while it is already held" % name(l))
    if not dbl:
        ck.ok("no double acquisition", f.qname)
