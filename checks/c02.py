"""C02: shared state is only touched under the lock that protects it (static Eraser)."""
import re
from collections import defaultdict, Counter
import access, locks, prog, services
from flow import Limit
from check import Broken

TITLE = "shared state is only accessed under the lock that protects it"

TECHNIQUE = ("interprocedural (inlining) must-hold lockset dataflow over LLVM IR; a field's protecting lock is inferred as the "
             "lockset intersection over all its accesses (static Eraser)")
NOTE = ("covers the enumerated fields of the runtime, services, writers and readers that are shared between threads; channel lists, "
        "callback lists and configuration objects are unsynchronised by design and not covered; accesses through raw element "
        "pointers kept beyond the critical section are covered only for iterators and references")

# struct name suffix -> (fields, reason they are shared)
FIELDS = {
    "cali::Caliper::GlobalData": "attribute_map process_blackboard thread_data",
    "cali::ChannelBody": "channel_blackboard",
    "cali::MemoryPool::MemoryPoolImpl": "m_chunks m_total_reserved m_total_used",
    "cali::CaliWriter::CaliWriterImpl": "m_written_nodes m_num_written",
    "cali::CaliperMetadataDB::CaliperMetadataDBImpl": "m_nodes m_attributes m_string_db m_globals",
    "cali::Aggregator::AggregatorImpl": "m_entries m_hashmap m_key_attrs",
    "(anonymous namespace)::AggregateEntry": "kernels",
    "cali::Aggregator::AggregatorImpl::AggregateEntry": "kernels",
    "cali::Expand::ExpandImpl": "m_os",
    "cali::JsonFormatter::JsonFormatterImpl": "m_os m_num_recs",
    "cali::JsonSplitFormatter::JsonSplitFormatterImpl": "m_records",
    "cali::TableFormatter::TableImpl": "m_rows",
    "cali::UserFormatter::FormatImpl": "m_os",
    "cali::OutputStream::OutputStreamImpl": "is_initialized",
    "(anonymous namespace)::Aggregate": "m_tdb_list",
    "(anonymous namespace)::Trace": "tbuf_list num_acquired num_released num_retired",
    "(anonymous namespace)::AllocService": "g_tree g_current_tracked g_total_tracked g_max_tracked g_failed_untrack g_hwm g_region_hwm g_active_mem",
    "(anonymous namespace)::AllocStatsService": "g_alloc_map g_region_map g_active_mem g_region_hwm",
    "cali::MpiPattern::MpiPatternImpl": "req_map",
    "cali::MpiTracing::MpiTracingImpl": "comm_map req_map",
    "(anonymous namespace)::TimerService": "info_obj_list",
    "(anonymous namespace)::ValidatorService": "thread_stacks",
    "(anonymous namespace)::Statistics": "max_snapshot_len",
    "(anonymous namespace)::SymbolLookup": "m_sym_attr_map",
}

# entry points that, by the interface's contract, run while no other thread uses the object (final output of a
# formatter, reports at the end of the run, configuration before the first use)
SERIAL = {
    "cali::MemoryPool::MemoryPoolImpl": {"print_statistics"},
    "cali::CaliWriter::CaliWriterImpl": {"num_written"},
    "cali::CaliperMetadataDB::CaliperMetadataDBImpl": {"print_statistics"},
    "cali::JsonFormatter::JsonFormatterImpl": {"flush"},
    "cali::JsonSplitFormatter::JsonSplitFormatterImpl": {"flush"},
    "cali::TableFormatter::TableImpl": {"flush"},
    "cali::OutputStream::OutputStreamImpl": {"set_stream", "set_filename", "set_mode", "operator bool"},
    "cali::MpiPattern::MpiPatternImpl": {"init_mpi"},
    "cali::MpiTracing::MpiTracingImpl": {"init_mpi"},
}

EXEMPT_EVT = {"finish_evt", "register"}
# container members that only read an atomic or immutable word
ATOMIC = re.compile(r"cali::Blackboard::count\(|std::(__)?atomic")


STRUCTOR = re.compile(r"[CD][0-2]E")


def is_exempt(f, roles):
    q = f.qname
    last = q.rsplit("::", 1)[-1]
    cls = q.rsplit("::", 2)[-2] if "::" in q else ""
    cls = re.sub(r"<.*", "", cls)
    if last.startswith("~") or last == cls:
        return "constructor/destructor"
    r = roles.get(f.name, ())
    if "register" in r:
        return "registration"
    if r and set(r) <= EXEMPT_EVT:
        return "finish"
    return None


def flow(f):
    try:
        return locks.LockFlow(f, prune_eh=True)
    except Limit:
        return locks.JoinFlow(f)


def collect(p, rel, ck):
    """{(struct, field): [(lockset, kind, root fn, where, callee)]}"""
    m, roots = access.lock_module(p, rel)
    ro = services.roles(p, p.mods[rel])
    acc = defaultdict(list)
    ex = defaultdict(int)
    for f in roots:
        lf = flow(f)
        e = is_exempt(p.mods[rel].byname.get(f.name, f), ro)
        for i, pa, k, via in access.field_accesses(f):
            if i.id in lf.ops and lf.ops[i.id]:
                continue
            h = lf.held(i)
            if h is None:
                continue
            d = p.dem(i.callee) if i.is_call and i.callee else ""
            if d and ATOMIC.search(d) or "atomic" in m.loc_fn(i.loc):
                continue
            if re.search(r"::~\w+\(|::\w+\(\)$", d) and access.is_structor(d):
                continue
            for c in access.comps(pa):
                s, _, fld = c.rpartition("::")
                if e or f.qname.rsplit("::", 1)[-1] in SERIAL.get(s, ()) or STRUCTOR.search(m.loc_fn(i.loc)):
                    EXCOUNT[c] += 1
                    continue
                acc[(s, fld)].append((frozenset(x for x in h if not THREAD_GUARD.search(str(x))), via or k, f, i.where(), d))
        if not e:
            double_checked(p, m, f, lf, ck)
    return acc, ex, len(roots)


# state that threads share without a lock: must stay atomic
ATOMICS = [
    ("cali::Annotation::Impl", "m_attr_node"), ("cali::Annotation::Impl", "m_refcount"), ("cali::Loop::Impl", "refcount"),
    ("cali::Blackboard", "ucount"), ("cali::util::spinlock", "m_lock"), ("cali::internal::MetadataTree::GlobalData", "next_block"),
    ("(anonymous namespace)::Aggregate::ThreadDB", "stopped"), ("(anonymous namespace)::Aggregate::ThreadDB", "retired"),
    ("(anonymous namespace)::Trace::TraceBuffer", "stopped"), ("(anonymous namespace)::Trace::TraceBuffer", "retired"),
    ("(anonymous namespace)::AllocService", "g_alloc_uid"), ("cali::MpiTracing::MpiTracingImpl", "comm_id"),
    ("(anonymous namespace)::Statistics", "num_snapshots"), ("(anonymous namespace)::Statistics", "num_begin"),
    ("(anonymous namespace)::Statistics", "num_end"), ("(anonymous namespace)::Statistics", "num_set"),
    ("(anonymous namespace)::ValidatorService", "global_errors"),
]


def atomics(ck, p):
    n = 0
    for s, fld in ATOMICS:
        for rel, m in p.mods.items():
            st = [x for x in m.structs if x["n"] == s]
            fs = [f for x in st for f in x["fields"] if f[0] == fld]
            if fs:
                n += 1
                ck.decide(re.match(r"std::(__)?atomic|_Atomic", fs[0][1]), "atomic", "%s::%s" % (s.replace("(anonymous namespace)::", ""), fld), rel,
                          "shared between threads without a lock, but its type is '%s'" % fs[0][1][:60])
                break
    return n


THREAD_GUARD = re.compile(r"^siglock$")


def double_checked(p, m, f, lf, ck):
    """a flag tested without the lock and set under it must be tested again under it"""
    loads, stores = defaultdict(list), defaultdict(list)
    for i in f.ins:
        if i.op in ("load", "store"):
            pa = f.path(i.a[0] if i.op == "load" else i.a[1])
            if pa.startswith("@"):
                key = pa
            else:
                c = access.comps(pa)
                if not c or pa.startswith("alloca") or pa.endswith("*"):
                    continue
                key = c[-1]
            h = lf.held(i)
            if h is None:
                continue
            h = frozenset(x for x in h if not THREAD_GUARD.search(str(x)))
            if i.op == "store" and not key.startswith("@"):
                h = frozenset(x for x in h if str(x).rpartition("::")[0] == key.rpartition("::")[0])
            (loads if i.op == "load" else stores)[key].append((i, h))
    for key, ss in stores.items():
        ls = loads.get(key)
        if not ls:
            continue
        for i, h in ss:
            if not h:
                continue
            before = [(j, g) for j, g in ls if not g & h and reaches(f, j, i)]
            branch = [j for j, g in before if decides(f, j, i)]
            if not branch:
                continue
            # the guard must be re-evaluated while the lock is held
            good = any(g & h and f.dominates(j, i) for j, g in ls)
            ck.decide(good, "double-checked", "%s in %s" % (key.lstrip("@"), f.qname), i.where(),
                      "set under %s after a test made without it (%s); the test is not repeated under the lock, so two threads can both act" % (
                          ", ".join(map(str, h)), branch[0].where()))


def reaches(f, j, i):
    if j.bb == i.bb:
        return j.idx < i.idx
    return i.bb in f.reach_from(j.bb)


def decides(f, j, i):
    """the loaded value j controls a branch with a side from which i is not reached (an early return)"""
    seen, wl = set(), ["%%%d" % j.id]
    while wl:
        v = wl.pop()
        for u in f.users.get(v, ()):
            if u.op.startswith("icmp") or u.op in ("trunc", "zext", "xor", "freeze", "and"):
                if u.id not in seen:
                    seen.add(u.id)
                    wl.append("%%%d" % u.id)
            elif u.op == "br" and len(u.x) == 2:
                r = [i.bb in f.reach_from(s) for s in u.x]
                if sum(r) == 1:
                    return True
    return False


ACQ_ORD, REL_ORD = {"acquire", "acq_rel", "seq_cst"}, {"release", "acq_rel", "seq_cst"}


def primitives(ck, p):
    """the repository's own locks: acquire/release ordering, and no return from lock() without ownership"""
    n = 0
    for f in p.functions():
        mm = re.match(r".*spinlock::(lock|unlock)$", f.qname)
        if not mm:
            continue
        n += 1
        if mm.group(1) == "unlock":
            st = [i for i in f.ins if i.op in ("store", "atomicrmw.xchg") and i.x in REL_ORD]
            ck.decide(bool(st), "lock primitive", f.qname, "%s:%d" % (f.rel(), f.line),
                      "the lock word is not released with release ordering: writes made in the critical section may become visible after it")
            continue
        rmw = [i for i in f.ins if i.op.startswith(("atomicrmw", "cmpxchg"))]
        good = [i for i in rmw if i.x in ACQ_ORD]
        ck.decide(bool(rmw) and len(good) == len(rmw), "lock primitive", f.qname + " ordering", "%s:%d" % (f.rel(), f.line),
                  "the lock word is not acquired with an atomic acquire operation")
        # without the 'was free' outcome no return is reachable
        cut = set()
        for i in rmw:
            for b in f.blocks:
                t = b[-1]
                if t.op == "br" and len(t.x) == 2:
                    c = f.get(t.a[0])
                    pol = True
                    while c is not None and c.op in ("xor", "trunc", "zext", "freeze", "extractvalue"):
                        pol = pol if c.op != "xor" else not pol
                        c = f.get(c.a[0])
                    if c is None or not c.op.startswith("icmp."):
                        if c is not None and c.op.startswith("cmpxchg"):
                            cut.add((t.bb, t.x[0 if pol else 1]))
                        continue
                    if i.op.startswith("atomicrmw.xchg") and f.root(c.a[0]) == "%%%d" % i.id or c.a[0] == "%%%d" % i.id:
                        free_when = (c.op == "icmp.eq") == (c.a[1] == "#0")
                        cut.add((t.bb, t.x[0 if free_when == pol else 1]))
        seen, wl = set(), [0]
        while wl:
            b = wl.pop()
            if b in seen:
                continue
            seen.add(b)
            wl += [s for s in f.succ[b] if (b, s) not in cut]
        leak = [r for r in f.rets() if r.bb in seen]
        ck.decide(not leak, "lock primitive", f.qname + " ownership", "%s:%d" % (f.rel(), f.line),
                  "lock() can return without having found the lock free")
    return n


def body(ck):
    ck.rule("lock primitive", "the spinlock acquires with acquire ordering, returns only as owner, and releases with release ordering")
    ck.rule("guarded-by", "the locks held at all accesses to the field (outside construction, destruction, registration and "
                          "the documented serial entry points) have a lock in common")
    ck.rule("double-checked", "a state flag tested outside a lock and changed under it is tested again under that lock before the change")
    ck.rule("atomic", "state that threads share without a lock has an atomic type")
    p = prog.program()
    ck.floor("lock primitive methods", primitives(ck, p), 2)
    ck.floor("atomic shared fields", atomics(ck, p), 8)
    total, nfn = 0, 0
    found = set()
    for rel, m in sorted(p.mods.items()):
        if not any((locks.op(f, i) or ("",))[0] in ("acq", "defer", "trydefer", "try", "adopt") for f in m.functions for i in f.ins):
            continue
        acc, ex, n = collect(p, rel, ck)
        nfn += n
        have = {s["n"] for s in m.structs}
        for s, fs in FIELDS.items():
            if s not in have:
                continue
            for fld in fs.split():
                l = acc.get((s, fld))
                if not l:
                    continue
                if s.startswith("(anonymous") and not any(a[2].mod.rel == rel for a in l):
                    continue
                total += judge(ck, s, fld, l)
                found.add((s, fld))
    ck.count("entry functions analysed (callees inlined)", nfn)
    ck.count("exempt accesses (construction, teardown, serial entry points)", sum(EXCOUNT.values()))
    ck.floor("protected fields found", len(found), 20)
    ck.floor("field accesses checked", total, 150)
    ck.assume.append("objects are not shared before their constructor returns and not used after their destructor starts")


def judge(ck, s, fld, l):
    cnt = Counter()
    for h, *_ in l:
        for x in h:
            cnt[x] += 1
    key = "%s::%s" % (s.replace("(anonymous namespace)::", ""), fld)
    if not cnt:
        for h, k, f, w, d in l[:4]:
            ck.bad("guarded-by", key, w, "%s in %s without any lock; no access to this field is protected" % (k, f.qname))
        return len(l)
    best = cnt.most_common(1)[0][0]
    bad = [x for x in l if best not in x[0]]
    for h, k, f, w, d in bad:
        ck.bad("guarded-by", key, w, "%s in %s without %s%s" % (k, f.qname, best, (" (holding " + ", ".join(map(str, h)) + ")") if h else ""))
    if not bad:
        ck.ok("guarded-by", key, "%d accesses under %s" % (len(l), best))
    return len(l)


EXCOUNT = Counter()
