"""C01: interception wrappers are transparent (path analysis over the inlined wrapper bodies)."""
import re
from collections import defaultdict
from flow import Explorer, norm_cond
import prog

TITLE = "intercepted calls reach the original once, with the caller's arguments and result"

TECHNIQUE = "path-sensitive typestate analysis of the interception wrappers in LLVM IR, binding tables from constant initialisers"
NOTE = ("every wrapper bound through gotcha is analysed on all of its intraprocedural paths (local callees inlined): calls of the "
        "original, argument and result flow, errno and nesting depth; what Caliper's own callbacks do in between is not analysed")


def canon(n):
    return re.sub(r"64$", "", n.lstrip("_"))


def bindings(p):
    """[(mod, name, wrapper symbol, handle symbol, where)] from static tables and dynamic initialisers"""
    out = []
    for m in p.mods.values():
        seen = set()
        for gname, g in m.globals.items():
            if "gotcha_binding" not in g["t"] or not g["init"]:
                continue
            rows = g["init"] if isinstance(g["init"][0], list) else [g["init"]]
            for r in rows:
                if len(r) == 3 and r[1].startswith("@"):
                    t = (r[0][2:] if r[0].startswith("s:") else "?", r[1][1:], r[2])
                    if t not in seen:
                        seen.add(t)
                        out.append((m, t[0], t[1], t[2], gname))
        # dynamically initialised tables
        for f in m.functions:
            cells = defaultdict(dict)
            for i in f.ins:
                if i.op != "store":
                    continue
                pa = f.path(i.a[1])
                g = m.globals.get(f.root(i.a[1]).lstrip("@").split("/")[0])
                if g is None or "gotcha_binding" not in g["t"]:
                    if not re.search(r"gotcha_binding_t::(wrapper_pointer|function_handle)$", pa):
                        continue
                mm = re.match(r"(.*?)(?:/gotcha_binding_t::(\w+))?$", pa)
                cells[mm.group(1)][mm.group(2) or "name"] = i.a[0]
            for el, c in cells.items():
                if "wrapper_pointer" not in c:
                    continue
                nm = c.get("name", "?")
                if nm.startswith("s:"):
                    nm = nm[2:]
                elif nm.startswith("%"):
                    g = p.glob(m, f.path(nm).rstrip("*"))
                    init = g["init"] if g else None
                    init = init[0] if isinstance(init, list) and init else init
                    nm = init[2:] if isinstance(init, str) and init.startswith("s:") else "?"
                out.append((m, nm, c["wrapper_pointer"].lstrip("@"), c.get("function_handle", "?"), el))
    return out


WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}


def result_ids(fn, v, is_orig, w=None, depth=0):
    """does v carry, unconverted, the result of an original call?  returns the set of leaf values"""
    i = fn.get(v)
    if i is None or depth > 30:
        return {v}
    if i.op in ("sext", "zext", "trunc", "bitcast", "freeze"):
        leaves = result_ids(fn, i.a[0], is_orig, w, depth + 1)
        tw = WIDTH.get(i.ty, 64)
        for l in leaves:
            j = fn.get(l)
            if j is not None and WIDTH.get(j.ty, 64) > tw:
                return leaves | {"narrowed"}
        return leaves
    if i.op == "select":
        return result_ids(fn, i.a[1], is_orig, w, depth + 1) | result_ids(fn, i.a[2], is_orig, w, depth + 1)
    return {v}


def guarded_ignore(fn, blk, par, succ=None):
    """block blk is only reached when `par == constant` held"""
    seen = set()
    b, nxt = blk, succ
    while b not in seen:
        seen.add(b)
        t = fn.blocks[b][-1]
        if nxt is not None and t.op == "br" and len(t.x) == 2:
            v, pol = norm_cond(fn, t.a[0])
            i = fn.get(v)
            if i is not None and i.op in ("icmp.eq", "icmp.ne") and par in i.a:
                other = [a for a in i.a if a != par]
                if other and (other[0] == "null" or other[0].startswith(("#", "inttoptr"))):
                    want = (i.op == "icmp.eq") == pol
                    if t.x[0] != t.x[1] and t.x[0 if want else 1] == nxt:
                        return True
        ps = fn.pred[b]
        if len(ps) != 1:
            return False
        nxt, b = b, ps[0]
    return False


def arg_ok(fn, v, par, depth=0):
    """v is parameter `par`, or a replacement for a status the caller asked to ignore"""
    if v == par:
        return True
    i = fn.get(v)
    if i is None or depth > 6:
        return False
    if i.op in ("bitcast", "freeze"):
        return arg_ok(fn, i.a[0], par, depth + 1)
    if i.op == "load":
        j = fn.get(i.a[0])
        if j is not None and j.op == "alloca":
            st = [u for u in fn.users["%%%d" % j.id] if u.op == "store" and u.a[1] == i.a[0]]
            return bool(st) and all(arg_ok(fn, u.a[0], par, depth + 1) for u in st)
        return False
    if i.op == "phi":
        for a, pb in zip(i.a, i.x):
            if a == v or arg_ok(fn, a, par, depth + 1):
                continue
            if re.fullmatch(r"a\d+", a) or not guarded_ignore(fn, pb, par, i.bb):
                return False
        return True
    if i.op == "select":
        c, pol = norm_cond(fn, i.a[0])
        j = fn.get(c)
        if j is not None and j.op in ("icmp.eq", "icmp.ne") and par in j.a and "null" in j.a:
            keep = i.a[2] if (j.op == "icmp.eq") == pol else i.a[1]
            return arg_ok(fn, keep, par, depth + 1)
    return False


HARMLESS = re.compile(r"^(llvm\.|__errno_location|gotcha_get_wrappee|_Z.*siglock|__clang_call_terminate)")


def check_wrapper(ck, p, fn, names, handles, errno_rule):
    label = names[0] if len(names) == 1 else "/".join(sorted(set(names)))
    where = "%s:%d" % (fn.rel(), fn.line)
    wrappee = {}
    used = set()
    for i in fn.ins:
        if i.is_call and i.callee == "gotcha_get_wrappee":
            h = fn.path(i.a[1])
            wrappee["%%%d" % i.id] = h
            used.add(h[:-1] if h.endswith("*") else h)

    def from_wrappee(v, d=0):
        if v in wrappee:
            return True
        i = fn.get(v)
        if i is None or d > 8:
            return False
        if i.op in ("bitcast", "freeze", "inttoptr", "ptrtoint"):
            return from_wrappee(i.a[0], d + 1)
        if i.op == "phi":
            return all(a == v or from_wrappee(a, d + 1) for a in i.a)
        if i.op == "select":
            return from_wrappee(i.a[1], d + 1) and from_wrappee(i.a[2], d + 1)
        return False

    orig = {i.id: i for i in fn.ins if i.is_call and i.callee is None and from_wrappee(i.a[0])}
    tls = set()
    for i in fn.ins:
        if i.op == "store":
            g = fn.path(i.a[1])
            if "threadlocal" in g or (g.startswith("@") and (p.glob(fn.mod, g) or {}).get("tls")):
                tls.add(g)
    nonvoid = fn.ret != "void"

    # --- arguments (flow-insensitive: SSA form makes them path-independent)
    npar = len(fn.params)
    substituted = {}
    for i in orig.values():
        args = i.args
        va = [j for j in fn.ins if j.is_call and (j.callee or "").startswith("llvm.va_start")]
        good = True
        msg = ""
        exp = npar + (1 if va else 0)
        if len(args) != exp:
            good, msg = False, "passes %d arguments, the application passed %d" % (len(args), exp)
        else:
            for k, a in enumerate(args):
                if k < npar:
                    if arg_ok(fn, a, "a%d" % k):
                        continue
                    substituted[k] = a
                elif any(fn.root(a) == fn.root(j.a[1]) for j in va):
                    continue
                else:
                    good, msg = False, "variable arguments are not forwarded"
        yield_bad = [k for k in substituted]
        if yield_bad and not start_routine(ck, p, fn, args, substituted, label):
            good, msg = False, "argument %s of the original call is not the application's argument" % ", ".join(
                str(k + 1) for k in yield_bad)
        ck.decide(good, "arguments", label, i.where(), msg)
    # --- stores through the application's pointers
    for i in fn.ins:
        if i.op == "store" and re.match(r"a\d+($|/|\[|\+)", fn.path(i.a[1])):
            ck.bad("arguments", label, i.where(), "the wrapper writes to memory the application passed in")

    # --- path automaton
    # state: calls, cells holding the result, loads of such cells, errno status, saved ids, tls delta
    def cell(v):
        r = fn.path(v)
        return r if r.startswith("alloca") else None

    def is_result(v, st):
        ls = result_ids(fn, v, None)
        for l in ls:
            j = fn.get(l)
            if j is not None and (j.id in orig or j.id in st[2]):
                continue
            return False
        return bool(ls)

    def step(i, st):
        n, cells, loads, err, saved, delta = st
        if i.id in orig and i.is_call:
            return (min(n + 1, 2), cells, loads, "fresh", frozenset(), delta)
        if i.op == "store":
            c = cell(i.a[1])
            pa = fn.path(i.a[1])
            if pa in tls:
                j = fn.get(i.a[0])
                if j is not None and j.op in ("add", "sub") and j.a[1].lstrip("#-").isdigit() and fn.path(j.a[0]) == pa + "*":
                    k = int(j.a[1][1:])
                    if k >= 1 << 31:
                        k -= 1 << 32
                    delta += k if j.op == "add" else -k
                return (n, cells, loads, err, saved, delta)
            j = fn.get(fn.root(i.a[1]))
            if j is not None and j.is_call and j.callee == "__errno_location" and pa.count("*") == 0:
                src = fn.get(i.a[0])
                vs = result_ids(fn, i.a[0], None)
                ok = all(v.startswith("%") and int(v[1:]) in saved or v in saved for v in vs)
                return (n, cells, loads, "fresh" if ok else "dirty", saved, delta)
            if c is not None:
                if is_result(i.a[0], st):
                    cells = cells | {c}
                else:
                    cells = cells - {c}
                if errno_rule and any(v.startswith("%") and int(v[1:]) in saved for v in [i.a[0]]):
                    cells = cells | {"errno:" + c}
                elif "errno:" + c in cells:
                    cells = cells - {"errno:" + c}
                return (n, cells, loads, err, saved, delta)
        if i.op == "load":
            c = cell(i.a[0])
            if c is not None and c in cells:
                loads = loads | {i.id}
            elif i.id in loads:
                loads = loads - {i.id}
            if c is not None and "errno:" + c in cells:
                saved = saved | {i.id}
            j = fn.get(fn.root(i.a[0]))
            if j is not None and j.is_call and j.callee == "__errno_location" and err == "fresh":
                saved = saved | {i.id}
            return (n, cells, loads, err, saved, delta)
        if i.is_call and n and not HARMLESS.match(i.callee or "?"):
            return (n, cells, loads, "dirty", saved, delta)
        return st

    def phi(i, v, st0, st):
        n, cells, loads, err, saved, delta = st
        loads = loads | {i.id} if is_result(v, st0) else loads - {i.id}
        sv = v.startswith("%") and int(v[1:]) in st0[4]
        saved = saved | {i.id} if sv else saved - {i.id}
        return (n, cells, loads, err, saved, delta)

    ex = Explorer(fn, (0, frozenset(), frozenset(), "none", frozenset(), 0), step, prune_eh=True, phi=phi)
    ex.run()
    once, res, errn, bal = [], [], [], []
    for ins, st, facts, cur in ex.exits:
        if ins.op != "ret":
            continue
        if st[0] != 1:
            once.append((st[0], ex.trace(cur)))
        elif nonvoid and not is_result(ins.a[0], st):
            res.append(ex.trace(cur))
        if st[3] == "dirty":
            errn.append(ex.trace(cur))
        if st[5] != 0:
            bal.append((st[5], ex.trace(cur)))
    if not any(e[0].op == "ret" for e in ex.exits):
        ck.bad("call-once", label, where, "the wrapper never returns")
        return used
    ck.decide(not once, "call-once", label, where, once and "original called %s on the path %s" % (
        "more than once" if once[0][0] > 1 else "not at all", once[0][1]))
    if nonvoid:
        ck.decide(not res, "result", label, where, res and "something other than the original's result is returned on the path " + res[0])
    if errno_rule:
        ck.decide(not errn, "errno", label, where, errn and "errno is not the original's on the path " + errn[0])
    if tls:
        ck.decide(not bal, "nesting-depth", label, where, bal and "nesting depth changes by %d on the path %s" % bal[0])
    # --- binding: handle used belongs to the same function name
    va = any(j.is_call and (j.callee or "").startswith("llvm.va_start") for j in fn.ins)
    for nm in names:
        okh = bool(used)
        for h in used:
            hn = handles.get(h, set())
            want = {canon(nm)} | ({"v" + canon(nm)} if va else set())
            if not hn or not {canon(x) for x in hn} <= want:
                okh = False
        ck.decide(okh, "binding", nm, where, "the wrapper bound to %s calls the original of %s" % (
            nm, ", ".join(sorted(sum([sorted(handles.get(h, {"an unbound handle"})) for h in used], []))) or "nothing"))
    return used


def all_results(t, v, hits, d=0):
    i = t.get(v)
    if i is None or d > 10:
        return False
    if i.op == "phi":
        return all(all_results(t, a, hits, d + 1) for a in i.a if a != v)
    return i in hits


def start_routine(ck, p, fn, args, subst, label):
    """thread start: (routine, argument) may be replaced by a trampoline that runs them exactly once"""
    ks = sorted(subst)
    fptr = [k for k in ks if args[k].startswith("@")]
    if len(fptr) != 1 or len(ks) != 2:
        return False
    tr = p.resolve(fn.mod, args[fptr[0]][1:])
    obj = [k for k in ks if k not in fptr][0]
    if tr is None:
        return False
    cells = {}
    ro = fn.root(args[obj])
    for i in fn.ins:
        if i.op == "store" and fn.root(i.a[1]) == ro and fn.get(i.a[1] if i.a[1].startswith("%") else "") is not None or \
           i.op == "store" and i.a[1] == args[obj]:
            cells[fn.path(i.a[1])[len(fn.path(args[obj])):]] = i.a[0]
        if i.is_call and (i.callee or "").startswith("llvm.memcpy") and fn.root(i.a[1]) == ro:
            return False
    fcell = [c for c, v in cells.items() if v == "a%d" % fptr[0]]
    acell = [c for c, v in cells.items() if v == "a%d" % obj]
    if len(fcell) != 1 or len(acell) != 1:
        return False
    m = prog.inlined(p, tr.mod.rel, ["^" + re.escape(tr.dem) + "$"])
    t = m.byname.get(tr.name)
    if t is None:
        return False
    want_f, want_a = "a0" + fcell[0] + "*", "a0" + acell[0] + "*"
    hits = [i for i in t.ins if i.is_call and i.callee is None and t.path(i.a[0]) == want_f]

    def step(i, st):
        return min(st + 1, 2) if i in hits else st
    ex = Explorer(t, 0, step, prune_eh=True)
    ex.run()
    good = bool(hits)
    for i in hits:
        good &= len(i.args) == 1 and t.path(i.args[0]) == want_a
    for ins, st, facts, cur in ex.exits:
        if ins.op == "ret":
            good &= st == 1 and all_results(t, ins.a[0], hits)
    ck.decide(good, "start-routine", label, "%s:%d" % (t.rel(), t.line),
              "the thread start routine is not run exactly once with the application's argument and its result returned")
    return True


def body(ck):
    ck.rule("call-once", "on every path to a return, the function obtained from gotcha_get_wrappee is called exactly once")
    ck.rule("arguments", "the original receives the wrapper's parameters unchanged, in order (a status the caller ignores may be replaced)")
    ck.rule("result", "every return yields the value of the original call, through locals if need be, unconverted")
    ck.rule("errno", "no foreign call separates the original call from the return without errno being saved and restored")
    ck.rule("nesting-depth", "thread-local nesting counters change by zero on every path through a wrapper")
    ck.rule("binding", "a wrapper bound under a name calls the wrappee of the handle bound under that name (or an alias of it)")
    ck.rule("start-routine", "a substituted thread start routine runs the application's routine once with its argument")
    p = prog.program()
    bs = bindings(p)
    handles = defaultdict(set)
    groups = {}
    for m, nm, w, h, el in bs:
        handles[h].add(nm)
        groups.setdefault((m.rel, w), []).append(nm)
    # several wrappers for one symbol would shadow each other
    mods = defaultdict(list)
    for (rel, w), names in groups.items():
        mods[rel].append((w, names))
    total = 0
    for rel, ws in sorted(mods.items()):
        fns = [p.resolve(p.mods[rel], w) for w, _ in ws]
        ck.need(all(fns), "wrapper function bodies in " + rel)
        m = prog.inlined(p, rel, ["^" + re.escape(f.dem) + "$" for f in fns])
        for w, names in sorted(ws):
            f = m.byname.get(w)
            ck.need(f, "inlined body of " + w)
            base = {canon(n) for n in names}
            errno_rule = bool(base & {"malloc", "calloc", "realloc", "memalign", "posix_memalign", "valloc"})
            check_wrapper(ck, p, f, names, handles, errno_rule)
            total += 1
        ck.count("wrappers in " + rel, len(ws))
    ck.floor("interception wrappers", total, 40)
    ck.assume.append("callbacks invoked by a wrapper return normally (exceptional paths are not wrapper returns)")
