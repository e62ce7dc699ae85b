"""C17: the C, Fortran and Python layers, the annotation classes and the macros perform the operation of their name."""
import ast
import os
import re
import subprocess
import build
import fwd
import ir
import prog
from absint import Limit
from check import Broken
from fwd import Fwd, is_value, param, sym, variant
from terms import Undef, cev, isterm

TITLE = "Language bindings forward to the matching native operation"
TECHNIQUE = ("forwarding summaries: path-sensitive abstract interpretation of the inlined LLVM IR of every thin function (calls performed, argument provenance and "
             "bit-vector value), judged by the operation the function's name and signature promise; compiled probes for the annotation macros; "
             "syntax-level checks of the Fortran module, the Python binding tables and the Python decorator")
NOTE = ("C annotation functions, annotation classes, annotation macros, C/Fortran wrapper functions, Fortran module procedures and constants, Python binding classes, "
        "tables and decorator; what the native operation itself does is left to the other properties")

OPS = re.compile(r"^cali::Caliper::(begin|end|end_with_value_check|set|activate_channel|deactivate_channel|delete_channel|async_event|flush_and_write|flush)\(")
SUFFIX = {"int": "int", "double": "double", "string": "string", "uint": "uint"}
TYPES = {"int": 2, "double": 6, "string": 4, "uint": 3}


def validity(fact):
    """a path condition on whether a pointer argument, the runtime, a channel or an attribute is there"""
    f = fact[0]
    if isinstance(f, tuple) and f and f[0] == "cmp":
        for a, b in ((f[3], f[4]), (f[4], f[3])):
            n = sym(a)
            if n and n.startswith("r") or isinstance(a, tuple) and a and a[0] == "t":
                return not any(x.startswith("a") for x in leaves(a))
        return False
    return not any(re.match(r"a\d+$", x) for x in leaves(f)) or "ptr" in repr(f)


def leaves(v):
    if isinstance(v, tuple):
        if v and v[0] == "x":
            return {v[1]}
        return set().union(*[leaves(q) for q in v]) if v else set()
    return set()


def summarise(f, want, ck, **kw):
    a = Fwd(f, want, **kw)
    try:
        a.run()
    except Limit:
        ck.count("not decided", 1)
        return None
    return [x for x in a.exits if x[0] is None or x[0].op != "resume"]


def allsyms(v):
    if isinstance(v, tuple):
        return set().union(*[allsyms(q) for q in v]) if v else set()
    return {v} if isinstance(v, str) else set()


def where(f):
    return f.where() if hasattr(f, "where") else "%s:%s" % (os.path.relpath(f.file, os.environ.get("CALI_REPO", "/repo")), f.line)


# ------------------------------------------------------------------ C annotation functions
def wantc(d, i):
    return bool(re.match(r"^(cali::Caliper::|cali_make_variant|cali::Attribute::|cali::Channel::)", d))


def attr_of(v, log):
    """how the attribute was obtained: ('global', name) | ('id', arg) | ('name', arg) | ('create', name arg, type, props)"""
    if isinstance(v, tuple) and v[0] == "g":
        return ("global", v[1])
    n = sym(v)
    if n and n.startswith("@"):
        return ("global", n[1:])
    for d, args, r, i in log:
        if n and n.split(".")[0] == r:
            if d.startswith("cali::Caliper::get_attribute("):
                a = args[1]
                if isinstance(a, tuple) and a[0] == "o":
                    return ("name", dict(a[1]).get(0))
                return ("id", a)
            if d.startswith("cali::Caliper::create_attribute("):
                return ("create", dict(args[1][1]).get(0) if isinstance(args[1], tuple) and args[1][0] == "o" else args[1], args[2], args[3])
    return None


def ops(log, pat=OPS):
    return [(pat.match(d).group(1), args, r, i) for d, args, r, i in log if pat.match(d)]


def expect(ck, f, rule, exits, op, judge, inst=None):
    """every path performs exactly one `op` that judge(args, log) accepts; paths that do nothing must be guarded by a validity test"""
    inst = inst or f.dem
    w = where(f)
    if exits is None:
        return
    seen = 0
    und = None
    for ins, rv, log, mem, fa in exits:
        o = ops(log)
        if not o:
            if fa and any(validity(q) for q in fa):
                continue
            ck.bad(rule, inst, w, "nothing is done on a path" + ("" if fa else ""))
            return
        if len(o) > 1:
            ck.bad(rule, inst, w, "%d operations are performed: %s" % (len(o), ", ".join(x[0] for x in o)))
            return
        if o[0][0] not in op:
            ck.bad(rule, inst, w, "performs %s instead of %s" % (o[0][0], " or ".join(op)))
            return
        g, why = judge(o[0][1], log)
        if g is False:
            ck.bad(rule, inst, w, why)
            return
        if g is None:
            und = why or "?"
        seen += 1
    if und or not seen:
        ck.count("not decided", 1)
        if os.environ.get("DEBUG"):
            print("undecided", inst, und, seen)
        return
    ck.ok(rule, inst, w)


def judge_attr(a, kind, k, want_t=None, want_props=()):
    if a is None:
        return None, "attribute not recognised"
    if kind == "id":
        return (a[0] == "id" and param(a[1], k)), "the attribute is not the one passed in"
    if kind == "name":
        s = a[1]
        if isinstance(s, tuple) and s[0] == "str":
            s = s[1]
        if a[0] not in ("name", "create"):
            return False, "the attribute is not looked up by the name passed in"
        if not param(s, k):
            return (False, "the attribute name is not the one passed in") if isinstance(s, tuple) and s[0] == "p" else (None, "name")
        if a[0] == "create":
            if isinstance(a[2], int) and want_t is not None and a[2] != want_t:
                return False, "the attribute is created with type %d instead of %d" % (a[2], want_t)
            if isinstance(a[3], int):
                for bit, nm in want_props:
                    if not a[3] & bit:
                        return False, "the attribute is created without the %s property" % nm
        elif want_t is not None:
            return None, "lookup"
        return True, ""
    return None, ""


def capi(ck, p):
    rel = "src/caliper/cali.cpp"
    m = prog.inlined(p, rel, ["^cali_"], noinline=fwd.KEEP)
    GLOBAL = p.enumerators("CALI_ATTR_").get("CALI_ATTR_GLOBAL", 512)
    n = 0
    for f in m.functions:
        if not f.blocks:
            continue
        nm = f.dem
        R = "C functions"
        x = re.match(r"^cali_(begin|end)_(region|phase|comm_region)$", nm)
        if x:
            n += 1
            g = "cali::%s_attr" % x.group(2)

            def j(args, log, g=g, x=x):
                a = attr_of(args[1], log)
                if a is None or a[0] != "global":
                    return None, "attribute"
                if (m.demangle.get(a[1]) or a[1]) != g and not re.match(r"^_ZN4cali\d+%s_attrE$" % x.group(2), a[1]):
                    return False, "uses the attribute %s" % (m.demangle.get(a[1]) or a[1])
                return is_value(variant(args[2], log), "string", 0)
            expect(ck, f, R, summarise(f, wantc, ck), ("begin",) if x.group(1) == "begin" else ("end_with_value_check",), j)
            continue
        x = re.match(r"^cali_(begin|set|end|set_global)(?:_(int|double|string|uint))?(_byname)?$", nm)
        if x and not (x.group(1) == "set" and not x.group(2)):
            n += 1
            op, kind, byname = x.groups()

            def j(args, log, op=op, kind=kind, byname=byname):
                g, why = judge_attr(attr_of(args[1], log), "name" if byname else "id", 0, None if op == "end" else TYPES.get(kind, 7),
                                    [(GLOBAL, "global")] if op == "set_global" else [])
                if not g or op == "end":
                    return g, why
                v = variant(args[2], log)
                if kind:
                    return is_value(v, kind, 1)
                return (None, "value") if v is None or v[0] == "mk" else (v[0] == 7 and v[1] == 1, "the value is not true")
            expect(ck, f, R, summarise(f, wantc, ck), ("set" if op.startswith("set") else op,), j)
            continue
        if nm == "cali_set":
            n += 1

            def j(args, log):
                a = attr_of(args[1], log)
                g, why = judge_attr(a, "id", 0)
                v = variant(args[2], log)
                if not g or v is None or v[0] != "mk":
                    return g or None, why
                if not (param(v[2], 1) and param(v[3], 2)):
                    return False, "the value is not made of the data and size passed in"
                t = [l for l in log if l[0].startswith("cali::Attribute::type") and l[2] in leaves(v[1])]
                return bool(t), "the value does not have the attribute's type"
            expect(ck, f, R, summarise(f, wantc, ck), ("set",), j)
            continue
        x = re.match(r"^cali_(activate|deactivate|delete)_channel$", nm)
        if x:
            n += 1

            def j(args, log):
                c = sym(args[1])
                for d, a, r, i in log:
                    if d.startswith("cali::Caliper::get_channel("):
                        # returned through memory: the object's first argument is the result
                        if any(param(q, 0) for q in a):
                            return True, ""
                        return False, "the channel is not the one passed in"
                return None, "channel"
            expect(ck, f, R, summarise(f, wantc, ck), (x.group(1) + "_channel",), j)
            continue
        x = re.match(r"^cali_(find_attribute|attribute_name|attribute_type|attribute_properties|create_attribute)$", nm)
        if x:
            n += 1
            ex = summarise(f, wantc, ck)
            lookup(ck, f, x.group(1), ex)
    ck.floor("C functions", n, 25)


def lookup(ck, f, what, ex):
    """attribute queries: the attribute is the one named, the answer the one asked for"""
    if ex is None:
        return
    w = where(f)
    bad = None
    good = 0
    for ins, rv, log, mem, fa in ex:
        got = [(d, a) for d, a, r, i in log if re.match(r"^cali::Caliper::(get_attribute|create_attribute)\(", d)]
        if not got:
            continue
        d, a = got[0]
        if what == "create_attribute":
            if not d.startswith("cali::Caliper::create_attribute("):
                bad = "no attribute is created"
            elif not (param(a[2], 1) and param(a[3], 2)):
                bad = "the attribute is not created with the type and properties passed in"
        s = a[1]
        if isinstance(s, tuple) and s[0] == "o":
            s = dict(s[1]).get(0)
        if isinstance(s, tuple) and s[0] == "str":
            s = s[1]
        if isinstance(s, tuple) and s[0] in ("p", "x") and not param(s, 0):
            bad = "the attribute looked up is not the one passed in"
        for t in ("type", "properties"):
            if what == "attribute_" + t:
                q = [d2 for d2, a2, r, i in log if re.match(r"^cali::Attribute::\w+\(", d2) and r in leaves(rv)]
                if q and not q[0].startswith("cali::Attribute::%s(" % t):
                    bad = "returns the attribute's %s" % q[0].split("::")[2].split("(")[0]
        good += 1
    if bad:
        ck.bad("C functions", f.dem, w, bad)
    elif good:
        ck.ok("C functions", f.dem, w)
    else:
        ck.count("not decided", 1)


# ------------------------------------------------------------------ annotation classes
def classes(ck, p):
    rel = "src/caliper/Annotation.cpp"
    keep = [k for k in fwd.KEEP] + [r"^cali::Loop::end\(", r"^cali::Loop::Iteration::Iteration\("]
    m = prog.inlined(p, rel, [r"^cali::(Function|ScopeAnnotation|Loop|Loop::Iteration|Annotation|Annotation::Guard)::"], noinline=keep)
    fs = {}
    for f in m.functions:
        if f.blocks and re.match(r"^cali::(Function|ScopeAnnotation|Loop|Annotation)::", f.dem):
            fs.setdefault(f.dem, f)
    m2 = prog.inlined(p, rel, [r"^cali::Loop::"], noinline=[k for k in fwd.KEEP])
    for f in m2.functions:
        if f.blocks and re.match(r"^cali::Loop::(Loop|~Loop|Iteration::|end)", f.dem):
            fs[f.dem] = f
    R = "annotation classes"

    def glob(v):
        a = attr_of(v, ())
        return a[1] if a and a[0] == "global" else None

    n = 0
    opened = {}
    for cls in ("Function", "ScopeAnnotation"):
        for d, f in fs.items():
            if d == "cali::%s::%s(char const*)" % (cls, cls):
                n += 1

                def j(args, log, cls=cls):
                    opened[cls] = glob(args[1])
                    return is_value(variant(args[2], log), "string", 1)
                expect(ck, f, R, summarise(f, wantc, ck), ("begin",), j)
        for d, f in fs.items():
            if d == "cali::%s::~%s()" % (cls, cls):
                n += 1

                def j(args, log, cls=cls):
                    g = glob(args[1])
                    if not g or not opened.get(cls):
                        return None, "attribute"
                    return g == opened[cls], "the destructor ends another attribute than the constructor began"
                expect(ck, f, R, summarise(f, wantc, ck), ("end", "end_with_value_check"), j)
    # Loop
    f = fs.get("cali::Loop::Loop(char const*)")
    if f:
        n += 1

        def j(args, log):
            opened["Loop"] = glob(args[1])
            return is_value(variant(args[2], log), "string", 1)
        expect(ck, f, R, summarise(f, wantc, ck), ("begin",), j)
    f = fs.get("cali::Loop::end()")
    if f:
        n += 1
        ex = summarise(f, wantc, ck)
        if ex:
            did = [x for x in ex if ops(x[2])]
            bad = None
            for x in did:
                o = ops(x[2])
                if len(o) != 1 or o[0][0] not in ("end", "end_with_value_check"):
                    bad = "the loop is not ended exactly once"
                elif opened.get("Loop") and glob(o[0][1][1]) and glob(o[0][1][1]) != opened["Loop"]:
                    bad = "ends another attribute than the constructor began"
                elif not bad:
                    # the state that lets the loop be ended is consumed, so a second end() (or the destructor) does nothing
                    used = {l for q in x[4] for l in allsyms(q[0]) if l.startswith("*(*(a0+0)+")}
                    gone = {"*(%s+%d)" % k for k, c in x[3].items() if k[0] == "*(a0+0)" and c[1] != ("s", "*(%s+%d)" % k) and not (isterm(c[1]) and c[1][0] == "x")}
                    if not used & gone and not any(c[1] == "T" for k, c in x[3].items()):
                        bad = "the loop is ended without marking it as ended: ending it again ends an enclosing loop"
            ck.decide(not bad and did, R, f.dem, where(f), bad or "the loop is never ended")
    # iteration: begins with its number, ends the attribute it began
    it, ie = fs.get("cali::Loop::Iteration::Iteration(cali::Loop::Impl const*, int)"), fs.get("cali::Loop::Iteration::~Iteration()")
    if it and ie:
        n += 2

        def place(v):
            """the attribute object's address relative to the iteration's Impl"""
            return (v[2] if isinstance(v, tuple) and v[0] == "p" else None)

        def j(args, log):
            opened["Iteration"] = place(args[1])
            return is_value(variant(args[2], log), "int", 2)
        expect(ck, it, R, summarise(it, wantc, ck), ("begin",), j)

        def j(args, log):
            q = place(args[1])
            if q is None or opened.get("Iteration") is None:
                return None, "place"
            return q == opened["Iteration"], "the destructor ends another attribute than the constructor began"
        expect(ck, ie, R, summarise(ie, wantc, ck), ("end", "end_with_value_check"), j)
    for d, f in sorted(fs.items()):
        x = re.match(r"^cali::Annotation::(begin|set)\((.*)\)$", d)
        if x:
            n += 1
            value(ck, f, R, x.group(1), x.group(2))
    f = fs.get("cali::Annotation::end()")
    if f:
        n += 1
        expect(ck, f, R, summarise(f, wantc, ck), ("end",), lambda args, log: (True, ""))
    f = fs.get("cali::Annotation::Guard::~Guard()")
    if f:
        n += 1
        expect(ck, f, R, summarise(f, wantc, ck), ("end",), lambda args, log: (True, ""))
    ck.floor("annotation class operations", n, 12)
    refcounts(ck, p, rel)


KINDS = {"int": "int", "double": "double", "char const*": "string"}


def value(ck, f, rule, op, sig):
    kind = KINDS.get(sig)

    def j(args, log):
        v = args[2]
        if sig == "":
            q = variant(v, log)
            return (None, "") if q is None or q[0] == "mk" else (q[0] == 7 and q[1] == 1, "the value is not true")
        if sig.startswith("cali::Variant"):
            if isinstance(v, tuple) and v[0] == "p":
                return param(v, 1), "the value is not the one passed in"
            if isinstance(v, tuple) and v[0] == "o":
                w = dict(v[1])
                if {0, 8} <= set(w) and w[0] == ("s", "*(a1+0)") and w[8] == ("s", "*(a1+8)"):
                    return True, ""
            return None, "variant"
        q = variant(v, log)
        if kind == "int" and q and q[0] in (3, 6):
            try:
                for x in (0, 3, 0x80000000, 0xffffffff, 0x7fffffff):
                    w = x - (1 << 32) if x >> 31 else x
                    y = cev(q[1], {"a1": x})
                    if (y != float(w)) if q[0] == 6 else ((y - w) & ((1 << 64) - 1)):
                        return False, "the value %d is passed on as %s" % (w, y)
                return True, ""
            except (Undef, KeyError, TypeError):
                return None, "conv"
        if kind:
            return is_value(q, kind, 1)
        if q and q[0] == "mk":
            ok = param(q[1], 1) and param(q[2], 2) and param(q[3], 3)
            return (True, "") if ok else (False, "the value is not made of the type, data and size passed in") if all(
                isinstance(z, (int, tuple)) for z in q[1:]) else (None, "")
        return None, "value"
    expect(ck, f, rule, summarise(f, wantc, ck), (op,), j)


def refcounts(ck, p, rel):
    """a shared object is deleted by whoever drops the last reference: the decrement itself must tell"""
    m = prog.inlined(p, rel, [r"^cali::(Loop|Annotation|Annotation::Guard)::~", r"^cali::Annotation::operator="], noinline=[r"^cali::Caliper::"])
    n = 0
    for f in m.functions:
        if not f.blocks or not re.match(r"^cali::(Loop|Annotation)::", f.dem):
            continue
        rm = [i for i in f.ins if i.op.startswith("atomicrmw")]
        if not rm:
            continue
        n += 1
        users = {}
        for i in f.ins:
            for a in i.a:
                if isinstance(a, str) and a.startswith("%"):
                    users.setdefault(int(a[1:]), []).append(i)
        bad = None
        for r in rm:
            if not re.search(r"sub|add", r.op + str(getattr(r, "x", "")) + str(r.y if hasattr(r, "y") else "")):
                continue
            if users.get(r.id):
                continue
            # result unused: is the counter read again to decide?
            later = [i for i in f.ins if i.op == "load" and i.id > r.id and same_addr(f, i.a[0], r.a[0])]
            for l in later:
                if any(u.op.startswith("icmp") for u in users.get(l.id, [])):
                    bad = "the reference count is decremented and then read again; two threads can both see zero and delete the object twice"
        ck.decide(not bad, "shared state", f.dem, where(f), bad or "")
    ck.floor("reference-counted releases", n, 1)
    m = prog.inlined(p, rel, [r"^cali::(Loop|Annotation)::(Loop|Annotation)\(cali::", r"^cali::Loop::Iteration::Iteration\(cali::Loop::Iteration"], noinline=[r"^cali::Caliper::"])
    for f in m.functions:
        if not f.blocks or not re.match(r"^cali::(Loop|Annotation)::(Loop|Annotation)\(cali::\w+ const&\)$", f.dem):
            continue
        add = {b for b, q in enumerate(f.blocks) for i in q if i.op == "atomicrmw.add" or i.op.startswith("atomicrmw") and "add" in i.op}
        seen, todo, bad = set(), [0], False
        while todo:
            b = todo.pop()
            if b in seen or b in add:
                continue
            seen.add(b)
            bad = bad or f.blocks[b][-1].op == "ret"
            todo += f.succ[b]
        ck.decide(not bad, "shared state", f.dem, where(f), "a copy does not take a reference on the object it shares")


def same_addr(f, a, b):
    if a == b:
        return True
    d = {i.id: i for i in f.ins}

    def shape(v, depth=0):
        if not (isinstance(v, str) and v.startswith("%")) or depth > 6:
            return v
        i = d.get(int(v[1:]))
        if i is None or i.op not in ("getelementptr", "load", "bitcast"):
            return v
        return (i.op, repr(getattr(i, "off", None) or i.x if hasattr(i, "x") else None)) + tuple(shape(q, depth + 1) for q in i.a)
    return shape(a) == shape(b)



# ------------------------------------------------------------------ thin wrappers around C++ objects
def basename(d):
    """qualified name of a demangled function without template arguments, return type and parameters"""
    d = re.sub(r"\[abi:\w+\]", "", d)
    k, q = 0, []
    for c in d:
        if c == "<":
            k += 1
        elif c == ">":
            k -= 1
        elif c == "(" and not k and q and "".join(q[-8:]) != "operator":
            break
        elif not k:
            q.append(c)
    return "".join(q).split(" ")[-1]


def same_values(args, f, idx):
    """are the arguments the function's parameters idx, in order? (True/False/None, why)"""
    for n, (a, k) in enumerate(zip(args, idx)):
        if param(a, k):
            continue
        if isinstance(a, tuple) and a[0] == "o" and isinstance(dict(a[1]).get(0), tuple) and dict(a[1])[0][0] == "str" and param(dict(a[1])[0][1], k):
            continue
        if isterm(a) or isinstance(a, int) or isinstance(a, tuple) and a[0] in ("p", "g"):
            return False, "argument %d is not the value passed in" % (n + 1)
        return None, "argument %d" % (n + 1)
    return True, ""


def cwrappers(ck, p):
    R = "C wrappers"
    n = 0
    keep = [r"^cali::(Annotation|ConfigManager|ScopeAnnotation|BufferedRegionProfile|RegionProfile)::"]
    news = {}
    for rel in sorted(p.mods):
        if not rel.startswith("src/interface/c_fortran/wrap"):
            continue
        m = prog.inlined(p, rel, ["^cali_"], noinline=fwd.KEEP + keep)
        for f in m.functions:
            x = re.match(r"^cali_([A-Z]\w*?)_(\w+)$", f.dem)
            if not f.blocks or not x:
                continue
            n += 1
            cls, op = x.groups()
            w = where(f)
            want = lambda d, i: bool(re.match(r"^cali::(%s)::" % cls, basename(d))) and ("sret" if i.ty == "void" and "string" in d else True)
            ex = summarise(f, want, ck)
            if not ex:
                ck.count("not decided", 1)
                continue
            create = op.startswith("new") or (cls, op) == ("ScopeAnnotation", "begin")
            destroy = op == "delete" or (cls, op) == ("ScopeAnnotation", "end")
            bad = und = None
            good = 0
            for ins, rv, log, mem, fa in ex:
                log = [l for l in log if not (basename(l[0]).endswith("::" + cls) and not create)]
                if not log:
                    if fa and (destroy or any(validity(q) for q in fa)):
                        continue
                    bad = "nothing is done on a path"
                    break
                if len(log) > 1:
                    bad = "%d operations are performed" % len(log)
                    break
                d, args, r, i = log[0]
                b = basename(d).split("::")[-1]
                if create:
                    if b != cls:
                        bad = "calls %s" % b
                        break
                    k = len(f.params) - 1
                    g, why = same_values(args[1:1 + k], f, range(k))
                    out = mem.get(("a%d" % k, 0))
                    idt = mem.get(("a%d" % k, 8))
                    if g and not (out and isinstance(out[1], tuple) and out[1][0] == "p" and out[1][1].startswith("new")):
                        g, why = False, "the handle does not hold the new object"
                    if idt and isinstance(idt[1], int):
                        news.setdefault(cls, set()).add((idt[1] & 0xffffffff, f.dem, w))
                elif destroy:
                    g, why = (b == "~" + cls or d.startswith("virtual+") and len(args) == 1), "calls %s" % b
                    out = mem.get(("a0", 0))
                    if g and not (out and out[1] in (0, ("p", "null", 0), "null")):
                        g, why = (False, "the handle keeps the deleted object") if not out or isinstance(out[1], tuple) else (None, "")
                else:
                    base = re.sub(r"_bufferify$", "", op)
                    cand = {base} | {re.sub(r"_(int|string|double)$", "", base)}
                    if b not in cand:
                        bad = "calls %s::%s" % (cls, b)
                        break
                    rest = [a for a in args]
                    if i.ty == "void" and sym(rest[0]) != "*(a0+0)" and len(rest) > 1 and op.endswith("_bufferify"):
                        rest = rest[1:]
                    th = sym(rest[0])
                    if th != "*(a0+0)":
                        bad = "operates on another object than the handle's"
                        break
                    k = len(f.params) - (2 if op.endswith("_bufferify") else 1)
                    vals = rest[1:1 + k]
                    g, why = True, ""
                    if k and len(vals) < k:
                        g, why = False, "not all arguments are passed on"
                    elif k:
                        g, why = same_values(vals, f, range(1, 1 + k))
                    t = re.search(r"_(int|string|double)$", op)
                    sig = re.search(r"\((.*)\)", d)
                    if g and t and b != op and sig and sig.group(1) not in ({"int": "int", "string": "char const*", "double": "double"}[t.group(1)], "cali::Variant const&"):
                        g, why = False, "calls the overload for %s" % sig.group(1)
                    if g and f.ret not in ("void", "", None) and k >= 0 and not op.endswith("_bufferify"):
                        if isterm(rv) and not r in leaves(rv) or isinstance(rv, int):
                            g, why = False, "does not return the result"
                        elif isterm(rv):
                            try:
                                for x in (0, 1):
                                    if cev(rv, {r: x}) & 0xffffffff != x:
                                        g, why = False, "returns %d when the operation returned %d" % (cev(rv, {r: x}), x)
                            except (Undef, KeyError, TypeError):
                                g, why = None, "result"
                if g is False:
                    bad = why
                    break
                if g is None:
                    und = why
                good += 1
            if bad:
                ck.bad(R, f.dem, w, bad)
            elif und or not good:
                ck.count("not decided", 1)
                if os.environ.get("DEBUG"):
                    print("undecided", f.dem, und)
            else:
                ck.ok(R, f.dem, w)
    ck.floor("C wrapper functions", n, 20)
    # destructor table
    rel = "src/interface/c_fortran/utilCaliper.cpp"
    if rel in p.mods:
        m = prog.inlined(p, rel, ["^cali_"], noinline=keep)
        for f in m.functions:
            if f.dem != "cali_SHROUD_memory_destructor" or not f.blocks:
                continue
            for cls, ids in sorted(news.items()):
                for idt, who, w in sorted(ids):
                    a = Fwd(f, lambda d, i: "::~" in basename(d), mem={("a0", 8): (4, idt), ("a0", 0): (8, ("p", "obj", 0))})
                    try:
                        a.run()
                    except Limit:
                        ck.count("not decided", 1)
                        continue
                    ds = {basename(l[0]).split("::")[-1] for ins, rv, log, mem, fa in a.exits for l in log}
                    if any(d.startswith("virtual") for d in ds):
                        ck.count("not decided", 1)
                        continue
                    ck.decide(ds == {"~" + cls}, R, "%s: release code %d" % (who, idt), w,
                              "the object is released as %s" % (", ".join(sorted(d[1:] for d in ds)) or "nothing at all"))
    rel = "src/interface/c_fortran/BufferedRegionProfile.cpp"
    if rel in p.mods:
        m = prog.inlined(p, rel, ["^cali::BufferedRegionProfile::"], noinline=[r"^cali::(RegionProfile|ChannelController)::", "^std::"])
        for f in m.functions:
            x = re.match(r"^cali::BufferedRegionProfile::(start|stop|clear|fetch_(\w+))\(", f.dem)
            if not f.blocks or not x:
                continue
            ex = summarise(f, lambda d, i: bool(re.match(r"cali::(RegionProfile|ChannelController)::", basename(d))), ck)
            if not ex:
                continue
            got = {tuple(basename(l[0]).split("::")[-1] for l in log) for ins, rv, log, mem, fa in ex}
            want = x.group(2) or x.group(1)
            ck.decide(got == {(want,)}, R, f.dem, where(f), "performs %s" % (" / ".join(", ".join(g) or "nothing" for g in sorted(got))))


# ------------------------------------------------------------------ Python module
def pyclasses(ck, p):
    R = "Python binding"
    n = 0
    for rel, cls in (("src/interface/python/instrumentation.cpp", "PythonAttribute"), ("src/interface/python/annotation.cpp", "PythonAnnotation"),
                     ("src/interface/python/loop.cpp", "PythonLoop"), ("src/interface/python/config_manager.cpp", "PythonConfigManager")):
        if rel not in p.mods:
            continue
        m = prog.inlined(p, rel, [r"^cali::%s::" % cls], noinline=fwd.KEEP + [r"^cali::(Annotation|ConfigManager)::", "^pybind11::"])
        for f in m.functions:
            x = re.match(r"^cali::%s::([~\w]+)\((.*)\)( const)?$" % cls, f.dem)
            if not f.blocks or not x:
                continue
            op, sig = x.group(1), x.group(2)
            w = where(f)
            ex = summarise(f, lambda d, i: bool(re.match(r"^(cali_|cali::(Annotation|ConfigManager)::)", basename(d))) and
                           ("sret" if i.ty == "void" and "check" in d else True), ck)
            if not ex:
                continue
            n += 1
            cand, idx = None, None
            np_ = len(f.params)
            if cls == "PythonAttribute" and op in ("begin", "set", "end"):
                cand = {"cali_%s%s" % (op, {"": "", "int": "_int", "double": "_double", "char const*": "_string"}.get(sig, "?"))}
                idx = ["id"] + list(range(1, np_))
            elif cls == "PythonAttribute" and op in ("name", "type", "properties"):
                cand, idx = {"cali_attribute_" + op}, ["id"]
            elif cls == "PythonAttribute" and op == "find_attribute":
                cand, idx = {"cali_find_attribute"}, [0 if np_ == 1 else 1]
            elif cls == "PythonAttribute" and op == cls and np_ >= 3:
                cand, idx = {"cali_create_attribute"}, list(range(1, np_))
            elif cls == "PythonAnnotation" and op in ("begin", "set", "end"):
                cand, idx = {"cali::Annotation::" + op}, [0] + list(range(1, np_))
                if "string" in sig:
                    idx = [0]
            elif cls == "PythonLoop":
                cand, idx = {"PythonLoop": ({"cali_begin_string"}, ["@cali_loop_attr_id", 1]), "start_iteration": ({"cali_begin_int"}, ["id", 1]),
                             "end_iteration": ({"cali_end"}, ["id"]), "end": ({"cali_end"}, ["@cali_loop_attr_id"])}.get(op, (None, None))
            elif cls == "PythonConfigManager" and op in ("py_add", "check"):
                cand, idx = {"cali::ConfigManager::" + op.replace("py_", "")}, None
            if not cand:
                n -= 1
                continue
            bad = und = None
            good = 0
            for ins, rv, log, mem, fa in ex:
                mine = [l for l in log if re.match(r"^cali_(begin|end|set|find|create|attribute_)", basename(l[0])) or basename(l[0]).startswith("cali::")]
                mine = [l for l in mine if not (cls == "PythonLoop" and basename(l[0]) not in ("cali_end",) and not re.match("cali_(begin|set|end)", basename(l[0])))]
                if len(mine) != 1:
                    if not mine and fa and any(validity(q) for q in fa):
                        continue
                    bad = "%d operations are performed" % len(mine)
                    break
                d, args, r, i = mine[0]
                if basename(d) not in cand:
                    bad = "performs %s" % basename(d)
                    break
                for a, k in zip(args, idx or []):
                    if isinstance(k, int):
                        g, why = same_values([a], f, [k])
                    elif k == "id":
                        s0 = sym(a) or ""
                        g, why = (s0.startswith("*(a0") or isterm(a) and bool(leaves(a)) and all(x.startswith("*(a0") for x in leaves(a)) or None), "object"
                        if isinstance(a, tuple) and a[0] == "s" and a[1].startswith("*(@"):
                            g, why = False, "uses the global %s" % a[1]
                    else:
                        s0 = repr(a)
                        g, why = (k[1:] in s0) or (None if a == "T" else False), "uses another attribute than %s" % k[1:]
                    if g is False:
                        bad = why
                    elif g is None:
                        und = (why, a)
                if idx and len(args) < len(idx):
                    bad = "not all arguments are passed on"
                if cls == "PythonAnnotation" and "string" in sig and not bad:
                    q = variant(args[1], log) if len(args) == 2 else ("mk",) + tuple(args[1:]) if len(args) == 4 else None
                    z = leaves(q[3]) if q and len(q) > 3 else None
                    if not q or q[0] != "mk":
                        und = ("value", args)
                    elif isterm(q[1]) and not param(q[1], 1) or isinstance(q[1], int):
                        bad = "the type is not the one passed in"
                    elif isinstance(q[2], tuple) and q[2][0] == "p" and q[2] != ("p", "data:a2", 0):
                        bad = "the data is not the string passed in"
                    elif q[3] == "T" or not z:
                        und = ("size", q[3])
                    elif z != {"size:a2"}:
                        bad = "the size of the data is %s, not the size of the string passed in" % ", ".join(sorted(z)).replace("len:data:a2", "that of its part before the first NUL")
                if cls == "PythonAnnotation" and not bad:
                    want = {"": "", "int": "int", "double": "double", "char const*": "char const*"}.get(sig)
                    got = re.search(r"\((.*)\)", d).group(1)
                    if want is not None and got != want and "Variant" not in got:
                        bad = "calls the overload for %s" % got
                good += 1
            if bad:
                ck.bad(R, f.dem, w, bad)
            elif und or not good:
                ck.count("not decided", 1)
                if os.environ.get("DEBUG"):
                    print("undecided", f.dem, und, good)
            else:
                ck.ok(R, f.dem, w)
    ck.floor("Python binding members", n, 15)


def funcs_in(v):
    """function symbols a value holds"""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "f":
            return {v[1]}
        return set().union(*[funcs_in(q) for q in v]) if v else set()
    if isinstance(v, str) and v.startswith("@"):
        return {v[1:]}
    return set()


def pytables(ck, p):
    R = "Python binding"
    n = 0
    enums = dict(p.enumerators("CALI_"))
    for rel in sorted(p.mods):
        if not rel.startswith("src/interface/python/"):
            continue
        m = prog.inlined(p, rel, ["^cali::create_caliper_", "^pybind11_init"], noinline=fwd.KEEP + ["^pybind11::", "pybind11::"])
        for f in m.functions:
            if not f.blocks or "pybind11::" in basename(f.dem):
                continue
            got = {}
            a = Fwd(f, lambda d, i: bool(re.search(r"^pybind11::(class_|module_|enum_)::(def\w*|value)$", basename(d))))
            try:
                a.run()
            except Limit:
                ck.count("not decided", 1)
                continue
            for ins, rv, log, mem, fa in a.exits:
                for d, args, r, i in log:
                    got[i.id] = (d, args, i)
            seen = {}
            for d, args, i in got.values():
                b = basename(d).split("::")[-1]
                nm = [x[2:] for x in i.args if isinstance(x, str) and x.startswith("s:")]
                if b == "value":
                    v = [x for x in args if isinstance(x, int)]
                    if nm and v and nm[0] in enums:
                        n += 1
                        ck.decide(v[0] == enums[nm[0]], R, "constant " + nm[0], i.where(), "bound to %d, the native value is %d" % (v[0], enums[nm[0]]))
                    continue
                fn = sorted(funcs_in(args))
                if not nm or len(fn) != 1 or not i.args[1].startswith("s:"):
                    continue
                q = m.demangle.get(fn[0], fn[0])
                tail = basename(q).split("::")[-1]
                name = nm[0]
                n += 1
                norm = re.sub(r"^(cali_|py_|pycaliper_)", "", tail)
                norm2 = re.sub(r"_(int|double|string|uint)(?=_byname$|$)", "", norm)
                ok = name in (tail, norm, norm2) or name.startswith("__")
                ck.decide(ok, R, "%s -> %s" % (name, q), i.where(), "the Python function %s is bound to %s" % (name, q))
                key = (re.sub(r"<.*", "", m.demangle.get("x", "")), repr(args[0]), name, fn[0])
                ck.decide(key not in seen, R, "%s -> %s: bound once" % (name, q), i.where(), "the same function is bound twice under one name, so an overload is missing") if key in seen else None
                seen[key] = i
    ck.floor("Python binding table entries", n, 40)


# ------------------------------------------------------------------ Fortran module
FMOD = "src/interface/c_fortran/wrapfcaliper.F"


def fortran_module(ck, p):
    import fortran
    R = "Fortran module"
    path = os.path.join(build.REPO, FMOD)
    if not os.path.exists(path):
        raise Broken("anchor not found: " + FMOD)
    procs, consts, generics, tbps = fortran.parse(open(path).read())
    at = lambda ln: "%s:%d" % (FMOD, ln)
    enums = {k.lower(): (k, v) for k, v in p.enumerators("CALI_").items()}
    n = 0
    for c, (v, ln) in sorted(consts.items()):
        if c in enums:
            n += 1
            ck.decide(v == enums[c][1], R, "constant " + c, at(ln), "is %d, the native %s is %d" % (v, enums[c][0], enums[c][1]))
    ck.floor("Fortran constants", n, 15)
    native = {}
    for rel, m in p.mods.items():
        for f in m.functions:
            if re.match(r"^cali_\w+$", f.name):
                native.setdefault(f.name, f)
    nb = nw = 0
    bound = {}
    for q in procs:
        if q.interface and q.bind:
            bound[q.name] = q
    for q in procs:
        inst = "%s -> %s" % (q.name, q.bind)
        if q.interface and q.bind:
            nb += 1
            low = q.bind.lower()
            me = q.name[2:] if q.name.startswith("c_") else q.name
            same = lambda a, b: a == b or a == b.replace("cali_", "", 1)
            ck.decide(same(me, low) or "shroud" in low, R, inst, at(q.line), "the procedure %s is bound to the C function %s" % (q.name, q.bind))
            f = native.get(q.bind)
            if f is None:
                if not re.search("mpi", low):
                    ck.decide(not native or "shroud" in low, R, inst + ": exists", at(q.line), "there is no C function %s" % q.bind)
                continue
            bad = None
            if len(q.args) != len(f.params):
                bad = "takes %d arguments, the C function takes %d" % (len(q.args), len(f.params))
            else:
                for k, (a, c) in enumerate(zip(q.args, f.params)):
                    t = q.ctype(a)
                    ct = {"i1": "bool", "i8": "bool"}.get(c[1], c[1])
                    if t and t != ct:
                        bad = "passes %s (%s) where the C function takes %s (%s)" % (a, t, c[0], c[1])
            if not bad:
                t = q.ctype(q.result) if q.kind == "function" else "void"
                ct = {"i1": "bool", "i8": "bool"}.get(str(f.ret), str(f.ret))
                if t and ct and t != ct and f.ret:
                    bad = "expects a result of type %s, the C function returns %s" % (t, ct)
            ck.decide(not bad, R, inst + ": arguments", at(q.line), bad or "")
    for q in procs:
        if q.interface:
            continue
        cs = [c for c in q.calls if c[2] in bound]
        if not cs:
            continue
        nw += 1
        bad = None
        own = [c for c in cs if "shroud" not in c[2]]
        if len(own) != 1:
            bad = "calls %d native procedures" % len(own)
        else:
            ln, lhs, callee, args = own[0]
            if re.sub(r"_bufferify$", "", callee) != "c_" + q.name:
                bad = "calls %s" % callee
            else:
                b = bound[callee]
                want = [a for a in q.args]
                norm = []
                for a in args:
                    a = a.replace(" ", "").lower()
                    m = re.match(r"^trim\((\w+)\)//c_null_char$", a)
                    m2 = re.match(r"^(\w+)%cxxmem$", a)
                    norm.append(m.group(1) if m else m2.group(1) if m2 else a)
                    # strings have to be terminated for C
                    x = re.match(r"^(?:trim\()?(\w+)\)?", a)
                    if not m and x and x.group(1) in q.decl and q.decl[x.group(1)][0].lower().startswith("character") and "c_null_char" not in a and x.group(1) in q.args:
                        bad = "passes %s without a terminating null character" % x.group(1)
                if not bad:
                    mine = [a for a in norm if a in q.args]
                    if mine != want:
                        bad = "passes the arguments (%s) for (%s)" % (", ".join(mine), ", ".join(want))
                    elif len(args) != len(b.args):
                        bad = "passes %d arguments, %d are taken" % (len(args), len(b.args))
                    elif q.kind == "function" and q.result not in norm and lhs != q.result and not callee.endswith("_bufferify"):
                        bad = "does not return the result"
        ck.decide(not bad, R, q.name, at(q.line), bad or "")
    for ln, cls, a, b in tbps:
        ck.decide(b == cls + "_" + a, R, "%s%%%s" % (cls, a), at(ln), "is bound to %s" % b)
    for ln, cls, a, bs in generics:
        for b in bs:
            if cls:
                ck.decide(b == a or b.startswith(a + "_"), R, "%s%%%s: %s" % (cls, a, b), at(ln), "the generic name %s includes %s" % (a, b))
            else:
                ck.decide(b.startswith(a), R, "%s: %s" % (a, b), at(ln), "the generic name %s includes %s" % (a, b))
    ck.floor("Fortran bindings", nb, 30)
    ck.floor("Fortran wrapper procedures", nw, 20)


# ------------------------------------------------------------------ Python decorator
def decorator(ck):
    R = "Python decorator"
    rel = "src/interface/python/pycaliper/high_level.py"
    path = os.path.join(build.REPO, rel)
    if not os.path.exists(path):
        raise Broken("anchor not found: " + rel)
    tree = ast.parse(open(path).read())
    maps = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            maps[s.targets[0].id] = {ast.unparse(k).strip("'\""): ast.unparse(v) for k, v in zip(s.value.keys, s.value.values)}
    bm = {n: d for n, d in maps.items() if all(re.search(r"\bbegin_\w+$", v) for v in d.values())}
    em = {n: d for n, d in maps.items() if all(re.search(r"\bend_\w+$", v) for v in d.values())}
    if len(bm) == 1 and len(em) == 1:
        (bn, b), (en, e) = next(iter(bm.items())), next(iter(em.items()))
        for k in sorted(set(b) | set(e)):
            ck.decide(b.get(k) == "begin_" + k and e.get(k) == "end_" + k, R, "annotation type " + k, rel, "begins with %s and ends with %s" % (b.get(k), e.get(k)))
    else:
        mixed = [n for n, d in maps.items() if any(re.search(r"\b(begin|end)_\w+$", v) for v in d.values()) and n not in bm and n not in em]
        for n in mixed:
            ck.bad(R, "table " + n, rel, "mixes begin and end functions")
        ck.count("not decided", 1)
        bn = en = None
    # the wrapper: what happens when the decorated function returns and when it raises
    n = 0
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or not any(isinstance(x, ast.FunctionDef) for x in ast.walk(f) if x is not f):
            continue
        names = [a.arg for a in f.args.args]
        for w in f.body:
            if not isinstance(w, ast.FunctionDef):
                continue

            def kind(c):
                t = ast.unparse(c.func)
                if isinstance(c.func, ast.Name) and c.func.id in names:
                    return "call"
                if bn and t.startswith(bn + "[") or re.match(r"(\w+\.)*begin_\w+$", t):
                    return "begin"
                if en and t.startswith(en + "[") or re.match(r"(\w+\.)*end_\w+$", t):
                    return "end"
                return None

            def events(node):
                return [(kind(c), [ast.unparse(a) for a in c.args] + [ast.unparse(c.func)[len(bn or ""):]]) for c in sorted(
                    (c for c in ast.walk(node) if isinstance(c, ast.Call)), key=lambda c: (c.end_lineno, c.end_col_offset)) if kind(c)]

            if not any(k == "call" for k, a in events(w)) or not any(k == "begin" for k, a in events(w)):
                continue
            n += 1
            res = []        # (trace, how)
            und = []

            def run(body, tr):
                """[(trace, outcome)]: next / return / raise"""
                states = [tr]
                out = []
                for s in body:
                    nxt = []
                    for t in states:
                        if isinstance(s, ast.Try):
                            inner = run(s.body, t)
                            after = []
                            for t2, o in inner:
                                if o == "raise" and s.handlers:
                                    for h in s.handlers:
                                        after += run(h.body, t2)
                                        if h.type is not None:
                                            after.append((t2, "raise"))
                                elif o == "next" and s.orelse:
                                    after += run(s.orelse, t2)
                                else:
                                    after.append((t2, o))
                            for t2, o in after:
                                for t3, o3 in run(s.finalbody, t2):
                                    o4 = o if o3 == "next" else o3
                                    (nxt if o4 == "next" else out).append(t3 if o4 == "next" else (t3, o4))
                            continue
                        if isinstance(s, (ast.With, ast.For, ast.While)):
                            und.append(s)
                            continue
                        if isinstance(s, ast.If):
                            for t2, o in run(s.body, t) + run(s.orelse, t):
                                (nxt if o == "next" else out).append(t2 if o == "next" else (t2, o))
                            continue
                        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            nxt.append(t)
                            continue
                        ev = events(s)
                        t2 = t
                        for k, a in ev:
                            t2 = t2 + ((k, tuple(a)),)
                            if k == "call":
                                out.append((t2, "raise"))
                        if isinstance(s, ast.Return):
                            out.append((t2, "return"))
                        elif isinstance(s, ast.Raise):
                            out.append((t2, "raise"))
                        else:
                            nxt.append(t2)
                    states = nxt
                return out + [(t, "next") for t in states]

            res = run(w.body, ())
            if und:
                ck.count("not decided", 1)
                continue
            for tr, o in res:
                ks = [k for k, a in tr]
                if "call" not in ks:
                    continue
                what = "when the function raises an exception" if o == "raise" else "when the function returns"
                ck.decide(ks == ["begin", "call", "end"], R, "%s: %s" % (w.name, what), "%s:%d" % (rel, w.lineno),
                          "%s the operations are: %s" % (what, ", ".join(ks)))
                if ks == ["begin", "call", "end"]:
                    ck.decide(tr[0][1][0] == tr[2][1][0], R, "%s: name" % w.name, "%s:%d" % (rel, w.lineno), "begins %s and ends %s" % (tr[0][1][0], tr[2][1][0]))
    ck.floor("decorator wrappers", n, 1)


# ------------------------------------------------------------------ macros
PROBE = r"""
#include <caliper/cali.h>
extern "C" {
void probe_mark_begin(const char* n) { CALI_MARK_BEGIN(n); }
void probe_mark_end(const char* n) { CALI_MARK_END(n); }
void probe_phase_begin(const char* n) { CALI_MARK_PHASE_BEGIN(n); }
void probe_phase_end(const char* n) { CALI_MARK_PHASE_END(n); }
void probe_comm_begin(const char* n) { CALI_MARK_COMM_REGION_BEGIN(n); }
void probe_comm_end(const char* n) { CALI_MARK_COMM_REGION_END(n); }
void probe_function_name() { CALI_MARK_FUNCTION_BEGIN; CALI_MARK_FUNCTION_END; }
void probe_work();
void probe_wrap(const char* n) { CALI_WRAP_STATEMENT(n, probe_work()); }
void probe_loop(const char* n) { CALI_MARK_LOOP_BEGIN(lp, n); CALI_MARK_LOOP_END(lp); }
void probe_iter(const char* n, int k) { CALI_MARK_LOOP_BEGIN(lp, n); CALI_MARK_ITERATION_BEGIN(lp, k); CALI_MARK_ITERATION_END(lp); CALI_MARK_LOOP_END(lp); }
void probe_cxx_function() { CALI_CXX_MARK_FUNCTION; probe_work(); }
void probe_cxx_scope(const char* a, const char* b) { CALI_CXX_MARK_FUNCTION; 
CALI_CXX_MARK_SCOPE(a);
CALI_CXX_MARK_SCOPE(b); probe_work(); }
void probe_cxx_loop(const char* n, int k) { CALI_CXX_MARK_LOOP_BEGIN(lp, n); { CALI_CXX_MARK_LOOP_ITERATION(lp, k); probe_work(); } CALI_CXX_MARK_LOOP_END(lp); }
}
"""
# what each probe has to do: operation, where its value comes from (a parameter, a string, the attribute of an earlier operation)
MACROS = {
    "probe_mark_begin": [("cali_begin_region", "a0")], "probe_mark_end": [("cali_end_region", "a0")],
    "probe_phase_begin": [("cali_begin_phase", "a0")], "probe_phase_end": [("cali_end_phase", "a0")],
    "probe_comm_begin": [("cali_begin_comm_region", "a0")], "probe_comm_end": [("cali_end_comm_region", "a0")],
    "probe_function_name": [("cali_begin_region", "s:probe_function_name"), ("cali_end_region", "s:probe_function_name")],
    "probe_wrap": [("cali_begin_region", "a0"), ("probe_work",), ("cali_end_region", "a0")],
    "probe_loop": [("cali_begin_string", "@cali_loop_attr_id", "a0"), ("cali_make_loop_iteration_attribute", "a0"), ("cali_end", "@cali_loop_attr_id")],
    "probe_iter": [("cali_begin_string", "@cali_loop_attr_id", "a0"), ("cali_make_loop_iteration_attribute", "a0"), ("cali_begin_int", "#1", "a1"), ("cali_end", "#1"), ("cali_end", "@cali_loop_attr_id")],
    "probe_cxx_function": [("cali::Function::Function", "?", "s:probe_cxx_function"), ("probe_work",), ("cali::Function::~Function", "=0")],
    "probe_cxx_scope": [("cali::Function::Function", "?", "s:probe_cxx_scope"), ("cali::ScopeAnnotation::ScopeAnnotation", "?", "a0"), ("cali::ScopeAnnotation::ScopeAnnotation", "?", "a1"),
                        ("probe_work",), ("cali::ScopeAnnotation::~ScopeAnnotation", "=2"), ("cali::ScopeAnnotation::~ScopeAnnotation", "=1"), ("cali::Function::~Function", "=0")],
    "probe_cxx_loop": [("cali::Loop::Loop", "?", "a0"), ("cali::Loop::iteration", "?", "=0", "a1"), ("probe_work",), ("cali::Loop::Iteration::~Iteration", "=1"), ("cali::Loop::end", "=0"), ("cali::Loop::~Loop", "=0")],
}


def macros(ck, p):
    R = "annotation macros"
    l = build.lock()
    db = {rel: cmd for f, rel, cmd in build.units(build.configure()[1], p.cfg)}
    cmd = db["src/caliper/Annotation.cpp"]
    d = os.path.join(build.WORK, "probe")
    os.makedirs(d, exist_ok=True)
    src, bc, js = (os.path.join(d, "macros." + x) for x in ("cpp", "bc", "json"))
    open(src, "w").write(PROBE)
    r = subprocess.run(cmd + ["-w", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-c", src, "-o", bc],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    l.close()
    if r.returncode:
        e = [x for x in r.stdout.split("\n") if "error:" in x]
        ck.bad(R, "the macros can be used together", "include/caliper/cali_macros.h", (e or ["?"])[0].split("error:")[-1].strip())
        return
    ck.ok(R, "the macros can be used together", "include/caliper/cali_macros.h")
    exe = build.tool()
    build.run([exe, "facts", bc, js, "--root", d, "--root", build.REPO + "/include"])
    base = ir.Module("probe/macros.cpp", js, p)
    spec = os.path.join(d, "macros.spec")
    open(spec, "w").write("R ^probe_\nN ^cali\n")
    out = os.path.join(d, "macros.inl.json")
    build.run([exe, "roots", bc, out, spec, "--root", d, "--root", build.REPO + "/include"])
    m = ir.Module("probe/macros.cpp", out, p)
    m.base, m.globals, m.lib, m.demangle = base, base.globals, base.lib, base.demangle
    n = 0
    for f in m.functions:
        want = MACROS.get(f.name)
        if not want or not f.blocks:
            continue
        a = Fwd(f, lambda d, i: bool(re.match(r"^(cali_(?!init)|probe_|cali::)", basename(d))) and ("sret" if i.ty == "void" and "::iteration(" in d else True))
        a.obj = lambda v, s, n=24: v
        try:
            a.run()
        except Limit:
            ck.count("not decided", 1)
            continue
        n += 1
        bad = None
        for ins, rv, log, mem, fa in a.exits:
            if ins is not None and ins.op == "resume":
                continue
            got = [basename(d) for d, args, r, i in log]
            exp = [w[0] for w in want]
            if got != exp:
                bad = "performs: %s" % ", ".join(got)
                break
            for k, ((d, args, r, i), w) in enumerate(zip(log, want)):
                for a_, e in zip(args, w[1:]):
                    if e == "?" or a_ == "T":
                        continue
                    if e.startswith("="):
                        same = a_ == log[int(e[1:])][1][0]
                        if isinstance(a_, tuple) and a_[0] == "p" and not same:
                            bad = "%s: works on another object than the one created" % basename(d)
                    elif e.startswith("#"):
                        if not (log[int(e[1:])][2] in leaves(a_) or sym(a_) == log[int(e[1:])][2]):
                            bad = "%s: not the attribute made for this loop" % basename(d)
                    elif e.startswith("@"):
                        if e not in repr(a_):
                            bad = "%s: another attribute than %s" % (basename(d), e[1:])
                    elif e.startswith("s:"):
                        if not (isinstance(a_, tuple) and len(a_) > 1 and e in str(a_[1])) and not i.args[-1] == e:
                            g = [x for x in i.args if isinstance(x, str) and x.startswith("@")]
                            if not g:
                                bad = "%s: the name is not the function's" % basename(d)
                    elif not param(a_, int(e[1:])):
                        bad = "%s: not the value passed to the macro" % basename(d)
        ck.decide(not bad, R, f.name[6:], "include/caliper/cali_macros.h", bad or "")
    ck.floor("macro probes", n, 12)


def body(ck):
    ck.rule("C functions", "each C annotation function performs exactly the operation of its name, on the attribute and with the type and value it was given")
    ck.rule("annotation classes", "constructors and members begin and set with the value they are given; destructors and end members end what was begun")
    ck.rule("shared state", "copies of an annotation object share state that is released by exactly one of them")
    p = prog.program()
    ck.rule("C wrappers", "each C wrapper of an object performs the member function of its name on the handle's object with its own arguments, returns its result, and the release code matches the class")
    ck.rule("Python binding", "each Python name is bound to the function of that name, each member performs the operation of its name with its own arguments, and each constant has the native value")
    ck.rule("Fortran module", "each Fortran procedure is bound to the C function of its name with matching argument types, passes its arguments on in order with strings terminated, and each constant has the native value")
    ck.rule("Python decorator", "the decorator ends the region it began, with the same name and kind, however the decorated function is left")
    ck.rule("annotation macros", "each annotation macro, compiled in a probe, performs the operations of its name with the values it is given and can be combined with the others in one scope")
    capi(ck, p)
    classes(ck, p)
    cwrappers(ck, p)
    pyclasses(ck, p)
    pytables(ck, p)
    fortran_module(ck, p)
    decorator(ck)
    macros(ck, p)
