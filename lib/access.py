"""Accesses to object fields together with the locks held (Eraser-style locksets, computed statically)."""
import re
from collections import defaultdict
import locks, prog as prog_

NOINL = [r"^std::(lock_guard|unique_lock|scoped_lock|shared_lock|mutex|recursive_mutex)[<:]", r"^[A-Za-z_:]*spinlock::", r"siglock::(lock|unlock|is_locked)\("]
DOINL = [r"^[^(]*std::(for_each|find_if|any_of|all_of|none_of|transform|remove_if|count_if|accumulate|copy_if)<"]
COMP = re.compile(r"/([^/\[\]*+]+::[A-Za-z_]\w*)")


_hdr = None


def in_header(name):
    """identifier occurs in a header: it is (or may be) an interface of its translation unit"""
    global _hdr
    if _hdr is None:
        import ir, os
        _hdr = set()
        for top in ("include", "src", "mpi", "python", "fortran"):
            for d, _, fs in os.walk(os.path.join(ir.REPO, top)):
                for x in fs:
                    if x.endswith((".h", ".hpp", ".inc", ".inc.h")):
                        _hdr.update(re.findall(r"[A-Za-z_]\w*", open(os.path.join(d, x), errors="replace").read()))
    return name in _hdr


def roots_of(prog, rel):
    m = prog.mods[rel]
    called = set()
    for f in m.functions:
        for i in f.ins:
            if i.is_call and i.callee:
                called.add(i.callee)
    out = []
    for f in m.functions:
        if f.taken or f.name not in called or (not f.local and not f.linkonce and not f.private and interface(prog, f)):
            out.append(f)
    return out


def interface(prog, f):
    """callable from another translation unit"""
    if in_header(f.qname.rsplit("::", 1)[-1].lstrip("~")) or not f.qname:
        return True
    return any(g.mod is not f.mod for g, _, _ in prog.callers().get(f.key, ()))


def lock_module(prog, rel, extra=()):
    rs = roots_of(prog, rel)
    pats = ["^" + re.escape(f.dem) + "$" for f in rs]
    m = prog_.inlined(prog, rel, pats, NOINL + list(extra), DOINL)
    names = {f.name for f in rs}
    return m, [f for f in m.functions if f.name in names]


def comps(path):
    """field components of a path after which nothing is loaded"""
    tail = path.rsplit("*", 1)[-1] if not path.endswith("*") else ""
    return COMP.findall("/" + tail.lstrip("/")) if tail else []


def accesses(fn):
    """[(ins, path, kind)] memory operations and call arguments that are addresses"""
    for i in fn.ins:
        if i.op == "load":
            yield i, fn.path(i.a[0]), "load"
        elif i.op == "store":
            yield i, fn.path(i.a[1]), "store"
        elif i.op in ("atomicrmw", "cmpxchg"):
            yield i, fn.path(i.a[0]), "atomic"
        elif i.is_call:
            for a in i.args:
                if a.startswith("%") or a.startswith("@"):
                    yield i, fn.path(a), "call"


def is_structor(d):
    """demangled name of a constructor or destructor"""
    import ir
    q = re.sub(r"\[abi:\w+\]", "", ir.strip_params(d))
    if "::~" in q:
        return True
    # drop template arguments of the last two components
    flat, depth = "", 0
    for c in q:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            flat += c
    parts = flat.split("::")
    return len(parts) > 1 and parts[-1] == parts[-2]


ITER = re.compile(r"iterator")


def field_accesses(fn):
    """accesses(fn) plus uses of iterators and references obtained from a field: (ins, path, kind, via)"""
    res = list(accesses(fn))
    for i, pa, k in res:
        yield i, pa, k, None
    # derived iterators: alloca storing the result of a container call on a field
    src = {}   # alloca id / call id -> field path
    for i in fn.ins:
        if i.is_call and i.callee and not i.callee.startswith("llvm."):
            d = fn.mod.prog.dem(i.callee)
            if is_structor(d):
                continue
            f = None
            for a in i.args[:2]:
                if a.startswith(("%", "@")):
                    pa = fn.path(a)
                    if comps(pa) and not pa.startswith("alloca"):
                        f = pa
                        break
            if f is None:
                continue
            if i.ty == "ptr":
                src["%%%d" % i.id] = f
    for i in fn.ins:
        if i.op == "store" and i.a[0] in src:
            j = fn.get(fn.root(i.a[1]))
            if j is not None and j.op == "alloca" and ITER.search(j.x[1] if len(j.x) > 1 else ""):
                src["%%%d" % j.id] = src[i.a[0]]
    # element access through references returned by the container
    for i in fn.ins:
        if i.op in ("load", "store", "atomicrmw", "cmpxchg"):
            a = i.a[1] if i.op == "store" else i.a[0]
            r = addr_root(fn, a)
            if r in src and fn.get(r).is_call:
                yield i, src[r], i.op, "element"
        elif i.is_call:
            for a in i.args:
                if a.startswith("%"):
                    r = addr_root(fn, a)
                    j = fn.get(r)
                    if r in src and j is not None and j.op == "alloca":
                        d = fn.mod.prog.dem(i.callee) if i.callee else ""
                        if d and not is_structor(d) and not d.startswith("llvm.") and "operator" in d:
                            yield i, src[r], "call", "iterator"


def addr_root(fn, v):
    """peel address arithmetic only"""
    for _ in range(40):
        i = fn.get(v) if v.startswith("%") else None
        if i is None or i.op not in ("getelementptr", "bitcast"):
            return v
        v = i.a[0]
    return v
