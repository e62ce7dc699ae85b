"""Code reachable in a signal context: context-sensitive walk with constants (Caliper::is_signal() is true)."""
import re
from collections import deque

TOP = None


class Ctx:
    """sparse conditional constant propagation over one function for given parameter constants"""

    def __init__(self, fn, params, oracle):
        self.fn, self.oracle = fn, oracle
        self.val = {}
        self.params = params
        self.edges = set()
        self.reach = set()
        self.run()

    def ev(self, v):
        """int, or 'T' (unknown), or None (not yet)"""
        if v.startswith("#"):
            try:
                return int(v[1:])
            except ValueError:
                return "T"
        if re.fullmatch(r"a\d+", v):
            return self.params.get(int(v[1:]), "T")
        if v.startswith("%"):
            return self.val.get(int(v[1:]))
        return 0 if v == "null" else "T"

    def run(self):
        wl = deque([0])
        self.reach.add(0)
        n = 0
        while wl:
            b = wl.popleft()
            n += 1
            if n > 20000:
                self.reach = set(range(len(self.fn.blocks)))
                return
            for i in self.fn.blocks[b]:
                new = self.eval(i)
                if i.id not in self.val or self.val[i.id] != new:
                    old = self.val.get(i.id)
                    if old == "T":
                        new = "T"
                    elif old is not None and new is not None and old != new:
                        new = "T"
                    if old != new:
                        self.val[i.id] = new
                        for u in self.fn.users.get("%%%d" % i.id, ()):
                            if u.bb in self.reach and u.bb != b:
                                wl.append(u.bb)
            t = self.fn.blocks[b][-1] if self.fn.blocks[b] else None
            if t is None:
                continue
            ss = self.fn.succ[b]
            if t.op == "br" and len(t.x) == 2:
                c = self.ev(t.a[0])
                if isinstance(c, int):
                    ss = [t.x[0] if c & 1 else t.x[1]]
                elif c is None:
                    ss = []
            elif t.op == "switch":
                c = self.ev(t.a[0])
                if isinstance(c, int):
                    m = [x[1] for x in t.x[1:] if str(x[0]) == str(c)]
                    ss = m or [t.x[0]]
            for s in ss:
                if (b, s) not in self.edges:
                    self.edges.add((b, s))
                    self.reach.add(s)
                    wl.append(s)

    def eval(self, i):
        if i.is_call:
            r = self.oracle(i)
            return "T" if r is None else r
        if i.op in ("zext", "trunc", "freeze", "bitcast", "sext"):
            v = self.ev(i.a[0])
            return v & 1 if i.op == "trunc" and i.ty == "i1" and isinstance(v, int) else v
        if i.op in ("xor", "and", "or", "add", "sub") and len(i.a) == 2:
            a, b = self.ev(i.a[0]), self.ev(i.a[1])
            if i.op == "and" and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                return None
            if isinstance(a, int) and isinstance(b, int):
                return {"xor": (a ^ b) & (1 if i.ty == "i1" else -1), "and": a & b, "or": a | b, "add": a + b, "sub": a - b}[i.op]
            return "T"
        if i.op.startswith("icmp."):
            a, b = self.ev(i.a[0]), self.ev(i.a[1])
            if a is None or b is None:
                return None
            if isinstance(a, int) and isinstance(b, int):
                p = i.op[5:]
                r = {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b,
                     "ult": a < b, "ugt": a > b, "ule": a <= b, "uge": a >= b}.get(p)
                return int(r) if r is not None and (p in ("eq", "ne") or (a >= 0 and b >= 0)) else "T"
            return "T"
        if i.op == "phi":
            vs = [self.ev(v) for v, pb in zip(i.a, i.x) if (pb, i.bb) in self.edges]
            vs = [v for v in vs if v is not None]
            if not vs:
                return None
            return vs[0] if all(v == vs[0] for v in vs) else "T"
        if i.op == "select":
            c = self.ev(i.a[0])
            if isinstance(c, int):
                return self.ev(i.a[1] if c else i.a[2])
            a, b = self.ev(i.a[1]), self.ev(i.a[2])
            return a if a == b else "T"
        if i.op == "load":
            return "T"
        return "T"

    def calls(self):
        for b in sorted(self.reach):
            for i in self.fn.blocks[b]:
                if i.is_call:
                    yield i

    def retval(self):
        vs = {self.ev(r.a[0]) for r in self.fn.rets() if r.bb in self.reach and r.a}
        return vs.pop() if len(vs) == 1 else "T"


class Walk:
    def __init__(self, p, disp, oracle, stop=None):
        self.p, self.disp, self.orc, self.stop = p, disp, oracle, stop
        self.seen = {}     # (fn key, consts) -> Ctx
        self.parent = {}
        self.order = []

    def oracle(self, i):
        return self.orc(i)

    def run(self, starts):
        wl = deque((f, ()) for f in starts)
        for f in starts:
            self.parent[(f.key, ())] = None
        while wl:
            f, cs = wl.popleft()
            k = (f.key, cs)
            if k in self.seen:
                continue
            cx = Ctx(f, dict(cs), self.oracle)
            self.seen[k] = cx
            self.order.append(k)
            for i in cx.calls():
                if self.stop and self.stop(i):
                    continue
                ts = list(self.disp.targets(i))
                lib = False
                if i.callee and not ts:
                    if i.callee in f.mod.lib:
                        ts, lib = self.p.lib_targets(f.mod, i.callee), True
                for t in ts:
                    c2 = () if lib else tuple(sorted((n, cx.ev(a)) for n, a in enumerate(i.args)
                                                     if isinstance(cx.ev(a), int) and n < len(t.params) and t.params[n][1].startswith("i")))
                    k2 = (t.key, c2)
                    if k2 not in self.seen:
                        self.parent.setdefault(k2, (k, i))
                        wl.append((t, c2))

    def chain(self, k):
        out = []
        while k is not None and len(out) < 12:
            out.append(self.seen[k].fn.qname)
            p = self.parent.get(k)
            k = p[0] if p else None
        return " <- ".join(out)
