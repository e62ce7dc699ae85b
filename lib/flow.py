"""Path-sensitive dataflow over Function CFGs.

State = (automaton state, frozenset of branch facts).  A branch fact remembers the outcome of an i1
value that is branched on more than once (or of a value the client asks to track), so correlated
branches do not create infeasible paths.  Facts about values computed inside a loop are dropped when
their block is re-entered.
"""
from collections import deque


class Limit(Exception):
    pass


def norm_cond(fn, v):
    """peel negations/casts: returns (value, polarity)"""
    pol = True
    while True:
        i = fn.get(v)
        if i is None:
            return v, pol
        if i.op == "xor" and i.a[1] == "#1" and i.ty == "i1":
            v, pol = i.a[0], not pol
            continue
        if i.op in ("icmp.eq", "icmp.ne") and i.a[1] == "#0":
            j = fn.get(i.a[0])
            if j is not None and j.op == "zext" and fn.get(j.a[0]) is not None and fn.get(j.a[0]).ty == "i1":
                v = j.a[0]
                if i.op == "icmp.eq":
                    pol = not pol
                continue
        if i.op == "trunc" and i.ty == "i1":
            j = fn.get(i.a[0])
            if j is not None and j.op == "zext" and fn.get(j.a[0]) is not None and fn.get(j.a[0]).ty == "i1":
                v = j.a[0]
                continue
        if i.op == "freeze":
            v = i.a[0]
            continue
        return v, pol


def cond_key(fn, v):
    """canonical key for a branch condition, so that equal comparisons share a fact"""
    v, pol = norm_cond(fn, v)
    i = fn.get(v)
    if i is not None and i.op.startswith("icmp."):
        p = i.op[5:]
        a, b = i.a
        neg = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}
        if p in neg:
            p, pol = neg[p], not pol
        return ("icmp", p, a, b), pol
    return ("v", v), pol


class Explorer:
    def __init__(self, fn, init, step, edge=None, track_all=False, prune_eh=False, max_states=400000, phi=None, unwind=None):
        """step(ins, st) -> st | None (kill path) ; edge(fn, b, succ, cond_key, outcome, st) -> st | None
        returns visited states; collects exits via self.exits: list of (ins, st)"""
        self.fn, self.step, self.edge = fn, step, edge
        self.phi = phi  # phi(ins, incoming value, state at the edge, state so far) -> state, on every edge into a block with phis
        self.exits = []
        self.unwind = unwind  # unwind(invoke, state before, state after) -> state on the exceptional edge
        self.prune_eh = prune_eh
        self.max = max_states
        # conditions branched on more than once
        cnt = {}
        self.conds = {}
        for b in fn.blocks:
            t = b[-1] if b else None
            if t is not None and t.op == "br" and len(t.x) == 2:
                k, p = cond_key(fn, t.a[0])
                self.conds[t.id] = (k, p)
                cnt[k] = cnt.get(k, 0) + 1
        self.multi = {k for k, c in cnt.items() if c > 1 or track_all}
        # phi of i1 feeding conditions: keep facts on them via edge evaluation
        self.defs = {}
        for k in cnt:
            vals = [k[1]] if k[0] == "v" else [k[2], k[3]]
            for v in vals:
                i = fn.get(v)
                if i is not None:
                    self.defs.setdefault(i.bb, []).append(k)
        # i1 phis
        self.phis = {}
        for b in fn.blocks:
            for i in b:
                if i.op == "phi" and i.ty == "i1":
                    self.phis.setdefault(i.bb, []).append(i)
                    self.multi.add(("v", "%%%d" % i.id))
        self.init = init
        self.parent = {}

    def run(self):
        fn = self.fn
        start = (0, self.init, frozenset())
        wl = deque([start])
        seen = {start}
        n = 0
        while wl:
            cur = wl.popleft()
            n += 1
            if n > self.max:
                raise Limit("state limit in %s" % fn.qname)
            b, st, facts = cur
            # facts on values redefined in this block are void
            if b in self.defs:
                kill = self.defs[b]
                facts = frozenset(f for f in facts if f[0] not in kill or self._isphi(f[0], b))
            dead = False
            for ins in fn.blocks[b]:
                if ins.op in ("br", "switch"):
                    continue
                prev = st
                r = self.step(ins, st)
                if r is None:
                    dead = True
                    break
                st = r
                if ins.op in ("ret", "resume", "unreachable"):
                    self.exits.append((ins, st, facts, cur))
            if dead:
                continue
            t = fn.blocks[b][-1] if fn.blocks[b] else None
            if t is None:
                continue
            outs = []
            if t.op == "br" and len(t.x) == 2:
                k, pol = self.conds[t.id]
                known = None
                if t.a[0] in ("#1", "#0"):
                    known = t.a[0] == "#1"
                for f in facts:
                    if f[0] == k:
                        known = f[1] == pol
                for idx, s in enumerate(t.x):
                    out = idx == 0
                    if known is not None and known != out:
                        continue
                    val = out == pol
                    nf = facts
                    if k in self.multi:
                        nf = frozenset([f for f in facts if f[0] != k] + [(k, val)])
                    ns = st
                    if self.edge:
                        ns = self.edge(fn, b, s, k, val, st)
                        if ns is None:
                            continue
                    outs.append((s, ns, nf))
            elif t.op == "switch":
                tgts = [(t.x[0], None)] + [(c[1], c[0]) for c in t.x[1:]]
                for s, v in tgts:
                    ns = st
                    if self.edge:
                        ns = self.edge(fn, b, s, ("switch", t.a[0]), v, st)
                        if ns is None:
                            continue
                    outs.append((s, ns, facts))
            elif t.op == "invoke":
                outs.append((t.x[0], st, facts))
                if not self.prune_eh:
                    outs.append((t.x[1], self.unwind(t, prev, st) if self.unwind else st, facts))
            elif t.op == "br":
                outs.append((t.x[0], st, facts))
            for s, ns, nf in outs:
                if self.phi:
                    base = ns
                    for p in fn.blocks[s]:
                        if p.op != "phi":
                            break
                        for v, pb in zip(p.a, p.x):
                            if pb == b:
                                ns = self.phi(p, v, base, ns)
                                break
                # evaluate i1 phis on this edge
                for p in self.phis.get(s, ()):
                    key = ("v", "%%%d" % p.id)
                    nf = frozenset(f for f in nf if f[0] != key)
                    for v, pb in zip(p.a, p.x):
                        if pb == b:
                            if v in ("#1", "#0"):
                                nf = nf | {(key, v == "#1")}
                            else:
                                k2, pol2 = cond_key(fn, v)
                                for f in nf:
                                    if f[0] == k2:
                                        nf = nf | {(key, f[1] == pol2)}
                                        break
                            break
                nxt = (s, ns, nf)
                if nxt not in seen:
                    seen.add(nxt)
                    self.parent[nxt] = cur
                    wl.append(nxt)
        return seen

    def _isphi(self, k, b):
        if k[0] != "v":
            return False
        i = self.fn.get(k[1])
        return i is not None and i.op == "phi" and i.bb == b

    def trace(self, cur):
        """blocks of a path to the given state, as source positions"""
        out = []
        while cur is not None:
            b = cur[0]
            blk = self.fn.blocks[b]
            if blk:
                w = blk[-1].where()
                if not w.endswith(":") and (not out or out[-1] != w):
                    out.append(w)
            cur = self.parent.get(cur)
        return " <- ".join(out[:12])
