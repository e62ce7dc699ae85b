"""Lock operations and must-hold locksets.

A lock is named by the last component of its access path (`Struct::field`; for a lock that is the first
member, by the field that leads to its owner).  Guards are tracked per local guard object."""
import re
from flow import Explorer

ACQ = re.compile(r"^std::(?:lock_guard|scoped_lock|unique_lock|shared_lock)<.*>::(?:lock_guard|scoped_lock|unique_lock|shared_lock)\(")
REL = re.compile(r"^std::(?:lock_guard|scoped_lock|unique_lock|shared_lock)<.*>::~")
UL = re.compile(r"^std::(?:unique_lock|shared_lock)<.*>::(lock|unlock|try_lock|release)\(")
RAW = re.compile(r"^(?:std::(?:recursive_|shared_|timed_)?mutex|cali::util::spinlock|.*siglock)::(lock|unlock|try_lock)\(")


def lock_id(fn, v):
    p = fn.path(v)
    q = p.rstrip("*")
    parts = re.split(r"/(?=[^/]*::|\[|\+|\.)", q)
    # '/'-separated components may contain '/' nowhere else
    parts = q.split("/")
    last = parts[-1]
    if len(parts) == 1:
        if p.startswith("@"):
            return p
        return "first-member:" + own_class(fn)
    if last.startswith(("[", "+", ".")) and len(parts) > 1:
        last = parts[-2] + "/" + last
    return last + ("*" if p.endswith("*") else "")


def own_class(fn):
    return fn.qname.rpartition("::")[0]


def op(fn, i):
    """('acq'|'rel'|'try', lock id or None, guard object or None) for a lock operation"""
    if not i.is_call or not i.callee:
        return None
    d = fn.mod.prog.dem(i.callee)
    if "ock" not in d and "utex" not in d:
        return None
    if "siglock" in d and not REL.match(d):
        # the per-thread reentrancy guard: a recursive counter, not a lock between threads
        r = _op(fn, i, d)
        return (r[0], SIG if r[1] is not None else None, r[2]) if r else None
    return _op(fn, i, d)


SIG = "siglock"


def _op(fn, i, d):
    if ACQ.match(d):
        args = i.args
        if "defer_lock" in d:
            return ("defer", lock_id(fn, args[1]), args[0])
        if "adopt_lock" in d:
            return ("adopt", lock_id(fn, args[1]), args[0])
        if "try_to_lock" in d:
            return ("trydefer", lock_id(fn, args[1]), args[0])
        if len(args) < 2:
            return ("defer", None, args[0])
        if "&&)" in d:
            return ("move", None, args[0])
        return ("acq", tuple(lock_id(fn, a) for a in args[1:]) if len(args) > 2 and "scoped" in d else lock_id(fn, args[1]), args[0])
    if REL.match(d):
        return ("reldtor", None, i.args[0])
    m = UL.match(d)
    if m:
        return ("ul-" + m.group(1), None, i.args[0])
    m = RAW.match(d)
    if m:
        return ({"lock": "acq", "unlock": "rel", "try_lock": "try"}[m.group(1)], lock_id(fn, i.args[0]), None)
    if i.callee in ("pthread_mutex_lock", "pthread_spin_lock"):
        return ("acq", lock_id(fn, i.args[0]), None)
    if i.callee in ("pthread_mutex_unlock", "pthread_spin_unlock"):
        return ("rel", lock_id(fn, i.args[0]), None)
    return None


class LockFlow:
    """state: frozenset of (lock, guard, held)"""

    def __init__(self, fn, entry=frozenset(), ops=None, want=None, prune_eh=False):
        self.fn = fn
        self.at = {}       # instr id -> list of frozenset(lock ids)
        self.double = []   # (ins, lock)
        self.want = want
        self.ops = ops if ops is not None else {i.id: op(fn, i) for i in fn.ins if i.is_call}
        self.entry = entry
        init = frozenset((l, None, True) for l in entry)
        self.ex = Explorer(fn, init, self.step, edge=self.edge, prune_eh=prune_eh, unwind=self.unwind)
        self.ex.run()

    def unwind(self, i, before, after):
        # an acquisition that throws has not acquired
        o = self.ops.get(i.id)
        return before if o and not o[0].startswith("rel") else after

    def edge(self, fn, b, s, key, val, st):
        # outcome of a try_lock used directly as a branch condition
        if key[0] == "v":
            i = fn.get(key[1])
            if i is not None and i.is_call:
                o = self.ops.get(i.id)
                if o and o[0] in ("try", "ul-try_lock") and val:
                    if o[0] == "try":
                        return st | {(o[1], None, True)}
                    return frozenset((l, g, True if g == o[2] else h) for l, g, h in st)
        return st

    def step(self, i, st):
        if self.want is None or i.id in self.want:
            held = frozenset(l for l, g, h in st if h)
            self.at.setdefault(i.id, set()).add(held)
        o = self.ops.get(i.id)
        if not o:
            return st
        k, l, g = o
        if k == "acq":
            ls = l if isinstance(l, tuple) else (l,)
            for x in ls:
                if any(a == x and h for a, _, h in st):
                    self.double.append((i, x))
            return st | {(x, g, True) for x in ls}
        if k == "defer":
            return st | {(l, g, False)} if l else st
        if k == "trydefer":
            return st | {(l, g, False)}
        if k == "adopt":
            return frozenset(x for x in st if not (x[0] == l and x[1] is None)) | {(l, g, True)}
        if k == "rel":
            return frozenset(x for x in st if x[0] != l)
        if k == "reldtor":
            return frozenset(x for x in st if x[1] != g)
        if k == "ul-lock":
            for a, b, h in st:
                if b == g and any(c == a and hh for c, _, hh in st):
                    self.double.append((i, a))
            return frozenset((a, b, True if b == g else h) for a, b, h in st)
        if k in ("ul-unlock", "ul-release"):
            return frozenset((a, b, False if b == g else h) for a, b, h in st)
        return st

    def held(self, i):
        """must-hold set before instruction i"""
        ss = self.at.get(i.id)
        if not ss:
            return None
        return frozenset.intersection(*ss)


class JoinFlow:
    """path-insensitive must-hold locksets for functions with too many paths"""

    def __init__(self, fn, entry=frozenset()):
        self.fn = fn
        self.ops = {i.id: op(fn, i) for i in fn.ins if i.is_call}
        self.double = []
        step = LockFlow.step
        self.want, self.at = frozenset(), {}
        inn = {0: frozenset((l, None, True) for l in entry)}
        wl = [0]
        while wl:
            b = wl.pop()
            st = inn[b]
            for i in fn.blocks[b]:
                st = step(self, i, st)
            for s in fn.succ[b]:
                new = st if s not in inn else inn[s] & st
                if s not in inn or new != inn[s]:
                    inn[s] = new
                    wl.append(s)
        self.want = None
        self.double = []
        for b, st in inn.items():
            for i in fn.blocks[b]:
                st = step(self, i, st)

    def held(self, i):
        ss = self.at.get(i.id)
        return frozenset.intersection(*ss) if ss else None
