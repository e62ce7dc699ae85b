"""Natural loops and 'runs exactly once per iteration' over a function (optionally restricted to feasible edges)."""


class Cfg:
    def __init__(self, fn, edges=None, prune_eh=True):
        self.fn = fn
        self.succ = []
        for b, ss in enumerate(fn.succ):
            t = fn.blocks[b][-1] if fn.blocks[b] else None
            if t is not None and t.op == "invoke" and prune_eh:
                ss = ss[:1]
            self.succ.append([s for s in dict.fromkeys(ss) if edges is None or (b, s) in edges])
        n = len(fn.blocks)
        self.pred = [[] for _ in range(n)]
        self.reach = self.from_([0])
        for b in sorted(self.reach):
            for s in self.succ[b]:
                self.pred[s].append(b)

    def from_(self, starts, avoid=(), through=None):
        seen, wl = set(), [s for s in starts if s not in avoid]
        while wl:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            wl.extend(s for s in self.succ[x] if s not in avoid)
        return seen

    def scc(self):
        """strongly connected components with a cycle: list of sets"""
        fwd = {}
        out, done = [], set()
        for b in sorted(self.reach):
            if b in done:
                continue
            r = self.from_(self.succ[b])
            if b not in r:
                continue
            comp = {x for x in r if b in self.from_(self.succ[x]) or x == b}
            done |= comp
            out.append(comp)
        return out

    def loop_of(self, b):
        """largest cycle containing block b, as a set of blocks (empty when not in a loop)"""
        r = self.from_(self.succ[b])
        if b not in r:
            return set()
        return {x for x in r if b in self.from_(self.succ[x])}

    def headers(self, loop):
        return {b for b in loop if any(p not in loop for p in self.pred[b]) or b == 0}

    def exits(self, loop):
        return {(b, s) for b in loop for s in self.succ[b] if s not in loop}

    def once_per_iteration(self, blocks, loop):
        """problem text, or None when each iteration of `loop` executes exactly one of `blocks` once"""
        h = self.headers(loop)
        if len(h) != 1:
            return "loop with several entries"
        h = next(iter(h))
        ex = {b for b, s in self.exits(loop)}
        # a full iteration: header -> ... -> header without an action
        free = self.from_([h], set(blocks) | (set(range(len(self.succ))) - loop)) if h not in blocks else set()
        for b in free:
            if h in self.succ[b]:
                return "an iteration can pass without it"
        # leaving the loop other than by the header's decision (or, rotated, one that only leads back to the header)
        head = {h}
        x = h
        while len(self.succ[x]) == 1 and self.succ[x][0] in loop and self.succ[x][0] not in head and self.succ[x][0] not in blocks:
            x = self.succ[x][0]
            head.add(x)
        for b in ex:
            if b not in head and not self.only_to(b, h, loop):
                return "the loop can be left early"
        for b in blocks:
            r = self.from_([s for s in self.succ[b] if s in loop and s != h], {h} | (set(range(len(self.succ))) - loop))
            if r & set(blocks):
                return "it can run twice in an iteration"
        return None

    def only_to(self, b, h, loop):
        """from b the loop can only be continued through h"""
        nxt = [s for s in self.succ[b] if s in loop]
        while nxt:
            if nxt == [h]:
                return True
            if len(nxt) != 1:
                return False
            nxt = [s for s in self.succ[nxt[0]] if s in loop]
        return False
