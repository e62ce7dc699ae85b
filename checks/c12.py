"""C12: a .cali stream defines every node before it is used."""
import re
import prog as P
import califmt as F
from absint import Limit
from check import Broken
from util import bootstrap, dem

TITLE = "A .cali stream defines every node before it is used"
TECHNIQUE = ("abstract interpretation of the stream writer over every path and record shape: the sequence of emitted "
             "tokens, definition calls, set operations and lock operations of each path is extracted and judged")
NOTE = ("Decides, for every path that writes a node record, that the ids it mentions were defined before, that the node "
        "was tested against and entered into the set of written nodes under one lock, and for records of every shape up "
        "to two references and two immediates that every id written was defined on the same path before the record "
        "starts; lines are written as a whole under the stream lock. Assumes that the metadata database resolves an id "
        "to the node that carries it.")

SHAPES = ["", "R", "I", "-", "RR", "RI", "IR", "II", "R-I", "RRI", "RII", "RRII", "IRIR"]


def held(ev):
    """events with the set of locks held at each"""
    l, out = [], []
    for e in ev:
        if e[0] == "lock":
            l.append(e[1])
        elif e[0] == "unlock" and e[1] in l:
            l.remove(e[1])
        out.append((e, tuple(l)))
    return out


def lockname(v):
    return v[2] if isinstance(v, tuple) and v[0] == "p" else v


def mention(v):
    return v[1] if isinstance(v, tuple) else str(v)


def nums(trace):
    """(preceding literal, value) of the numbers in a trace"""
    r, last = [], ""
    for t in trace:
        if t[0] == "lit":
            last = t[1]
        elif t[0] == "num":
            r.append((last, t[1]))
    return r


def body(ck):
    ck.rule("definition order", "on every path that writes a node record, the attribute and parent id in it were defined before the record starts")
    ck.rule("at most once", "a node is written only after the set of written nodes was asked for its id, which is then entered, under one lock without a gap")
    ck.rule("no node left out", "a node is skipped only when predefined, already written, or unknown to the database")
    ck.rule("record after nodes", "every id in a snapshot or globals record was defined on the same path before the record starts")
    ck.rule("whole lines", "the pieces of one line are written under one acquisition of the stream lock and end the line")
    ck.rule("one writer", "nothing else writes records, removes entries from the set of written nodes, or makes a second writer for a stream")
    p = P.program()
    ck.need(F.WR in p.mods, F.WR)
    m = F.wmod(p, P)
    boot = bootstrap(p, P)
    ids = set.intersection(*[set(b[0]) for b in boot.values()])
    nboot = 0
    while nboot in ids:
        nboot += 1
    ck.count("predefined nodes", nboot)
    f, paths = F.node_paths(p, P, m)
    w = f.blocks[0][-1].where()
    wrote = 0
    own = True        # does the function take the lock for the set itself?
    oslock = set()
    for facts, trace, ev in paths:
        h = held(ev)
        q = [k for k, e in enumerate(ev) if e[0] in ("count", "find", "contains", "insert", "emplace")]
        if not trace:
            skip = [x for x, o in facts if o and x[0] == "c" and x[1] == "ult" and x[2] == ("s", "a2") and isinstance(x[3], int)]
            if not q:
                k = skip[0][3] if skip else None
                ck.decide(k is not None and k <= nboot, "no node left out", "predefined ids", w,
                          "nodes with an id below %s are never written, but only %d nodes are predefined for every reader" % (k, nboot)
                          if k is not None else "a path writes nothing although the node is neither predefined nor written: %s" % describe(facts))
                continue
            res = {"%%%d" % ev[k][2].id for k in q}
            txt = repr(sorted(facts, key=repr))
            known = any(x[0] == "c" and x[1] == "eq" and x[3] == 0 and o and isinstance(x[2], tuple) and x[2][0] == "p" for x, o in facts)
            extra = [x for x, o in facts if not (x in skip or known and x[1] == "eq" or x[0] == "c" and x[1] == "ult" and x[2] == ("s", "a2"))
                     and not any(r in repr(x) for r in res)]
            first = all(not any(r in repr(x) for r in res) for x, o in facts)
            ck.decide(not extra and not first or known and not extra, "no node left out", "already written or unknown", w,
                      "a path leaves the node out for another reason: %s" % describe(facts))
            continue
        wrote += 1
        firstout = next(k for k, e in enumerate(ev) if e[0] == "out")
        lastout = max(k for k, e in enumerate(ev) if e[0] == "out")
        recs = {mention(e[1]) for e in ev[:firstout] if e[0] == "rec"}
        late = {mention(e[1]) for e in ev[firstout:] if e[0] == "rec"}
        tag = "with parent" if any("parent" in l for l, v in nums(trace)) else "without parent"
        for lit, v in nums(trace):
            key = lit.rstrip("=").split(",")[-1]
            if key == "id":
                continue
            ck.decide(mention(v) in recs, "definition order", "%s of a node %s" % (key, tag), w,
                      "the %s id is written %s" % (key, "before the node it names" if mention(v) in late else "without defining the node it names first"))
        if not any(l.rstrip("=").split(",")[-1] == "attr" for l, v in nums(trace)):
            ck.bad("definition order", "attr of a node " + tag, w, "the record names no attribute")
        # the record carries the parent exactly when there is one
        par = [x for x, o in facts if "parent(" in repr(x)]
        haspar = not any(o for x, o in facts if "parent(" in repr(x) and x[1] == "eq")
        ck.decide((tag == "with parent") == (haspar and bool(par)), "definition order", "parent present %s" % tag, w,
                  "the parent is left out of the record although the node has one")
        ins = [k for k, e in enumerate(ev) if e[0] in ("insert", "emplace")]
        ask = [k for k in q if k < firstout]
        ck.decide(bool(ask) and bool(ins), "at most once", "asked and entered (%s)" % tag, w,
                  "the node is written %s" % ("without asking whether it has been written" if not ask else "but not entered into the set of written nodes"))
        if ask and ins:
            same = all(mention(ev[k][1]) == "a2" for k in ask + ins)
            ck.decide(same, "at most once", "same id (%s)" % tag, w, "the id asked for or entered is not the id of the node")
            res = ["%%%d" % ev[k][2].id for k in ask]
            ck.decide(any(any(r in repr(x) for r in res) for x, o in facts), "at most once", "answer used (%s)" % tag, w,
                      "the answer of the set of written nodes is ignored")
            lo, hi = min(ask), max(ins)
            common = set(h[lo][1])
            for k in range(lo, hi + 1):
                common &= set(h[k][1])
            if not common:
                own = False
        locks = {x for e, l in h[firstout:lastout + 1] if e[0] == "out" for x in l}
        cont = [l for e, l in h[firstout:lastout + 1]]
        common = set(cont[0]).intersection(*map(set, cont))
        oslock |= {lockname(x) for x in common}
        ck.decide(bool(common) and trace[-1][0] == "lit" and trace[-1][1].endswith("\n"), "whole lines", "node " + tag, w,
                  "another thread can write between the pieces of a node record" if not common else "the line is not ended")
    ck.floor("paths that write a node", wrote, 2)
    # records
    n = 0
    for kind in ("snapshot", "globals"):
        for sh in SHAPES:
            f, rp = F.record_paths(p, P, kind, sh, m)
            w = f.blocks[0][-1].where()
            if not rp:
                ck.count("shapes not decided", 1)
            for facts, trace, ev in rp:
                n += 1
                h = held(ev)
                outs = [k for k, e in enumerate(ev) if e[0] == "out"]
                inst = "%s record %s" % (kind, sh or "(empty)")
                if not outs:
                    ck.decide(not sh.strip("-"), "record after nodes", inst, w, "a path writes nothing for a record with entries")
                    continue
                recs = {mention(e[1]) for e in ev[:outs[0]] if e[0] == "rec"}
                miss = [v for l, v in nums(trace) if mention(v) not in recs]
                ck.decide(not miss, "record after nodes", inst, w,
                          "the record mentions %s, which is not defined before it" % ", ".join(map(mention, miss)))
                span = [l for e, l in h[outs[0]:outs[-1] + 1]]
                common = set(span[0]).intersection(*map(set, span))
                nms = {lockname(x) for x in common}
                ck.decide(bool(common) and (not oslock or bool(nms & oslock)) and trace[-1][0] == "lit" and trace[-1][1].endswith("\n"),
                          "whole lines", inst, w, "the pieces of a record are not written under the stream lock" if trace[-1][0] == "lit" and
                          trace[-1][1].endswith("\n") else "the line is not ended")
                if not own:
                    r = [l for e, l in h if e[0] == "rec"]
                    cm = set(r[0]).intersection(*map(set, r)) if r else {1}
                    gap = False
                    if r:
                        a, b = [k for k, e in enumerate(ev) if e[0] == "rec"][0], [k for k, e in enumerate(ev) if e[0] == "rec"][-1]
                        gap = not set(h[a][1]).intersection(*[set(l) for e, l in h[a:b + 1]])
                    ck.decide(bool(cm), "at most once", "lock around the definitions of a %s" % inst, w,
                              "two threads can both find a node unwritten and both write it: no lock is held from asking until entering")
    ck.floor("record paths", n, 2 * len(SHAPES))
    # nothing else
    mod = p.mods[F.WR]
    for g in m.functions:
        for i in g.ins:
            if i.is_call and i.callee:
                x = F.SETU.match(dem(g, i))
                if x and x.group(1) in ("erase", "clear", "swap", "extract", "operator="):
                    ck.bad("one writer", "set of written nodes: " + x.group(1), i.where(), "entries are removed from the set of written nodes")
    lits = 0
    for rel, mo in p.mods.items():
        for g in mo.functions:
            for i in g.ins:
                if not i.is_call:
                    continue
                for a in i.args:
                    if isinstance(a, str) and a.startswith("s:") and a[2:].startswith("__rec="):
                        lits += 1
                        d = mo.prog.dem(i.callee) if i.callee else ""
                        if re.search(r"ostream.*::(write|put)\(|operator<<", d):
                            ck.decide(rel == F.WR, "one writer", "records written in " + rel, i.where(),
                                      "records are written outside the stream writer, past its list of written nodes")
    ck.floor("uses of record literals", lits, 4)
    import loops
    sites = 0
    for rel, mo in p.mods.items():
        for g in mo.functions:
            for i in g.ins:
                if i.is_call and i.callee and re.search(r"^cali::CaliWriter::CaliWriter\(cali::OutputStream&\)", mo.prog.dem(i.callee)):
                    sites += 1
                    b = next(k for k, bl in enumerate(g.blocks) if i in bl)
                    inloop = any(b in g.reach_from(t) for t in g.succ[b])
                    ck.decide(not inloop, "one writer", "writer made in %s" % g.qname.split("(")[0][-60:], i.where(),
                              "a new writer is made for a stream in every round of a loop and forgets which nodes were written")
    ck.floor("writer construction sites", sites, 3)
    ck.assume.append("the metadata database returns the node with the id asked for, so node->id() is the id that was looked up")


def describe(facts):
    return "; ".join(sorted("%s %s" % ("" if o else "not", x) for x, o in facts))[:300]
