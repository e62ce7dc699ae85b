"""Targets of calls: direct, event callbacks through function objects, and virtual calls."""
import re
from collections import defaultdict
import services

SLOT = re.compile(r"^(.*?)\*(?:\+?\[(\d+)\]|\[(\d+)\])?\*$")


class Dispatch:
    def __init__(self, p):
        self.p = p
        self.events = defaultdict(list)
        for rel, m in sorted(p.mods.items()):
            for f, evt, t, i in services.registrations(p, m):
                if t is not None and t not in self.events[evt]:
                    self.events[evt].append(t)
        self.vt = {}
        for rel, m in p.mods.items():
            for n, g in m.globals.items():
                if n.startswith("_ZTV") and g.get("init"):
                    self.vt.setdefault(n, (m, g["init"][0] if isinstance(g["init"][0], list) else g["init"]))
        self.nvirt = self.nevt = 0
        self._iface = None

    def iface(self):
        """implementations of CaliperMetadataAccessInterface: lists of slot -> function"""
        if self._iface is None:
            self._iface = []
            for n, (m, init) in self.vt.items():
                d = self.p.dem(n)
                if re.search(r"for cali::(Caliper|CaliperMetadataDB|CaliperMetadataAccessInterface|Aggregat\w*DB|\w*MetadataDB)$", d) or n in (
                        "_ZTVN4cali7CaliperE", "_ZTVN4cali17CaliperMetadataDBE"):
                    self._iface.append((n, m, init))
        return self._iface

    def slot(self, ins):
        pa = ins.fn.path(ins.a[0])
        m = re.match(r"^(.*)\*(?:\[(\d+)\])?\*$", pa)
        if not m:
            return None
        return m.group(1), int(m.group(2) or 0)

    def targets(self, ins):
        if ins.callee:
            d = self.p.dem(ins.callee)
            if "cali::util::callback<" in d and "::operator()" in d:
                e = re.search(r"Events::(\w+)$", ins.fn.path(ins.args[0]))
                self.nevt += 1
                return self.events.get(e.group(1) if e else "create_attr_evt", [])
            t = self.p.target(ins)
            return [t] if t is not None else []
        s = self.slot(ins)
        if s is None:
            return []
        recv, k = s
        out = []
        if self.is_iface(ins, recv):
            for n, m, init in self.iface():
                if 2 + k < len(init):
                    t = self.p.resolve(m, init[2 + k].lstrip("@").split("/")[0])
                    if t is not None:
                        out.append(t)
            if out:
                self.nvirt += 1
        return out

    def is_iface(self, ins, recv):
        """receiver is (or may be) a CaliperMetadataAccessInterface"""
        f = ins.fn
        m = re.match(r"^a(\d+)$", recv)
        if m:
            return bool(IFACE.search(ptype(f, int(m.group(1)))))
        m = re.match(r"^alloca:[^:]*:(.*):\d+(\*?)$", recv)
        if m:
            return bool(IFACE.search(m.group(1))) or m.group(1) == "ptr"
        return bool(re.search(r"Caliper|db\b|DB", recv))


IFACE = re.compile(r"cali::Caliper(MetadataDB|MetadataAccessInterface)?\b")


def ptype(f, k):
    """source type of the k-th IR parameter"""
    j, last = 0, None
    for n, (nm, *_) in enumerate(f.params):
        base = re.sub(r"\.coerce\d+$", "", nm)
        if n and not (base == last and base != nm):
            j += 1
        last = base
        if n == k:
            break
    return f.dtypes[j + 1] if j + 1 < len(f.dtypes) else ""
