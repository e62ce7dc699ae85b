"""Shared entry: facts for the current /repo."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, ir

_cache = {}


def program():
    if "p" not in _cache:
        r, b, c = build.facts()
        p = ir.Program(r, b)
        p.cfg = c
        _cache["p"] = p
    return _cache["p"]


def inlined(prog, rel, roots, noinline=(), doinline=(), thread=False):
    """Module with the given roots, callees inlined."""
    out = build.inlined(prog.bcs[rel], roots, noinline, doinline, thread, prog.cfg)
    m = ir.Module(rel, out, prog)
    m.base = prog.mods[rel]
    m.globals = prog.mods[rel].globals
    m.lib = prog.mods[rel].lib
    m.demangle = prog.mods[rel].demangle
    for f in m.functions:
        f.inlined = True
    return m
