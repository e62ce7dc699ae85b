"""Builds the analyser and turns /repo's current sources into IR facts.

Everything is written below WORK (git-ignored); /repo is only read.  The build graph is a ninja
file, so repeated runs redo only what changed.
"""
import atexit, fcntl, hashlib, json, os, re, shlex, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CALI_REPO", "/repo")
WORK = os.environ.get("CALI_WORK", os.path.join(VERIF, ".work"))
if os.environ.get("VERIF_TIER") == "thorough":
    # nothing cached: all facts are derived again, in a directory of their own
    WORK = os.path.join(WORK, "thorough-%d" % os.getpid())
    atexit.register(shutil.rmtree, WORK, True)
ENV = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%s): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def tool():
    src = os.path.join(VERIF, "irx", "irx.cpp")
    exe = os.path.join(WORK, "irx-" + hashlib.sha1(open(src, "rb").read()).hexdigest()[:12])
    if not os.path.exists(exe):
        run(["clang++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w", "-I/usr/lib/llvm-18/include", src,
             "-o", exe + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(exe + ".tmp", exe)
    return exe


def configure():
    cfg = os.path.join(WORK, "cfg")
    if not os.path.exists(os.path.join(cfg, "build.ninja")):
        run(["cmake", "-S", REPO, "-B", cfg, "-G", "Ninja",
             "-C", os.path.join(REPO, "cmake/hostconfig/github-actions.cmake"),
             "-DCMAKE_C_COMPILER=/usr/bin/clang", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++",
             "-DCMAKE_Fortran_COMPILER=/usr/bin/gfortran", "-DPython_EXECUTABLE=/usr/bin/python3",
             "-C", os.path.join(VERIF, "lib/mpi.cmake"), "-DWITH_MPI=ON", "-DWITH_OMPT=ON", "-DBUILD_TESTING=OFF"])
    db = json.loads(run(["ninja", "-C", cfg, "-t", "compdb"], cwd=cfg).split("\n", 1)[1]
                    if False else subprocess.run(["ninja", "-t", "compdb"], cwd=cfg, env=ENV, stdout=subprocess.PIPE,
                                                 text=True, check=True).stdout)
    gen = [e["output"] for e in db if e["output"].endswith(("services.inc.cpp", "mpiwrap/Wrapper.cpp"))]
    if len(gen) < 2:
        raise BuildError("generated sources not found in the build graph: %s" % gen)
    st = os.path.join(WORK, "gen.json")
    key = {f: hashlib.sha1(open(os.path.join(REPO, f), "rb").read()).hexdigest()
           for f in ("src/services/gen_services_inc.py.in", "src/services/mpiwrap/Wrapper.w",
                     "src/services/mpiwrap/wrap.py", "caliper-config.h.in", "src/CMakeLists.txt",
                     "src/services/CMakeLists.txt", "CMakeLists.txt") if os.path.exists(os.path.join(REPO, f))}
    if not os.path.exists(st) or json.load(open(st)) != key:
        for g in gen:
            p = os.path.join(cfg, g)
            if os.path.exists(p):
                os.unlink(p)
        json.dump(key, open(st, "w"))
    run(["ninja", "-C", cfg] + gen)
    return cfg, db


SKIP = ("/examples/", "/test/", "/googletest/", "/gotcha/", "/googlemock/")


def units(db, cfg):
    seen, out = {}, []
    for e in db:
        f = e["file"]
        if not f.endswith((".cpp", ".c", ".cc")) or " -c " not in e["command"]:
            continue
        f = os.path.normpath(os.path.join(e["directory"], f))
        if any(s in "/" + os.path.relpath(f, REPO if f.startswith(REPO + "/") else cfg) for s in SKIP) or f in seen:
            continue
        if not (f.startswith(REPO + "/src") or f.startswith(cfg + "/src")):
            continue
        seen[f] = 1
        toks = shlex.split(e["command"])
        keep, i = [], 0
        while i < len(toks):
            t = toks[i]
            if t in ("-o", "-MT", "-MF", "-c"):
                i += 2 if t != "-c" else 2
                continue
            if t in ("-MD", "-g") or t.startswith("-O") or t.startswith("-flto"):
                i += 1
                continue
            keep.append(t)
            i += 1
        if not any(t.startswith("-std=") for t in keep) and not f.endswith(".c"):
            keep.append("-std=c++17")
        rel = os.path.relpath(f, REPO) if f.startswith(REPO + "/") else "gen/" + os.path.relpath(f, cfg)
        out.append((f, rel, keep))
    return out


def source_hashes():
    h = {}
    for top in ("src", "include", "cmake", "python"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            for f in fn:
                p = os.path.join(dp, f)
                if f.endswith((".cpp", ".c", ".h", ".hpp", ".in", ".w", ".py", ".cmake", ".inc", ".txt")):
                    try:
                        h[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
                    except OSError:
                        pass
    return h


def drop_stale(res, bcs):
    """Judge staleness by content, not by time stamps."""
    st = os.path.join(WORK, "sources.json")
    new = source_hashes()
    old = json.load(open(st)) if os.path.exists(st) else {}
    changed = {p for p in set(new) | set(old) if new.get(p) != old.get(p)}
    names = {os.path.join(REPO, rel): rel for rel in res}
    wipe = any(p not in names for p in changed)
    for p, rel in names.items():
        if wipe or p in changed:
            for q in (res[rel], bcs[rel]):
                if os.path.exists(q):
                    os.unlink(q)
    if wipe:
        for rel in res:
            for q in (res[rel], bcs[rel]):
                if os.path.exists(q):
                    os.unlink(q)
    if changed:
        json.dump(new, open(st, "w"))


def facts(subset=None):
    """Emit IR facts for all units; returns {rel: path of json}."""
    l = lock()
    exe = tool()
    cfg, db = configure()
    us = units(db, cfg)
    if len(us) < 100:
        raise BuildError("only %d translation units found" % len(us))
    nin = [
        "rule bc",
        "  command = $cmd -MD -MF $out.d -w -g -O0 -Xclang -disable-O0-optnone -fno-discard-value-names "
        "-emit-llvm -o $out -c $in",
        "  depfile = $out.d",
        "  deps = gcc",
        "rule facts",
        "  command = %s facts $in $out --root %s/src --root %s/include --root %s/src" % (exe, REPO, REPO, cfg),
        ""]
    res, bcs = {}, {}
    for f, rel, cmd in us:
        if subset and not subset(rel):
            continue
        bc = os.path.join(WORK, "ir", rel + ".bc")
        js = os.path.join(WORK, "ir", rel + ".json")
        nin.append("build %s: bc %s\n  cmd = %s" % (bc, f, " ".join(shlex.quote(c) for c in cmd).replace("$", "$$")))
        nin.append("build %s: facts %s | %s" % (js, bc, exe))
        res[rel] = js
        bcs[rel] = bc
    drop_stale(res, bcs)
    nf = os.path.join(WORK, "ir.ninja")
    txt = "\n".join(nin) + "\n"
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, "w").write(txt)
    os.makedirs(os.path.join(WORK, "ir"), exist_ok=True)
    run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 4)], cwd=WORK)
    l.close()
    return res, bcs, cfg


def inlined(bc, roots, noinline=(), doinline=(), thread=False, cfg=None):
    """Facts for the functions matching `roots` (regexes on demangled names), callees inlined."""
    exe = tool()
    spec = "\n".join(["R " + r for r in roots] + ["N " + r for r in noinline] + ["I " + r for r in doinline] +
                     (["T thread"] if thread else [])) + "\n"
    h = hashlib.sha1((bc + spec).encode()).hexdigest()[:16]
    d = os.path.join(WORK, "inl")
    os.makedirs(d, exist_ok=True)
    sp, out = os.path.join(d, h + ".spec"), os.path.join(d, h + ".json")
    open(sp, "w").write(spec)
    cfg = cfg or os.path.join(WORK, "cfg")
    run([exe, "roots", bc, out, sp, "--root", REPO + "/src", "--root", REPO + "/include", "--root", cfg + "/src"])
    return out


if __name__ == "__main__":
    r, b, c = facts()
    print("%d units" % len(r))
