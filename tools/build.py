#!/usr/bin/env python3
"""Builds /repo's sources (current working tree) with sanitizers, plus the harness drivers.

Everything goes to /verif/.build (git-ignored).  Objects are cached by content hash
(compiler flags + the source file + every header of the tree), so nothing depends on mtimes:
a change of any source or header of /repo always reaches the next build.

usage: build.py TARGET...      TARGET = a driver name (harness/<name>.cpp) or "tameparse"
"""
import hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, ".build")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-omit-frame-pointer"]
BASE = ["-std=gnu++14", "-g1", "-w", "-I" + REPO]
CONFIGS = {
    # the monitored build: sanitizer reports are written by the runtime and end the run
    "san": {"cxx": "clang++", "flags": BASE + ["-O1", "-fno-sanitize-recover=all"] + SAN},
    # the same with the race detector
    "tsan": {"cxx": "clang++", "flags": BASE + ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"]},
    # plain build, used for the table generator only (bootstrap step)
    "plain": {"cxx": "g++", "flags": BASE + ["-O1"]},
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_files(root, exts):
    res = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if os.path.splitext(f)[1] in exts:
                res.append(os.path.join(d, f))
    return res


def header_hash():
    hs = tree_files(os.path.join(REPO, "TameParse"), (".h", ".hpp", ".inc", ".tp"))
    return sha(*[x for p in hs for x in (os.path.relpath(p, REPO), read(p))])


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))
    return r.stdout


def compile_one(cfg, src, extra, key_extra):
    c = CONFIGS[cfg]
    key = sha(c["cxx"], " ".join(c["flags"] + extra), os.path.basename(src), read(src), key_extra)
    d = os.path.join(OUT, "obj", key[:2])
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        run([c["cxx"]] + c["flags"] + extra + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def compile_all(jobs):
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))


def link(cfg, objs, libs, name):
    c = CONFIGS[cfg]
    key = sha(c["cxx"], " ".join(c["flags"]), " ".join(objs), " ".join(libs), name)
    d = os.path.join(OUT, "bin", key[:24])
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        run([c["cxx"]] + c["flags"] + objs + libs + ["-o", tmp])
        os.rename(tmp, exe)
    return exe


_cache = {}


def lib_objects(cfg):
    """Objects of the whole library, in configuration cfg. Runs the bootstrap step like the real build."""
    if cfg in _cache:
        return _cache[cfg]
    hh = header_hash()
    tp = os.path.join(REPO, "TameParse")
    deft = os.path.join(tp, "Language", "definition.tp")

    # definition_tp.h, as xxd makes it
    gen0 = os.path.join(OUT, "gen", sha(read(deft))[:24])
    os.makedirs(gen0, exist_ok=True)
    dh = os.path.join(gen0, "definition_tp.h")
    if not os.path.exists(dh):
        data = read(deft)
        body = ", ".join("0x%02x" % b for b in data)
        with open(dh + ".tmp", "w") as f:
            f.write("unsigned char definition_tp[] = {%s};\nunsigned int definition_tp_len = %d;\n" % (body, len(data)))
        os.rename(dh + ".tmp", dh)

    srcs = tree_files(tp, (".cpp",))
    lang_dep = [s for s in srcs if b"tameparse_language.h" in read(s)]
    plain = [s for s in srcs if s not in lang_dep]
    # sources that include a generated header need the generated text in their key; headers that do are
    # covered because the generated text is a function of the tree + generator, hashed below

    # Stage 1: the generator (plain build)
    bmain = os.path.join(REPO, "bootstrap", "main.cpp")
    objs = compile_all([("plain", s, ["-DTAMEPARSE_BOOTSTRAP=1", "-I" + gen0], hh) for s in srcs_for_bootstrap(srcs) + [bmain]])
    boot = link("plain", objs, [], "bootstrap")
    gen1 = os.path.join(OUT, "gen", "lang-" + os.path.basename(os.path.dirname(boot)))
    os.makedirs(gen1, exist_ok=True)
    if not os.path.exists(os.path.join(gen1, "done")):
        import shutil
        shutil.copy(deft, os.path.join(gen1, "definition.tp"))
        try:
            r = subprocess.run([boot], cwd=gen1, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired:
            raise BuildError("the bootstrap generator did not finish within 300 s")
        if r.returncode != 0:
            raise BuildError("the bootstrap generator failed (%d): %s" % (r.returncode, r.stdout.decode("utf-8", "replace")[-3000:]))
        open(os.path.join(gen1, "done"), "w").close()
    gh = sha(read(os.path.join(gen1, "tameparse_language.h")), read(os.path.join(gen1, "tameparse_language.cpp")))

    # Stage 2: the library
    jobs = [(cfg, s, ["-I" + gen0], hh) for s in plain]
    jobs += [(cfg, s, ["-I" + gen0, "-I" + gen1], hh + gh) for s in lang_dep]
    jobs.append((cfg, os.path.join(gen1, "tameparse_language.cpp"), ["-I" + gen1, "-I" + tp], hh + gh))
    _cache[cfg] = (compile_all(jobs), gen0, gen1, hh + gh)
    return _cache[cfg]


def srcs_for_bootstrap(srcs):
    """The source list of bootstrap/Makefile.am, taken from that file."""
    import re
    mk = read(os.path.join(REPO, "bootstrap", "Makefile.am")).decode()
    names = set(re.findall(r"\.\./(TameParse/[A-Za-z0-9_/]+\.cpp)", mk))
    sel = [s for s in srcs if os.path.relpath(s, REPO) in names]
    return sel


def archive(objs):
    key = sha(*objs)
    d = os.path.join(OUT, "lib")
    os.makedirs(d, exist_ok=True)
    a = os.path.join(d, "libtp-%s.a" % key[:24])
    if not os.path.exists(a):
        tmp = a + ".%d.tmp" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        run(["ar", "rcs", tmp] + objs)
        os.rename(tmp, a)
    return a


# drivers that need only a part of the library (so that the generator step can be left out)
EXTRA = {"drv_gen": ["gen_support"]}
PARTS = {"drv_lex": ("Dfa", "Util"), "drv_cfg": ("Dfa", "Util", "ContextFree", "Lr")}


def build_part(target, cfg):
    hh = header_hash()
    tp = os.path.join(REPO, "TameParse")
    srcs = [s for d in PARTS[target] for s in tree_files(os.path.join(tp, d), (".cpp",))]
    hd = os.path.join(VERIF, "harness")
    hk = sha(*[x for p in tree_files(hd, (".h",)) for x in (p, read(p))]) + hh
    jobs = [(cfg, os.path.join(hd, target + ".cpp"), ["-I" + hd], hk)] + [(cfg, s, [], hh) for s in srcs]
    objs = compile_all(jobs)
    return link(cfg, objs[:1] + [archive(objs[1:])], [], target)


def build(target, cfg="san"):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if target in PARTS:
            try:
                return build_part(target, cfg)
            except BuildError:
                pass        # the part is no longer self-contained: use the whole library
        objs, gen0, gen1, key = lib_objects(cfg)
        lib = archive(objs)
        if target == "tameparse":
            pt = os.path.join(REPO, "parsetool")
            hk = sha(*[read(p) for p in tree_files(pt, (".h",))]) + key
            po = compile_all([(cfg, s, ["-I" + pt, "-I" + os.path.join(REPO, "TameParse"), "-I" + gen1], hk) for s in tree_files(pt, (".cpp",))])
            return link(cfg, po + [lib], ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"], "tameparse")
        hd = os.path.join(VERIF, "harness")
        hk = sha(*[x for p in tree_files(hd, (".h",)) for x in (p, read(p))]) + key
        o = compile_all([(cfg, os.path.join(hd, s + ".cpp"), ["-I" + hd, "-I" + gen1], hk) for s in [target] + EXTRA.get(target, [])])
        return link(cfg, o + [lib], [], target)


def generator_env(cfg="san"):
    """How the code-generation monitor compiles and links what the tool generates."""
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        objs, gen0, gen1, key = lib_objects(cfg)
        hd = os.path.join(VERIF, "harness")
        hk = sha(*[x for p in tree_files(hd, (".h",)) for x in (p, read(p))]) + key
        sup = compile_all([(cfg, os.path.join(hd, "gen_support.cpp"), ["-I" + hd, "-I" + gen1], hk)])
        c = CONFIGS[cfg]
        return {"VF_GEN_CXX": " ".join([c["cxx"]] + c["flags"] + ["-O0", "-I" + hd]), "VF_GEN_LINK": " ".join(sup + [archive(objs)])}


if __name__ == "__main__":
    try:
        for t in sys.argv[1:]:
            print(build(t))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
