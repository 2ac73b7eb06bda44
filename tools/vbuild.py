"""Compiles /repo's current sources, in a given configuration and with a given
instrumentation, together with a harness of /verif/harness.

Everything goes under a build folder (git-ignored /verif/build, or $VERIF_BUILD)
and is keyed by the content of everything that can influence it, so that a
stale object is never used."""
import hashlib, os, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NPROC = os.cpu_count() or 4

BASE_DEFS = {
    "BASE_PRECISION": "32", "HAVE_GETHOSTNAME": "1", "PACKAGE": '"qdp--"',
    "PACKAGE_BUGREPORT": '"x"', "PACKAGE_NAME": '"qdp++"',
    "PACKAGE_STRING": '"qdp++ 1.46.0"', "PACKAGE_TARNAME": '"qdp--"',
    "PACKAGE_URL": '""', "PACKAGE_VERSION": '"1.46.0"',
    "QDP_AC_ALIGNMENT_SIZE": "16", "QDP_NC": "3", "QDP_ND": "4", "QDP_NS": "4",
    "QDP_USE_BAGEL_QDP": "0", "QDP_USE_BLUEGENEL": "1",
    "QDP_USE_CB2_LAYOUT": "1", "QDP_USE_GENERIC_OPTS": "1", "VERSION": '"1.46.0"',
    "ARCH_SCALAR": "1",
}

def _cfg(**kw):
    d = dict(BASE_DEFS)
    for k, v in kw.items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = str(v)
    return d

LAY = dict(QDP_USE_CB2_LAYOUT=None)
# name -> (defines of qdp_config_internal.h, extra compiler flags, extra sources)
SSE_SRC = [
    "scalarsite_sse/qdp_scalarsite_linalg_double.cc",
    "scalarsite_sse/sse_blas_local_sumsq_double.cc",
    "scalarsite_sse/sse_blas_local_vcdot_double.cc",
    "scalarsite_sse/sse_blas_local_vcdot_real_double.cc",
    "scalarsite_sse/sse_blas_vaxmbyz4_double.cc",
    "scalarsite_sse/sse_blas_vaxmyz4_double.cc",
    "scalarsite_sse/sse_blas_vaxpbyz4_double.cc",
    "scalarsite_sse/sse_blas_vaxpy4_double.cc",
    "scalarsite_sse/sse_blas_vaypx4_double.cc",
    "scalarsite_sse/sse_blas_vscal4_double.cc",
    "scalarsite_sse/sse_linalg_m_eq_scal_m_double.cc",
    "scalarsite_sse/sse_linalg_m_peq_m_double.cc",
    "scalarsite_sse/sse_linalg_m_eq_mm_double.cc",
    "scalarsite_sse/sse_linalg_m_eq_mh_double.cc",
    "scalarsite_sse/sse_linalg_m_eq_hm_double.cc",
    "scalarsite_sse/sse_linalg_m_eq_hh_double.cc",
]
COMMON_SRC = ["qdp_map.cc", "qdp_subset.cc", "qdp_random.cc", "qdp_layout.cc",
              "qdp_io.cc", "qdp_byteorder.cc", "qdp_util.cc", "qdp_stdio.cc",
              "qdp_profile.cc", "qdp_strnlen.cc", "qdp_crc32.cc",
              "qdp_stopwatch.cc", "qdp_rannyu.cc", "qdp_default_allocator.cc",
              "qdp_generic_threadbind.cc"]
SCALAR_SRC = ["qdp_scalar_init.cc", "qdp_scalar_layout.cc",
              "qdp_scalar_specific.cc", "qdp_scalarsite_specific.cc"]
SCALARVEC_SRC = ["qdp_scalarvec_init.cc", "qdp_scalarvec_layout.cc",
                 "qdp_scalarvec_specific.cc", "qdp_scalarvecsite_specific.cc"]
PARSCALAR_SRC = ["qdp_parscalar_init.cc", "qdp_parscalar_layout.cc",
                 "qdp_parscalar_specific.cc", "qdp_scalarsite_specific.cc"]

# single precision: the library's own kernels over a stand-in for the submodule that is not in the tree
SSE32F = ["-I" + VERIF + "/stubs/intrin"]
SSEF = ["-DQDP_SCALARSITE_SSE_LINALG_H"]
CONFIGS = {
    "s32": (_cfg(), [], SCALAR_SRC),
    "s32lex": (_cfg(QDP_USE_CB2_LAYOUT=None, QDP_USE_LEXICO_LAYOUT=1), [], SCALAR_SRC),
    "s32cb3d": (_cfg(QDP_USE_CB2_LAYOUT=None, QDP_USE_CB3D_LAYOUT=1), [], SCALAR_SRC),
    "s32cb32": (_cfg(QDP_USE_CB2_LAYOUT=None, QDP_USE_CB32_LAYOUT=1), [], SCALAR_SRC),
    "s64": (_cfg(BASE_PRECISION=64), [], SCALAR_SRC),
    "s64lex": (_cfg(BASE_PRECISION=64, QDP_USE_CB2_LAYOUT=None, QDP_USE_LEXICO_LAYOUT=1), [], SCALAR_SRC),
    "sse32": (_cfg(QDP_USE_SSE=1), SSE32F, SCALAR_SRC + SSE_SRC + ["scalarsite_sse/qdp_scalarsite_sse.cc"]),
    "sse64": (_cfg(QDP_USE_SSE=1, BASE_PRECISION=64), SSEF, SCALAR_SRC + SSE_SRC),
    "prof": (_cfg(QDP_USE_PROFILING=1), [], SCALAR_SRC),
    "omp32": (_cfg(QDP_USE_OMP_THREADS=1), ["-fopenmp"], SCALAR_SRC),
    "omp64": (_cfg(QDP_USE_OMP_THREADS=1, BASE_PRECISION=64), ["-fopenmp"], SCALAR_SRC),
    "ompsse32": (_cfg(QDP_USE_OMP_THREADS=1, QDP_USE_SSE=1), ["-fopenmp"] + SSE32F, SCALAR_SRC + SSE_SRC + ["scalarsite_sse/qdp_scalarsite_sse.cc"]),
    "ompsse": (_cfg(QDP_USE_OMP_THREADS=1, QDP_USE_SSE=1, BASE_PRECISION=64), ["-fopenmp"] + SSEF, SCALAR_SRC + SSE_SRC),
    "dbgmem": (_cfg(QDP_DEBUG_MEMORY=1), [], SCALAR_SRC),
    "pool": (_cfg(QDP_USE_TBBPOOL_ALLOCATOR=1), ["-ltbbmalloc"], SCALAR_SRC + ["qdp_pool_allocator.cc"]),
    "nogen": (_cfg(QDP_USE_GENERIC_OPTS=None), [], SCALAR_SRC),
    "v32": (_cfg(ARCH_SCALAR=None, ARCH_SCALARVEC=1), [], SCALARVEC_SRC),
    "v64": (_cfg(ARCH_SCALAR=None, ARCH_SCALARVEC=1, BASE_PRECISION=64), [], SCALARVEC_SRC),
    "p32": (_cfg(ARCH_SCALAR=None, ARCH_PARSCALAR=1), ["-I" + VERIF + "/stubs/qmp"], PARSCALAR_SRC),
    "p32lex": (_cfg(ARCH_SCALAR=None, ARCH_PARSCALAR=1, QDP_USE_CB2_LAYOUT=None, QDP_USE_LEXICO_LAYOUT=1),
               ["-I" + VERIF + "/stubs/qmp"], PARSCALAR_SRC),
}

COMMON = ["-msse2", "-include", "cstring", "-include", "cstdint", "-w"]
# name -> (compiler, compile flags, link flags)
INSTR = {
    "san": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined",
                        "-fno-sanitize-recover=all"], []),
    # for large catalogues of expressions: -O0 compiles an order of magnitude faster
    "san0": ("clang++", ["-O0", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined",
                        "-fno-sanitize-recover=all"], []),
    "ubsan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=undefined",
                        "-fno-sanitize-recover=all"], []),
    "opt": ("g++", ["-O2"], []),
    "copt": ("clang++", ["-O2"], []),
    "gtsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"], []),
    "gtsan0": ("g++", ["-O0", "-g1", "-fsanitize=thread"], []),
    "gsan0": ("g++", ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], []),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"], []),
    "vg": ("g++", ["-O1", "-g1"], []),
}


class BuildError(Exception):
    pass


def _digest_tree():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(VERIF, "harness"), os.path.join(VERIF, "stubs")]
    for root in roots:
        for dp, dn, fn in os.walk(root):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_tree = None


def tree_digest():
    global _tree
    if _tree is None:
        _tree = _digest_tree()
    return _tree


def _write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def config_dir(cfg):
    d = os.path.join(BUILD, "cfg", cfg)
    defs = CONFIGS[cfg][0]
    text = "".join("#define %s %s\n" % (k, defs[k]) for k in sorted(defs))
    _write_if_changed(os.path.join(d, "qdp_config_internal.h"), text)
    return d


def compile_flags(cfg, instr, extra=()):
    cxx, cf_, lf = INSTR[instr]
    d = config_dir(cfg)
    if cxx == "clang++":
        cf_ = cf_ + ["-DHAVE_STRNLEN=1"]  # clang rejects the drop-in's redeclaration
    return [cxx] + COMMON + cf_ + CONFIGS[cfg][1] + list(extra) + [
        "-I" + d, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")]


def _obj(src, cfg, instr, extra=()):
    cmd = compile_flags(cfg, instr, extra)
    h = hashlib.sha256()
    with open(src, "rb") as f:
        h.update(f.read())
    h.update(src.encode())
    h.update(repr(cmd).encode())
    h.update(repr(sorted(CONFIGS[cfg][0].items())).encode())
    h.update(tree_digest().encode())
    # harness TUs that include repo .cc files
    for line in open(src, errors="replace"):
        if line.startswith('#include "../lib/'):
            p = os.path.join(REPO, line.split('"')[1][3:])
            with open(p, "rb") as f:
                h.update(f.read())
    out = os.path.join(BUILD, "obj", cfg + "-" + instr,
                       os.path.basename(src) + "." + h.hexdigest()[:20] + ".o")
    return out, cmd + ["-DVERIF_REPO=\"%s\"" % REPO, "-c", src]


def _compile(job):
    out, cmd = job
    if os.path.exists(out):
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    os.replace(tmp, out)


def build(targets):
    """targets: list of (driver, cfg, instr). driver: name of harness/<driver>*.cc
    Returns {target: executable}."""
    jobs, links = {}, {}
    for t in sorted(set(targets)):
        driver, cfg, instr = t
        objs = []
        hd = os.path.join(VERIF, "harness")
        srcs = sorted(os.path.join(hd, f) for f in os.listdir(hd)
                      if f.endswith(".cc") and (f == driver + ".cc" or f.startswith(driver + "__")))
        if not srcs:
            raise BuildError("no harness " + driver)
        srcs.append(os.path.join(hd, "vh.cc"))
        extra = []
        for s in srcs[:1]:
            for line in open(s):
                if line.startswith("// FLAGS "):
                    extra += line.split()[2:]
                if line.startswith("// USES "):
                    srcs += [os.path.join(hd, f + ".cc") for f in line.split()[2:]]
                if line.startswith("// STUB "):
                    srcs.append(os.path.join(VERIF, "stubs", line.split()[2]))
        if cfg.startswith("p") and cfg not in ("prof", "pool"):
                srcs.append(os.path.join(VERIF, "stubs", "qmp", "qmp.cc"))
        if "-fopenmp" in CONFIGS[cfg][1]:
            srcs.append(os.path.join(VERIF, "stubs", "omp", "omprt.cc"))
        for s in srcs:
            o, c = _obj(s, cfg, instr, extra)
            jobs[o] = (o, c)
            objs.append(o)
        for s in COMMON_SRC + CONFIGS[cfg][2]:
            p = os.path.join(REPO, "lib", s)
            o, c = _obj(p, cfg, instr)
            jobs[o] = (o, c)
            objs.append(o)
        links[t] = objs
    todo = [j for j in jobs.values() if not os.path.exists(j[0])]
    # heavy harness files first
    todo.sort(key=lambda j: (0 if "/harness/" in j[1][-1] else 1))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(_compile, todo))

    def link(t):
        driver, cfg, instr = t
        objs = links[t]
        h = hashlib.sha256(repr(objs).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "bin", "%s-%s-%s.%s" % (driver, cfg, instr, h))
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            cxx, cfl, lfl = INSTR[instr]
            tmp = exe + ".tmp%d" % os.getpid()
            cmd = [cxx] + cfl + objs + [x for x in CONFIGS[cfg][1] if x != "-fopenmp"] + lfl + ["-lpthread", "-o", tmp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise BuildError("link failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
            os.replace(tmp, exe)
        return t, exe
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return dict(ex.map(link, links))


if __name__ == "__main__":
    t = [tuple(a.split(",")) for a in sys.argv[1:]]
    import time
    t0 = time.time()
    try:
        for k, v in build(t).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1fs" % (time.time() - t0))
