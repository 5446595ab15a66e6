"""Builds QDP++ (from /repo's working tree) in one of several configurations
and links harness programs against it.  Nothing is written to /repo."""
import hashlib, os, subprocess, sys, json, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = """qdp_map qdp_subset qdp_random qdp_layout qdp_io qdp_byteorder qdp_util
 qdp_stdio qdp_profile qdp_strnlen qdp_crc32 qdp_stopwatch qdp_rannyu
 qdp_default_allocator qdp_generic_threadbind""".split()
SCALAR = "qdp_scalar_init qdp_scalar_layout qdp_scalar_specific qdp_scalarsite_specific".split()
PARSCALAR = "qdp_parscalar_init qdp_parscalar_layout qdp_parscalar_specific qdp_scalarsite_specific qdp_qmp_extensions".split()
SSE = ["scalarsite_sse/" + x for x in """qdp_scalarsite_linalg_double sse_blas_local_sumsq_double
 sse_blas_local_vcdot_double sse_blas_local_vcdot_real_double sse_blas_vaxmbyz4_double
 sse_blas_vaxmyz4_double sse_blas_vaxpbyz4_double sse_blas_vaxpy4_double sse_blas_vaypx4_double
 sse_blas_vscal4_double sse_linalg_m_eq_scal_m_double sse_linalg_m_peq_m_double
 sse_linalg_m_eq_mm_double sse_linalg_m_eq_mh_double sse_linalg_m_eq_hm_double
 sse_linalg_m_eq_hh_double""".split()]

LAYOUTS = {"lex": "QDP_USE_LEXICO_LAYOUT", "cb2": "QDP_USE_CB2_LAYOUT",
           "cb3d": "QDP_USE_CB3D_LAYOUT", "cb32": "QDP_USE_CB32_LAYOUT"}


class BuildError(Exception):
    pass


class Config:
    """arch: scalar|parscalar, layout, prec 32|64, sse, omp, nd, nc, ns, debugmem"""

    def __init__(self, arch="scalar", layout="cb2", prec=32, sse=False, omp=False,
                 nd=4, nc=3, ns=4, generic=True, san=False, extra=(), align=16):
        self.arch, self.layout, self.prec, self.sse, self.omp = arch, layout, prec, sse, omp
        self.nd, self.nc, self.ns, self.generic, self.san = nd, nc, ns, generic, san
        self.extra, self.align = tuple(extra), align

    def name(self):
        n = f"{self.arch}-{self.layout}-p{self.prec}-d{self.nd}c{self.nc}s{self.ns}"
        if self.sse: n += "-sse" + ("plain" if self.sse == "plain" else "")
        if self.omp: n += "-omp"
        if not self.generic: n += "-nogen"
        if self.san: n += "-san"
        if self.align != 16: n += f"-a{self.align}"
        for e in self.extra:
            n += "-" + "".join(c if c.isalnum() else "_" for c in e)
        return n

    def header(self):
        d = [("ARCH_SCALAR" if self.arch == "scalar" else "ARCH_PARSCALAR", 1),
             ("BASE_PRECISION", self.prec), ("HAVE_GETHOSTNAME", 1),
             ("PACKAGE", '"qdp--"'), ("PACKAGE_BUGREPORT", '"x"'), ("PACKAGE_NAME", '"qdp++"'),
             ("PACKAGE_STRING", '"qdp++ 1.46.0"'), ("PACKAGE_TARNAME", '"qdp--"'),
             ("PACKAGE_URL", '""'), ("PACKAGE_VERSION", '"1.46.0"'), ("VERSION", '"1.46.0"'),
             ("QDP_AC_ALIGNMENT_SIZE", self.align), ("QDP_NC", self.nc), ("QDP_ND", self.nd),
             ("QDP_NS", self.ns), ("QDP_USE_BAGEL_QDP", 0), ("QDP_USE_BLUEGENEL", 1),
             (LAYOUTS[self.layout], 1)]
        if self.generic: d.append(("QDP_USE_GENERIC_OPTS", 1))
        if self.sse: d.append(("QDP_USE_SSE", 1))
        if self.omp: d.append(("QDP_USE_OMP_THREADS", 1))
        if self.arch == "parscalar": d += [("HAVE_QMP_ROUTE", 1), ("HAVE_QMP_VERBOSE", 1)]
        return "".join(f"#define {k} {v}\n" for k, v in d)

    def flags(self):
        f = ["-std=gnu++17", "-O2", "-w", "-g1", "-msse2", "-include", "cstring", "-include", "cstdint"]
        # "plain": as /opt/vp/build.sh does, without the single precision SU(3) code; otherwise with stand-ins for its missing submodule
        if self.sse == "plain": f.append("-DQDP_SCALARSITE_SSE_LINALG_H")
        elif self.sse: f += ["-fno-strict-aliasing", "-I", os.path.join(VERIF, "harness/libintrin")]
        if self.omp: f.append("-fopenmp")
        if self.san: f += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                           "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer"]
        if self.arch == "parscalar":
            f += ["-include", os.path.join(VERIF, "harness/qmp/dml_shim.h"), "-I", os.path.join(VERIF, "harness/qmp")]
        f += list(self.extra)
        return f


_treehash = None
def tree_hash():
    """hash of everything of /repo a build can depend on"""
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for base in ("include", "lib"):
            for root, dirs, files in os.walk(os.path.join(REPO, base)):
                dirs.sort()
                for f in sorted(files):
                    p = os.path.join(root, f)
                    if f.endswith((".h", ".cc")):
                        h.update(os.path.relpath(p, REPO).encode())
                        with open(p, "rb") as fh:
                            h.update(hashlib.sha256(fh.read()).digest())
        _treehash = h.hexdigest()
    return _treehash


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


_pool = ThreadPoolExecutor(max_workers=JOBS)


def harness_hdrs():
    d = os.path.join(VERIF, "harness")
    out = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".h")]
    return out


def start_lib(cfg):
    """submit the compiles of a configuration; returns a finisher"""
    key = hashlib.sha256((tree_hash() + file_hash([os.path.join(VERIF, "harness/sse_shim.cc")]) + cfg.header() + " ".join(cfg.flags()) +
                          file_hash([os.path.join(VERIF, "harness/qmp", f) for f in
                                     sorted(os.listdir(os.path.join(VERIF, "harness/qmp")))])).encode()).hexdigest()[:16]
    d = os.path.join(WORK, "build", cfg.name())
    stamp = os.path.join(d, "key")
    lib = os.path.join(d, "libqdp.a")
    if os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == key:
        return lambda: lib
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(os.path.join(d, "include"))
    with open(os.path.join(d, "include", "qdp_config_internal.h"), "w") as f:
        f.write(cfg.header())
    srcs = COMMON + (SCALAR if cfg.arch == "scalar" else PARSCALAR) + (SSE if cfg.sse else []) + (["scalarsite_sse/qdp_scalarsite_sse"] if cfg.sse and cfg.sse != "plain" else [])
    inc = ["-I", os.path.join(d, "include"), "-I", os.path.join(REPO, "include")]
    objs, futs = [], []
    for s in srcs:
        o = os.path.join(d, s.replace("/", "_") + ".o")
        objs.append(o)
        futs.append(_pool.submit(run, ["g++"] + cfg.flags() + inc + ["-c", os.path.join(REPO, "lib", s + ".cc"), "-o", o]))
    if cfg.arch == "parscalar":
        o = os.path.join(d, "miniqmp.o")
        objs.append(o)
        futs.append(_pool.submit(run, ["g++"] + cfg.flags() + inc +
                                 ["-c", os.path.join(VERIF, "harness/qmp/miniqmp.cc"), "-o", o]))
    if cfg.sse == "plain":
        o = os.path.join(d, "sse_shim.o")
        objs.append(o)
        futs.append(_pool.submit(run, ["g++"] + cfg.flags() + inc + ["-c", os.path.join(VERIF, "harness/sse_shim.cc"), "-o", o]))

    def finish():
        for f in futs: f.result()
        run(["ar", "rcs", lib] + objs)
        with open(stamp, "w") as f: f.write(key)
        return lib
    return finish


def start_prog(cfg, sources, name=None, extra=(), libfin=None, repo_sources=()):
    """compile+link a harness program"""
    libfin = libfin or start_lib(cfg)
    name = name or os.path.splitext(os.path.basename(sources[0]))[0]
    d = os.path.join(WORK, "build", cfg.name())
    inc = ["-I", os.path.join(d, "include"), "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness")]
    allsrc = [s if s.startswith("/") else os.path.join(VERIF, "harness", s) for s in sources]
    rsrc = [os.path.join(REPO, s) for s in repo_sources]
    key = hashlib.sha256((tree_hash() + cfg.header() + " ".join(cfg.flags()) + " ".join(extra) +
                          file_hash(allsrc + harness_hdrs())).encode()).hexdigest()[:16]
    exe = os.path.join(d, name)
    stamp = exe + ".key"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return lambda: (libfin(), exe)[1]
    futs, objs = [], []
    for i, s in enumerate(allsrc + rsrc):
        o = exe + f".{i}.o"
        objs.append(o)
        futs.append(_pool.submit(run, ["g++"] + cfg.flags() + list(extra) + inc + ["-c", s, "-o", o]))

    def finish():
        lib = libfin()
        for f in futs: f.result()
        run(["g++"] + cfg.flags() + list(extra) + objs + [lib, "-lpthread", "-o", exe])
        with open(stamp, "w") as f: f.write(key)
        return exe
    return finish


def build_all(jobs):
    """jobs: list of (cfg, sources, kwargs) -> list of executables"""
    libs, progs, keys, done = {}, {}, [], {}
    for cfg, sources, kw in jobs:
        n = cfg.name()
        if n not in libs: libs[n] = start_lib(cfg)
        k = (n, repr(sources), repr(sorted(kw.items())))
        if k not in progs: progs[k] = start_prog(cfg, sources, libfin=libs[n], **kw)
        keys.append(k)
    for k in keys:
        if k not in done: done[k] = progs[k]()
    return [done[k] for k in keys]
