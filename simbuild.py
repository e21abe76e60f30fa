"""Builds the simulator host and the target shared objects from /repo's current
working tree.  Object files are cached by content hash under /verif/.cache."""
import hashlib, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SIM = os.path.join(VERIF, "sim")

DEFAULT_OBJS = """alt_az ades2mpc astfuncs big_vsop brentmin cgi_func classel conbound cospar date
delta_t de_plan dist_pa eart2000 elp82dat eop_prec getplane get_time jsats lunar2 miscell moid
mpc_code mpc_fmt mpc_fmt2 nanosecs nutation obliquit pluto precess showelem
snprintf sof spline ssats triton unpack vislimit vsopson""".split()

# target .so -> list of (source, extra defines); the library objects are added
TARGETS = {
    "lib": [],
    "libt": [],          # the library with preemption points at memory accesses
    "astcheck": [("astcheck.cpp", [])],
    "cgicheck": [("cgicheck.cpp", ["-DCGI_VERSION"]), ("astcheck.cpp", ["-DCGI_VERSION"])],
    "add_off": [("add_off.c", [])],
    "add_off_cgi": [("add_off.c", ["-DON_LINE_VERSION"])],
    "mpc2sof": [("mpc2sof.cpp", []), ("mpcorb.cpp", [])],
    "jd": [("jd.cpp", [])],
    "them_cat": [("them_cat.c", [])],
    "phases": [("phases.cpp", [])],
    "chinese": [("chinese.cpp", [])],
    "calendar": [("calendar.cpp", [])],
    "jevent": [("jevent.cpp", [])],
    "lun_test": [(os.path.join(SIM, "moon_driver.cpp"), []), ("lun_tran.cpp", []), ("riseset3.cpp", [])],
    "tables": [("tables.cpp", []), ("riseset3.cpp", [])],
    "csv2ades": [("csv2ades.c", [])],
    "mms": [("mms.cpp", [])],
    "jpl2b32": [("jpl2b32.cpp", [])],
    "themis": [("themis.cpp", [])],
    "adestest": [("adestest.cpp", [])],
    "parallax_cgi": [("parallax.cpp", ["-DCGI_VERSION"])],
    "parallax": [("parallax.cpp", [])],
    "desigcgi": [("desigcgi.c", [])],
    "gust": [("gust86.cpp", [])],
    # the same, but locals which nobody sets are zero there (elsewhere they hold 0xfe...),
    # so that answers which depend on what a stack happens to hold differ
    "gustz": [("gust86.cpp", ["-ftrivial-auto-var-init=zero"])],
    "mpc_code": [("mpc_code.cpp", ["-DTEST_CODE"])],
    "xxx2rov": [("xxx2rov.c", [])],
    "astephem": [("astephem.cpp", []), ("mpcorb.cpp", [])],
}

TFLAGS = ["-O1", "-fPIC", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
          "-fstack-protector-all", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc", "-w", "-I", REPO]
HFLAGS = ["-O2", "-g", "-Wall", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer", "-I", SIM]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = None


def repo_headers():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        # any file a source may #include
        for p in sorted(glob.glob(os.path.join(REPO, "*.h")) + glob.glob(os.path.join(REPO, "*.inc"))):
            h.update(os.path.basename(p).encode())
            h.update(read(p))
        _hdr = h.hexdigest()
    return _hdr


def lib_sources():
    names = []
    try:
        mk = [f for f in os.listdir(REPO) if f.lower() == "makefile"][0]
        txt = read(os.path.join(REPO, mk)).decode("latin-1").replace("\\\n", " ")
        m = re.search(r"^OBJS\s*=\s*(.*)$", txt, re.M)
        names = [re.sub(r"\.o$", "", x) for x in m.group(1).split()]
    except Exception:
        pass
    if len(names) < 30:
        names = DEFAULT_OBJS
    out = []
    for n in names:
        for ext in (".cpp", ".c"):
            if os.path.exists(os.path.join(REPO, n + ext)):
                out.append((n + ext, []))
                break
    return out


def compile_target(item):
    src, defs = item
    path = os.path.join(REPO, src)
    txt = read(path)
    extra = b""
    for inc in re.findall(rb'#include\s+"([^"]+\.(?:c|cpp))"', txt):
        q = os.path.join(REPO, inc.decode())
        if os.path.exists(q):
            extra += read(q)
    key = digest(src, txt, extra, repo_headers(), " ".join(TFLAGS + defs), read(os.path.join(SIM, "redefine.syms")))
    obj = os.path.join(CACHE, "t_" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        cc = ["gcc"] if src.endswith(".c") else ["g++"]
        sh(cc + TFLAGS + defs + ["-c", path, "-o", tmp])
        sh(["objcopy", "--redefine-syms=" + os.path.join(SIM, "redefine.syms"), tmp])
        os.rename(tmp, obj)
    return obj


def compile_host(src):
    path = os.path.join(SIM, src)
    hd = b"".join(read(p) for p in sorted(glob.glob(os.path.join(SIM, "*.h"))))
    key = digest(src, read(path), hd, repo_headers(), " ".join(HFLAGS))
    obj = os.path.join(CACHE, "h_" + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp.o" % os.getpid()
        sh(["g++"] + HFLAGS + ["-I", REPO, "-c", path, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def build(targets, host_srcs):
    """Returns (path of host binary, directory holding the .so files)."""
    os.makedirs(CACHE, exist_ok=True)
    lib = lib_sources()
    jobs = {}
    with ThreadPoolExecutor(8) as ex:
        hf = {s: ex.submit(compile_host, s) for s in host_srcs}
        TSAN = ["-fsanitize=thread"]
        ZERO = ["-ftrivial-auto-var-init=zero"]
        variant = {"libt": TSAN, "gustz": ZERO}
        plain = any(t not in variant for t in targets)
        items = list(lib) if plain else []
        for t in targets:
            if t in variant:
                items += [(x, d + variant[t]) for x, d in lib]
        for t in targets:
            for it in TARGETS[t]:
                if it not in items:
                    items.append(it)
        tf = {(s, tuple(d)): ex.submit(compile_target, (s, d)) for s, d in items}
        hobjs = [hf[s].result() for s in host_srcs]
        tobjs = {k: f.result() for k, f in tf.items()}
        libobjs = [tobjs[(s, tuple(d))] for s, d in lib] if plain else []
        key = digest(*(hobjs + sorted(tobjs.values()) + list(targets)))
        outdir = os.path.join(CACHE, "b_" + key)
        os.makedirs(outdir, exist_ok=True)
        host = os.path.join(outdir, "simhost")
        links = []
        if not os.path.exists(host):
            links.append((host, ["g++", "-rdynamic", "-o", host + ".tmp"] + hobjs + ["-ldl"]))
        for t in targets:
            so = os.path.join(outdir, t + ".so")
            if not os.path.exists(so):
                prog = [tobjs[(s, tuple(d))] for s, d in TARGETS[t]]
                links.append((so, ["g++", "-shared", "-Wl,-z,now", "-Wl,-z,norelro", "-Wl,-Bsymbolic",
                                   "-Wl,-z,muldefs", "-o", so + ".tmp"] + prog + ([tobjs[(s, tuple(d + variant[t]))] for s, d in lib] if t in variant else libobjs) + ["-lm"]))

        def do(l):
            sh(l[1])
            os.rename(l[0] + ".tmp", l[0])
        list(ex.map(do, links))
    return host, outdir


def prune_cache(keep_mb=600):
    try:
        ents = []
        for e in os.scandir(CACHE):
            if e.is_dir():
                sz = sum(f.stat().st_size for f in os.scandir(e.path))
            else:
                sz = e.stat().st_size
            ents.append((e.stat().st_mtime, sz, e.path))
        ents.sort(reverse=True)
        tot = 0
        for m, sz, p in ents:
            tot += sz
            if tot > keep_mb << 20:
                if os.path.isdir(p):
                    for f in os.scandir(p):
                        os.unlink(f.path)
                    os.rmdir(p)
                else:
                    os.unlink(p)
    except OSError:
        pass
