"""Build /repo/src (current working tree) and the harnesses, one sanitizer per
variant, into /verif/build (git-ignored).  Nothing is written in /repo."""
import hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EPICS_INC = "/opt/vp/epics-base/include"
CXX = "/usr/bin/g++"
DIRS = ["misc", "pv", "factory", "property", "copy", "pvMisc", "json"]
JOBS = max(2, os.cpu_count() or 4)

COMMON = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer",
          "-D_GNU_SOURCE", "-D_DEFAULT_SOURCE", "-D_X86_64_", "-DUNIX", "-Dlinux", "-pthread", "-w"]
VARIANTS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,enum", 
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread", "-DVH_TSAN"],
}


# synchronisation points at which harness/perturb.h injects delays
SYNC = ["_ZN10epicsMutex4lockEv", "_ZN10epicsMutex6unlockEv", "_ZN10epicsMutex7tryLockEv",
        "_ZN10epicsEvent7triggerEv", "_ZN10epicsEvent4waitEv", "_ZN10epicsEvent4waitEd",
        "epicsEventTrigger", "epicsEventWait", "epicsEventWaitWithTimeout", "epicsEventTryWait",
        "epicsThreadOnce"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    out = []
    for d in DIRS:
        base = os.path.join(REPO, "src", d)
        if not os.path.isdir(base):
            continue
        mk = _read(os.path.join(base, "Makefile")).decode()
        for line in mk.splitlines():
            line = line.split("#", 1)[0]
            m = re.match(r"\s*LIBSRCS\w*\s*\+?=\s*(.*)", line)
            if m:
                for n in m.group(1).split():
                    p = os.path.join(base, n)
                    if os.path.exists(p):
                        out.append(p)
    if len(out) < 20:
        raise BuildError("cannot find the library sources")
    return out


def header_dirs():
    return [os.path.join(REPO, "src", d) for d in DIRS if os.path.isdir(os.path.join(REPO, "src", d))]


def tree_hash(extra):
    h = hashlib.sha256()
    for d in DIRS:
        base = os.path.join(REPO, "src", d)
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.startswith("O."))
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".c", ".h@")) or f == "Makefile":
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, REPO).encode() + b"\0")
                    h.update(_read(p) + b"\0")
    h.update(_read(os.path.join(REPO, "configure", "CONFIG_PVDATA_VERSION")))
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def gen_version(outdir):
    cfg = _read(os.path.join(REPO, "configure", "CONFIG_PVDATA_VERSION")).decode()
    vars_ = dict(re.findall(r"^\s*(\w+)\s*=\s*(\S+)", cfg, re.M))
    t = _read(os.path.join(REPO, "src/pv/pvdVersionNum.h@")).decode()
    t = re.sub(r"@(\w+)@", lambda m: vars_.get(m.group(1), "0"), t)
    os.makedirs(os.path.join(outdir, "gen", "pv"), exist_ok=True)
    p = os.path.join(outdir, "gen", "pv", "pvdVersionNum.h")
    with open(p, "w") as f:
        f.write(t)


def includes(outdir):
    inc = ["-I" + os.path.join(outdir, "gen")]
    inc.append("-I" + os.path.join(REPO, "src"))
    inc += ["-I" + d for d in header_dirs()]
    for d in (EPICS_INC, EPICS_INC + "/os/Linux", EPICS_INC + "/compiler/gcc"):
        if os.path.isdir(d):
            inc.append("-I" + d)
    return inc


def run(cmd, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd[:3] + ["..."] + cmd[-3:]),
                                                    r.stdout.decode(errors="replace")[-6000:]))


def prune():
    """keep the build directory small: drop all but the 6 newest trees"""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime, reverse=True)
        for d in ds[6:]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(variant, harnesses):
    """returns {harness: path}; compiles only what is missing"""
    flags = COMMON + VARIANTS[variant]
    out = os.path.join(BUILD, "%s-%s" % (variant, tree_hash(flags)))
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    prune()
    gen_version(out)
    inc = includes(out)
    objs, jobs = [], []
    for s in lib_sources():
        o = os.path.join(out, os.path.relpath(s, os.path.join(REPO, "src")).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(("lib", s, o))
    hdir = os.path.join(VERIF, "harness")
    hh = hashlib.sha256()
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".h"):
            hh.update(_read(os.path.join(hdir, f)))
    hh = hh.hexdigest()
    bins = {}
    hobjs = {}
    for h in harnesses:
        src = os.path.join(hdir, h + ".cpp")
        key = hashlib.sha256(_read(src) + hh.encode()).hexdigest()[:16]
        o = os.path.join(out, "h_%s-%s.o" % (h, key))
        b = os.path.join(out, "h_%s-%s" % (h, key))
        bins[h] = b
        hobjs[h] = o
        if not os.path.exists(b) and not os.path.exists(o):
            jobs.append(("har", src, o))

    # biggest first
    jobs.sort(key=lambda j: (j[0] != "har", -os.path.getsize(j[1])))

    def comp(j):
        kind, s, o = j
        tmp = o + ".tmp%d" % os.getpid()
        cmd = [CXX] + flags + inc + ["-I" + hdir]
        run(cmd + ["-c", s, "-o", tmp])
        os.replace(tmp, o)

    t0 = time.time()
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, jobs))
    lib = os.path.join(out, "libpv.a")
    if not os.path.exists(lib) or any(j[0] == "lib" for j in jobs):
        tmp = lib + ".tmp%d" % os.getpid()
        if os.path.exists(tmp):
            os.unlink(tmp)
        run(["ar", "rcs", tmp] + objs)
        os.replace(tmp, lib)

    def link(h):
        b = bins[h]
        if os.path.exists(b):
            return
        tmp = b + ".tmp%d" % os.getpid()
        extra = []
        if variant == "asan":
            extra = ["-Wl,--wrap=_Znwm", "-Wl,--wrap=_Znam"]
        if b'"perturb.h"' in _read(os.path.join(hdir, h + ".cpp")):
            extra += ["-Wl,--wrap=" + s for s in SYNC]
        run([CXX] + flags + [hobjs[h], "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] +
            extra + ["-lCom", "-o", tmp])
        os.replace(tmp, b)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, harnesses))
    return bins, time.time() - t0


if __name__ == "__main__":
    b, t = build(sys.argv[1], sys.argv[2:])
    print(b, "%.1fs" % t)
