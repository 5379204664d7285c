"""Runs the cases of one property, collects what the monitors saw, decides."""
import hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import checks as C

VERIF = B.VERIF
HANG_S = 60          # no heartbeat for that long: kill and re-run the case alone
HANG2_S = 150
MAXCRASH = 6         # per unit of work
SOON_Q, SOON_T = 20, 300   # go on for that long after a violation was seen
WALL = {"quick": 600, "thorough": 3300}
MEM = 6 << 30


def env_for(variant):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=86:"
                         "detect_stack_use_after_return=0:handle_abort=1:"
                         "quarantine_size_mb=64:malloc_context_size=12:soft_rss_limit_mb=5000:"
                         "max_allocation_size_mb=4096")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=87"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=88:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0"
    e["EPICS_TZ"] = "UTC0"
    e["LC_ALL"] = "C"
    return e


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (?:/|\(|<null>)|#\d+ (.+?) (/\S+|<null>)")


def _norm(fn):
    fn = re.sub(r"<[^<>]*>", "", fn)
    for _ in range(4):
        fn = re.sub(r"<[^<>]*>", "", fn)
    fn = fn.split("(")[0].strip()
    fn = fn.replace("epics::pvData::", "").replace("std::", "")
    fn = re.sub(r"\s+", "_", fn)
    return fn[-80:]


def frames(text):
    """function names of frames inside the library, outermost harness excluded"""
    out = []
    for line in text.splitlines():
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ (?:in )?)?(.*?) (/\S+?)(?::\d+)*(?:\s|$)", line)
        if m and (B.REPO + "/src" in m.group(2)):
            out.append(_norm(m.group(1)))
    return out


def signature(text, rc):
    """stable key of a crash"""
    fr = frames(text)
    where = fr[0] if fr else "?"
    m = re.search(r"A call to 'assert\((.*?)\)'", text, re.S) or re.search(r"Assertion [`'](.*?)' failed", text)
    if m:
        return "assert:" + re.sub(r"\s+", "", m.group(1))[:80]
    m = re.search(r"runtime error: (.*)", text)
    if m and "AddressSanitizer" not in text.split(m.group(0))[0]:
        kind = m.group(1)
        kind = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", kind)
        kind = re.sub(r"\s+", "-", kind)[:70]
        return "ubsan:%s:%s" % (kind, where)
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", text)
    if m:
        return "terminate:%s" % m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan:%s:%s" % (m.group(1), where)
    m = re.search(r"WARNING: ThreadSanitizer: (.*?)(?: \(pid|$)", text)
    if m:
        # first library frame of each of the two stacks
        parts = re.split(r"\n\s*\n", text[m.start():])
        tops = []
        for p in parts[:3]:
            f = frames(p)
            if f and f[0] not in tops:
                tops.append(f[0])
        return "tsan:%s:%s" % (m.group(1).replace(" ", "-"), "|".join(sorted(tops[:2])) or "?")
    m = re.search(r"AddressSanitizer", text)
    if m:
        return "asan:other:%s" % where
    if rc < 0:
        return "signal:%d" % -rc
    return "exit:%d" % rc


class Unit:
    def __init__(self, job, frm, to):
        self.job, self.frm, self.to = job, frm, to


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol = {}       # key -> (job, case, msg, log)
        self.counters = {}
        self.modes = {}
        self.hashes = set()
        self.samples = []
        self.cases = 0
        self.inconclusive = []
        self.deadline = time.time() + WALL[tier]
        self.tmp = tempfile.mkdtemp(prefix="vt-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.stop = False
        self.grace = 60
        self.known = [k[1] for k in load_known() if k[0] == prop]

    def soon(self, full):
        """a violation which is not listed was seen: do not go on for long"""
        if any(k.fullmatch(full) for k in self.known):
            return
        with self.lock:
            self.grace = 0
            self.deadline = min(self.deadline, time.time() + (SOON_Q if self.tier == "quick" else SOON_T))

    def exec1(self, binpath, job, frm, to, hang, log=None):
        """one process; returns (rc, output, lastcase, hung, result)"""
        base = tempfile.mktemp(dir=self.tmp)
        prog, out = base + ".p", base + ".j"
        cmd = [binpath, "--mode", job["mode"], "--seed", str(self.seed), "--from", str(frm), "--to", str(to),
               "--tier", self.tier, "--out", out, "--progress", prog]
        with open(prog, "wb") as f:
            f.write(b"\0" * 4096)
        lf = open(base + ".log", "wb")
        wd = tempfile.mkdtemp(dir=self.tmp)
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env_for(job["variant"]), cwd=wd, start_new_session=True)
        last, lastt, hung, timedout, logged = None, time.time(), False, False, 0
        with open(prog, "r+b") as f:
            mm = mmap.mmap(f.fileno(), 4096)
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = mm[:16]
                now = time.time()
                if cur != last:
                    last, lastt = cur, now
                elif now - lastt > hang:
                    hung = True
                n = os.fstat(lf.fileno()).st_size
                if n > logged:
                    with open(base + ".log", "rb") as g:
                        g.seek(max(0, logged - 200))
                        new = g.read(min(n - logged, 1000000) + 200).decode(errors="replace")
                    logged = n
                    for m in re.finditer(r"@VIOL mode=(\S+) case=(\d+) key=(\S+) msg=", new):
                        self.soon("%s/%s" % (job["mode"], m.group(3)))
                if now > self.deadline + self.grace:
                    timedout = True
                if hung or timedout or self.stop:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    if self.stop and not hung:
                        timedout = True
                    break
            case = struct.unpack("<Q", mm[:8])[0]
            mm.close()
        lf.close()
        with open(base + ".log", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            text = f.read(200000)
            if n > 400000:
                f.seek(n - 200000)
            text += f.read(200000)
        text = text.decode(errors="replace")
        res = None
        if os.path.exists(out):
            try:
                with open(out) as f:
                    res = json.load(f)
                with open(out + ".hash", "rb") as f:
                    d = f.read()
                res["hashes"] = struct.unpack("<%dQ" % (len(d) // 8), d)
            except (OSError, ValueError, struct.error):
                res = None
        for x in (prog, out, out + ".hash", base + ".log"):
            try:
                os.unlink(x)
            except OSError:
                pass
        shutil.rmtree(wd, ignore_errors=True)
        return p.returncode, text, case, hung, timedout, res

    def note(self, job, case, key, msg, log=""):
        full = "%s/%s" % (job["mode"], key)
        self.soon(full)
        with self.lock:
            if full not in self.viol:
                self.viol[full] = (job, case, msg, log)
            if len(self.viol) > 60:
                self.stop = True

    def absorb(self, job, res, text, frm, upto):
        for m in re.finditer(r"^@VIOL mode=(\S+) case=(\d+) key=(\S+) msg=(.*)$", text, re.M):
            self.note(job, int(m.group(2)), m.group(3), m.group(4))
        with self.lock:
            n = max(0, upto - frm)
            self.cases += n
            mk = "%s.%s" % (job["variant"], job["mode"])
            self.modes[mk] = self.modes.get(mk, 0) + n
            if res:
                for k, v in res["counters"].items():
                    self.counters[k] = self.counters.get(k, 0) + v
                self.hashes.update(hash((job["mode"], h)) for h in res["hashes"])
                for s in res["samples"]:
                    if len(self.samples) < 6:
                        self.samples.append("%s: %s" % (job["mode"], s))

    def unit(self, binpath, u):
        job = u.job
        frm, crashes = u.frm, 0
        while frm < u.to:
            if self.stop or time.time() > self.deadline:
                with self.lock:
                    self.inconclusive.append("%s %d..%d not run (time)" % (job["mode"], frm, u.to))
                return
            rc, text, case, hung, timedout, res = self.exec1(binpath, job, frm, u.to, HANG_S)
            if rc == 0 and res is not None and not hung:
                self.absorb(job, res, text, frm, frm + res["done"])
                if res["done"] < u.to - frm and res["violations"] == 0:
                    self.inconclusive.append("%s stopped early" % job["mode"])
                # many violations: do not dig further in this unit
                return
            self.absorb(job, None, text, frm, case)
            if timedout:
                with self.lock:
                    self.inconclusive.append("%s %d..%d cut (time)" % (job["mode"], case, u.to))
                return
            if hung:
                rc2, text2, _, hung2, to2, res2 = self.exec1(binpath, job, case, case + 1, HANG2_S)
                if hung2:
                    self.note(job, case, "hang", "no progress for %d s, twice" % HANG_S, text2[-4000:])
                elif rc2 != 0 and not to2:
                    self.note(job, case, signature(text2, rc2), "crash", text2[:12000])
                elif not to2:
                    self.absorb(job, res2, text2, case, case + 1)
                    print("note: case %d of %s was slow once" % (case, job["mode"]))
            elif rc == 99:
                raise RuntimeError("harness error: %s" % text[-500:])
            elif rc == -9:
                # ended from outside (memory guard): try once more, alone
                rc2, text2, _, hung2, to2, res2 = self.exec1(binpath, job, case, case + 1, HANG2_S)
                if rc2 == 0:
                    self.absorb(job, res2, text2, case, case + 1)
                else:
                    with self.lock:
                        self.inconclusive.append("%s case %d killed" % (job["mode"], case))
            else:
                self.note(job, case, signature(text, rc), "crash rc=%d" % rc, text[:12000])
                crashes += 1
                if crashes >= MAXCRASH:
                    return
            frm = case + 1

    def run(self):
        spec = C.CHECKS[self.prop]
        jobs = []
        for j in spec["jobs"]:
            j = dict(j)
            j["n"] = j["quick"] if self.tier == "quick" else j.get("thorough", j["quick"] * 20)
            if j["n"]:
                jobs.append(j)
        bins, bt = {}, 0
        for v in sorted(set(j["variant"] for j in jobs)):
            hs = sorted(set(j["harness"] for j in jobs if j["variant"] == v))
            b, t = B.build(v, hs)
            bt += t
            for h, p in b.items():
                bins[(v, h)] = p
        units = []
        for j in jobs:
            par = j.get("par", B.JOBS)
            per = j.get("per", max(1, -(-j["n"] // (par * 3))))
            a = 0
            while a < j["n"]:
                units.append(Unit(j, a, min(j["n"], a + per)))
                a += per
        # interleave: first the first unit of every job
        units.sort(key=lambda u: (u.frm // max(1, u.to - u.frm), u.job["mode"]))
        self.deadline = time.time() + WALL[self.tier]
        err = []
        with ThreadPoolExecutor(B.JOBS) as ex:
            fs = [ex.submit(self.unit, bins[(u.job["variant"], u.job["harness"])], u) for u in units]
            for f in as_completed(fs):
                e = f.exception()
                if e:
                    err.append(e)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if err:
            raise err[0]
        return bt


def load_known():
    """lines: 'known: property=<id> key=<regex> <text>' and 'fixed: property=...'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return out


def main(argv):
    prop = argv[0]
    if prop not in C.CHECKS:
        print("unknown property", prop)
        return 2
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    t0 = time.time()
    r = Run(prop, tier, seed)
    try:
        bt = r.run()
    except B.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    known = [k for k in load_known() if k[0] == prop]
    seen, bad = set(), []
    for full, (job, case, msg, log) in sorted(r.viol.items()):
        hit = None
        for i, k in enumerate(known):
            if k[1].fullmatch(full):
                hit = i
        if hit is None:
            bad.append((full, job, case, msg, log))
        else:
            seen.add(hit)
    for i in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i][2]))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for full, job, case, msg, log in bad:
        h = hashlib.sha256(("%s %s %d %d" % (prop, full, case, seed)).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump({"property": prop, "key": full, "variant": job["variant"], "harness": job["harness"],
                       "mode": job["mode"], "seed": seed, "tier": tier, "case": case, "message": msg, "log": log}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s case=%d %s" % (full, case, msg[:1500]))
        for line in log.splitlines()[:25]:
            print("    | " + line[:200])
    spec = C.CHECKS[prop]
    missing = [k for k in spec.get("need", []) if not r.counters.get(k)]
    cov = {
        "evaluations": r.cases,
        "distinct_nontrivial": len(r.hashes),
        "rule": spec["rule"],
        "samples": r.samples or ["none recorded"],
        "cases_per_monitor": r.modes,
        "observed": dict(sorted(r.counters.items())),
        "build_s": round(bt, 1),
        "known_findings_seen": sorted(known[i][2] for i in seen),
        "inconclusive": r.inconclusive[:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assume", []), "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct, %d violations, %d known, build %.0fs, total %.0fs" % (
        prop, tier, seed, r.cases, len(r.hashes), len(bad), len(seen), bt, time.time() - t0))
    if bad:
        return 1
    if missing or not r.hashes:
        print("INCONCLUSIVE: monitors observed nothing for %s" % (missing or "any case"))
        return 2
    return 0


def replay(prop, path):
    d = json.load(open(path))
    b, _ = B.build(d["variant"], [d["harness"]])
    binp = b[d["harness"]]
    cmd = [binp, "--mode", d["mode"], "--seed", str(d["seed"]), "--from", str(d["case"]), "--to", str(d["case"] + 1),
           "--tier", d["tier"], "-v"]
    print(" ".join(cmd))
    p = subprocess.run(cmd, env=env_for(d["variant"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    text = p.stdout.decode(errors="replace")
    print(text)
    if p.returncode != 0 or "@VIOL" in text:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
