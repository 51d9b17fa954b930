"""Shared machinery: scratch space, TLC runs, worker pool that drives the real
converter from /repo, verdicts, evidence, known findings."""
import atexit, gzip, json, os, pickle, re, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DATA = os.path.join(VERIF, "data")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 4)
JAR = "/opt/veriftools/tla/tla2tools.jar"
NOBODY = 65534

_scratch = None


def scratch():
    """One scratch directory per check run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
        _scratch = tempfile.mkdtemp(prefix="verif_", dir=base)
        os.chmod(_scratch, 0o755)
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                for p in _running:
                    p.kill()
                subprocess.run(["chmod", "-R", "u+rwX", _scratch], stderr=subprocess.DEVNULL)
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(clean)
        for sig in (signal.SIGTERM, signal.SIGHUP):
            signal.signal(sig, lambda *a: sys.exit(2))
    return _scratch


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, rc, text):
        self.rc, self.text = rc, text
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = "Model checking completed. No error has been found." in text
        m = re.search(r"The number of states generated: (\d+)", text)
        if m:  # simulation
            self.generated = self.distinct = int(m.group(1))
            self.ok = "Error:" not in text
        self.records = {}
        for line in text.splitlines():
            line = line.strip()
            if line.startswith('"@') and line.endswith('"'):
                # PrintT of a string:  "@TAG json"
                try:
                    s = json.loads(line)
                except ValueError:
                    s = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                tag, _, payload = s[1:].partition(" ")
                self.records.setdefault(tag, []).append(payload)

    def json(self, tag):
        return [json.loads(p) for p in self.records.get(tag, [])]


TLC_TOTAL = {"states": 0, "transitions": 0, "runs": []}


def tlc_start(module, cfg=None, env=None, workers=4, extra=(), heap="6g"):
    """Start TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    cfg = cfg or module
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    e = dict(os.environ)
    for k, v in (env or {}).items():
        e[k] = str(v)
    deps = "/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-cp", JAR + ":" + deps, "tlc2.TLC", "-config", os.path.join(SPEC, cfg + ".cfg"),
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-checkpoint", "0", *extra, os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(meta, "stdout.txt")
    with open(outp, "wb") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
    _running.append(p)
    return (module, cfg, p, outp, meta, time.time())


_running = []


def tlc_finish(h, timeout=840, expect_ok=True, count=True):
    module, cfg, p, outp, meta, t = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        if p in _running:
            _running.remove(p)
    with open(outp, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult(p.returncode, text)
    r.wall = time.time() - t
    if expect_ok and not r.ok:
        lines = [l for l in text.splitlines() if not l.startswith(("Parsing file", "Semantic processing", '"@'))]
        sys.stderr.write("\n".join([l for l in lines if l.startswith("Error:")][:4] + [""]) + "\n".join(lines)[-2500:] + "\n")
        raise MachineryError("TLC failed on %s/%s rc=%s" % (module, cfg, p.returncode))
    if count:
        TLC_TOTAL["states"] += r.distinct
        TLC_TOTAL["transitions"] += r.generated
        TLC_TOTAL["runs"].append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 1)})
    return r


def tlc(module, cfg=None, env=None, workers=4, timeout=840, extra=(), expect_ok=True, count=True, heap="6g"):
    return tlc_finish(tlc_start(module, cfg, env, workers, extra, heap), timeout, expect_ok, count)


def par(*fns):
    """independent TLC runs at the same time; results in order"""
    from concurrent.futures import ThreadPoolExecutor
    scratch()
    with ThreadPoolExecutor(len(fns)) as ex:
        return [f.result() for f in [ex.submit(g) for g in fns]]


def askfile(d):
    fd, p = tempfile.mkstemp(prefix="ask_", suffix=".json", dir=scratch())
    with os.fdopen(fd, "w") as f:
        json.dump(d, f)
    return {"ASK": p}


def simulate(module, num, cfg=None, env=None, depth=60, seed=None, **kw):
    """random behaviours of the specification; every complete one prints an @CASE record"""
    extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED if seed is None else seed)]
    r = tlc(module, cfg, env=env, workers=1, extra=extra, **kw)
    out, seen = [], set()
    for p in r.records.get("CASE", []):
        if p not in seen:
            seen.add(p)
            out.append(json.loads(p))
    return out


def write_ndjson(path, recs):
    with open(path, "w", encoding="utf-8") as f:
        for r in recs:
            f.write(json.dumps(r, ensure_ascii=True, separators=(",", ":")) + "\n")


def judge(module, recs, cfg=None, env=None, workers=1, chunk=20000, **kw):
    """Validate recorded observations against spec/<module>.tla.  The module reads
    $OBS (ndjson), gives every record a verdict, prints '@BAD {"i":n,"clause":..}' for
    every record the specification rejects, and has a POSTCONDITION that all records
    were judged.  Returns list of (record, clause, detail)."""
    bad = []
    for c in range(0, len(recs), chunk):
        part = recs[c:c + chunk]
        fd, path = tempfile.mkstemp(prefix="obs_", suffix=".ndjson", dir=scratch())
        os.close(fd)
        write_ndjson(path, part)
        e = dict(env or {})
        e["OBS"] = path
        r = tlc(module, cfg, env=e, workers=workers, **kw)
        n = r.json("JUDGED")
        total = n[-1]["n"] if n else -1
        if total != len(part):
            sys.stderr.write(r.text[-3000:])
            raise MachineryError("%s judged %s of %s records" % (module, total, len(part)))
        seen = set()
        for b in r.json("BAD"):
            if b["i"] in seen:
                continue
            seen.add(b["i"])
            bad.append((part[b["i"] - 1], b["clause"], b.get("detail")))
        os.unlink(path)
    return bad


# ------------------------------------------------------------------ workers
def _drop():
    if os.geteuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
        except OSError:
            pass


def _init_worker(base, hashseed_note=None):
    d = tempfile.mkdtemp(prefix="w_", dir=base)
    if os.geteuid() == 0:
        os.chown(d, NOBODY, NOBODY)
    _drop()
    os.chdir(d)
    os.environ["HOME"] = d
    global WORKDIR
    WORKDIR = d
    sys.dont_write_bytecode = True
    import logging
    logging.raiseExceptions = False
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    load_repo()


WORKDIR = None


def load_repo():
    import warnings
    warnings.simplefilter("ignore")
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import paconvert.converter as C
    assert os.path.realpath(C.__file__).startswith(os.path.realpath(REPO) + "/"), C.__file__
    return C


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def guarded(fn, arg, limit=40):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(arg)
    except CaseTimeout:
        return {"exc": "TIMEOUT"}
    except MemoryError:
        return {"exc": "MEMORY"}
    except BaseException as e:  # harness error is reported with its traceback
        return {"harness": "".join(traceback.format_exception(e))[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def pmap(fn, args, nproc=None, chunksize=None, limit=40):
    """Run fn on every argument in unprivileged worker processes.  Chunk numbers
    are handed out through a pipe, each worker writes its answers to a file."""
    args = list(args)
    if not args:
        return []
    nproc = min(nproc or NPROC, len(args))
    base = os.path.join(scratch(), "work")
    os.makedirs(base, exist_ok=True)
    os.chmod(base, 0o755)
    sys.stdout.flush()
    sys.stderr.flush()
    chunksize = chunksize or max(1, min(64, len(args) // (nproc * 6) or 1))
    chunksize = max(chunksize, (len(args) + 15999) // 16000)
    chunks = range(0, len(args), chunksize)
    qr, qw = os.pipe()
    os.write(qw, b"".join(struct.pack("<i", c) for c in chunks))
    os.close(qw)
    tmp = tempfile.mkdtemp(prefix="res_", dir=scratch())
    pids = []
    for w in range(nproc):
        f = open(os.path.join(tmp, str(w)), "wb")
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for sg in (signal.SIGTERM, signal.SIGHUP):
                    signal.signal(sg, signal.SIG_DFL)
                _init_worker(base)
                while True:
                    b = os.read(qr, 4)
                    if len(b) < 4:
                        break
                    c = struct.unpack("<i", b)[0]
                    out = [(i, guarded(fn, args[i], limit)) for i in range(c, min(c + chunksize, len(args)))]
                    pickle.dump(out, f)
                f.close()
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        f.close()
        pids.append(pid)
    os.close(qr)
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        if st:
            raise MachineryError("a worker ended with status %s" % st)
    out = [None] * len(args)
    for w in range(nproc):
        with open(os.path.join(tmp, str(w)), "rb") as f:
            while True:
                try:
                    part = pickle.load(f)
                except EOFError:
                    break
                for i, r in part:
                    if isinstance(r, dict) and "harness" in r:
                        raise MachineryError("worker error on %r:\n%s" % (args[i], r["harness"]))
                    out[i] = r
    shutil.rmtree(tmp, ignore_errors=True)
    return out


def load_corpus():
    with gzip.open(os.path.join(DATA, "corpus.json.gz"), "rt") as f:
        return json.load(f)


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """lines: 'KNOWN property=<id> key=<key> :: <text>'"""
    res = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
        for line in f:
            m = re.match(r"KNOWN property=(\w+) key=(\S+) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


# ------------------------------------------------------------------ reporting
class Report:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.viol = []
        self.known_hit = set()
        self.cov = {}
        self.samples = []
        self.traces = 0
        self.known = known_findings(pid)
        self.assumptions = []

    def violation(self, key, detail):
        """key: stable identification of the failing input; detail: dict for the replay"""
        if key in self.known:
            self.known_hit.add(key)
            return
        self.viol.append((key, detail))

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        cov["states"] = TLC_TOTAL["states"]
        cov["transitions"] = TLC_TOTAL["transitions"]
        cov["tlc_runs"] = TLC_TOTAL["runs"]
        cov["traces_validated_against_impl"] = self.traces
        cov["samples"] = self.samples
        cov["known_findings_seen"] = sorted(self.known_hit)
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k, self.known[k]))
        if self.viol:
            rp = os.path.join(d, "%s.replay.json" % self.pid)
            with open(rp, "w") as f:
                json.dump([{"key": k, "detail": v} for k, v in self.viol[:150]], f, indent=1, ensure_ascii=False, default=str)
            for k, v in self.viol[:5]:
                print("  violated: %s" % k)
                print("    " + json.dumps(v, ensure_ascii=False, default=str)[:1500])
            print("VIOLATION property=%s replay=%s (%d failing cases)" % (self.pid, rp, len(self.viol)))
            return 1
        print("property %s held: %d implementation traces, %d model states, %.1fs" % (self.pid, self.traces, TLC_TOTAL["states"], time.time() - self.t0))
        return 0
