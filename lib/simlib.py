"""Shared machinery: PostgreSQL clusters, building the simulator, running one
seed or plan in a fresh process, and minimising failing plans."""
import glob, json, os, queue, shutil, signal, subprocess, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


CPU = 40  # seconds of processor time; a run takes about 0.5


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 10))
    resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))


class Infra(Exception):
    """The check itself could not run (never a verdict about the code)."""


def pgbin():
    d = sorted(glob.glob("/usr/lib/postgresql/*/bin"))
    if not d:
        raise Infra("no PostgreSQL installation")
    return d[-1]


ASPG = ["setpriv", "--reuid=postgres", "--regid=postgres", "--init-groups"]


class Cluster:
    """A throwaway PostgreSQL reachable only through a socket in its directory."""

    def __init__(self, d, template=None):
        self.d = d
        os.makedirs(d)
        os.chmod(d, 0o755)
        shutil.chown(d, "postgres", "postgres")
        self.data = d + "/data"
        if template:
            subprocess.run(ASPG + ["cp", "-a", template, self.data], check=True, cwd="/")
        else:
            r = subprocess.run(ASPG + [pgbin() + "/initdb", "-D", self.data, "-U", "postgres", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "--no-sync"], cwd="/", capture_output=True)
            if r.returncode:
                raise Infra("initdb: " + r.stderr.decode(errors="replace"))
        self.running = False

    def start(self):
        r = subprocess.run(ASPG + [pgbin() + "/pg_ctl", "-D", self.data, "-l", self.d + "/log", "-w", "-t", "120", "-o",
                                   "-k %s -c listen_addresses= -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c autovacuum=off -c max_connections=200 -c shared_buffers=64MB" % self.d, "start"],
                           cwd="/", stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode:
            raise Infra("pg_ctl start: " + r.stderr.decode(errors="replace"))
        self.running = True

    def createdb(self):
        subprocess.run([pgbin() + "/createdb", "-h", self.d, "-U", "postgres", "syncv3"], check=True, cwd="/")

    def stop(self, mode="immediate"):
        if self.running:
            subprocess.run(ASPG + [pgbin() + "/pg_ctl", "-D", self.data, "-m", mode, "-w", "stop"], cwd="/", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            self.running = False

    @property
    def dsn(self):
        return "host=%s user=postgres dbname=syncv3 sslmode=disable" % self.d


class Farm:
    """The built simulator plus one database cluster per worker."""

    def __init__(self, workers=8):
        self.dir = tempfile.mkdtemp(prefix="verifsim.")
        os.chmod(self.dir, 0o755)
        self.n = workers
        self.clusters = []
        self.bin = self.dir + "/out/verifsim"

    def __enter__(self):
        try:
            err = []

            def build():
                try:
                    self.build()
                except Exception as e:
                    err.append(e)
            t = threading.Thread(target=build)
            t.start()
            c0 = Cluster(self.dir + "/pg0")
            c0.start()
            c0.createdb()
            c0.stop("fast")
            t.join()
            if err:
                raise err[0]
            # let the proxy create its schema once, then clone
            c0.start()
            self.clusters = [c0]
            r = self.run({"seed": 1, "profile": "mix", "schema": True}, 0)
            if "error" in r:
                raise Infra("schema creation failed: " + r["error"][:2000])
            c0.stop("fast")
            for i in range(1, self.n):
                self.clusters.append(Cluster(self.dir + "/pg%d" % i, c0.data))
            ts = [threading.Thread(target=c.start) for c in self.clusters]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if not all(c.running for c in self.clusters):
                raise Infra("PostgreSQL did not start")
            return self
        except BaseException:
            self.__exit__(None, None, None)
            raise

    def __exit__(self, *a):
        for c in self.clusters:
            c.stop()
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        out = self.dir + "/out"
        r = subprocess.run([VERIF + "/build.sh", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Infra("build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        shutil.rmtree(out + "/gocache", ignore_errors=True)

    def run(self, job, worker, timeout=150, log=None, extra=()):
        """job: {"seed","profile"} or {"plan": {...}}."""
        cmd = [self.bin, "-dsn", self.clusters[worker].dsn] + list(extra)
        tmp = None
        if "plan" in job:
            tmp = self.dir + "/plan.%d.json" % worker
            with open(tmp, "w") as f:
                json.dump(job["plan"], f)
            cmd += ["-plan", tmp]
        else:
            cmd += ["-seed", str(job["seed"]), "-profile", job["profile"]]
        if log:
            cmd += ["-log", log]
        if job.get("schema"):
            cmd += ["-schema"]
        env = {"PATH": os.environ.get("PATH", ""), "GODEBUG": "asynctimerchan=0", "GOTRACEBACK": "all", "HOME": "/nonexistent"}
        t0 = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/", timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return {"error": "timeout after %d s" % timeout, "kind": "timeout", "wall": time.time() - t0}
        out = p.stdout.decode(errors="replace")
        for l in out.splitlines():
            if l.startswith("RESULT "):
                r = json.loads(l[7:])
                r["wall"] = time.time() - t0
                r["violations"] = r.get("violations") or []
                r["findings"] = r.get("findings") or []
                return r
        err = p.stderr.decode(errors="replace")
        v = crashed(err)
        if p.returncode in (-signal.SIGXCPU, 128 + signal.SIGXCPU) or "SIGXCPU" in err[:2000]:
            # simulated time stands still while the proxy computes: it never came to rest
            v = {"class": "live", "key": "busy loop", "detail": "one run used over %d s of processor time without coming to rest; runs need less than 2 s" % CPU, "at": 0}
        if v:
            return {"violations": [v], "findings": [], "faults": {}, "probes": {}, "stats": {}, "grants": {}, "wall": time.time() - t0,
                    "hash": "panic", "sched_hash": "", "virtual_s": 0, "steps": 0, "switches": 0, "ops": 0, "truncated": False, "crashed": err[:6000]}
        return {"error": (out[-1500:] + err[:3000]), "kind": "exit %d" % p.returncode, "wall": time.time() - t0}

    def pmap(self, jobs, fn, deadline=None):
        """fn(job, worker) on all workers; returns results in order (None if not run)."""
        q = queue.Queue()
        for i, j in enumerate(jobs):
            q.put((i, j))
        res = [None] * len(jobs)

        def work(w):
            while True:
                if deadline and time.time() > deadline:
                    return
                try:
                    i, j = q.get_nowait()
                except queue.Empty:
                    return
                res[i] = fn(j, w)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(self.n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return res


def crashed(err):
    """An unrecovered panic or runtime fault whose goroutine runs proxy code."""
    import re
    m = re.search(r"^(panic: .*|fatal error: .*)$", err, re.M)
    if not m:
        return None
    # the failing goroutine's stack is the first one printed
    st = err[m.start():]
    g = re.search(r"^goroutine \d+.*\[running.*?\]:\n(.*?)(?:\n\n|\Z)", st, re.M | re.S)
    body = g.group(1) if g else ""
    frames = [l for l in body.splitlines() if l and not l.startswith("\t")]
    if any(l.startswith("github.com/matrix-org/sliding-sync") for l in frames) and "SIMFATAL" not in err:
        top = next(l for l in frames if l.startswith("github.com/matrix-org/sliding-sync"))
        return {"class": "panic", "key": "process died", "detail": m.group(1)[:200] + " in " + top[:160], "at": 0}
    return None


def matches(r, cls, key):
    return any(v["class"] == cls and v["key"] == key for v in (r.get("violations") or []))


def minimise(farm, plan, cls, key, budget):
    """ddmin over the plan's operations (parallel), keeping the violation class."""
    end = time.time() + budget
    plan = json.loads(json.dumps(plan))

    def fails(p, w):
        r = farm.run({"plan": p}, w, timeout=60)
        return "error" not in r and matches(r, cls, key)

    def with_ops(ops, **kw):
        p = dict(plan)
        p["ops"] = ops
        p.update(kw)
        return p
    ops = plan["ops"]
    n = 2
    while len(ops) >= 1 and time.time() < end:
        size = max(1, len(ops) // n)
        cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
        res = farm.pmap(cands, lambda o, w: fails(with_ops(o), w), deadline=end)
        ok = [c for c, x in zip(cands, res) if x]
        if ok:
            # try to combine all removable chunks at once
            rm = [i for i, x in zip(range(0, len(ops), size), res) if x]
            allrm = [o for j, o in enumerate(ops) if not any(i <= j < i + size for i in rm)]
            if len(rm) > 1 and time.time() < end and fails(with_ops(allrm), 0):
                ops = allrm
            else:
                ops = ok[0]
            n = max(2, min(n, len(ops)))
        else:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    plan["ops"] = ops
    # simpler configuration
    for k, v in (("yield", 0), ("net_ms", 0), ("db_ms", 0), ("db_max_conns", 0), ("skew_ms", 0)):
        if time.time() > end or not plan["config"].get(k):
            continue
        p = json.loads(json.dumps(plan))
        p["config"][k] = v
        if fails(p, 0):
            plan = p
    return plan
