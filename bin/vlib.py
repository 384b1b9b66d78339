"""Shared machinery of the checks: building the drivers from /repo's working
tree, recording executions, and letting TLC decide them."""
import itertools, json, os, threading, re, shutil, signal, subprocess, sys, tempfile, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
STALL_S = 40          # a call that takes longer than this does not return


class CheckError(Exception):
    """The machinery could not decide: never a violation."""


def find_jars():
    out = []
    for d in ("/opt/veriftools/tla",):
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar"):
                out.append(os.path.join(d, f))
    pri = [j for j in out if "tla2tools" in j] + [j for j in out if "tla2tools" not in j]
    return ":".join(pri)


class Work:
    """A scratch directory with a copy of the harness and of the specifications."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        self.h = os.path.join(self.dir, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), self.h)
        self.s = os.path.join(self.dir, "specs")
        shutil.copytree(os.path.join(VERIF, "specs"), self.s)
        mod = os.path.join(self.h, "go.mod")
        txt = open(mod).read()
        txt = re.sub(r"(replace github.com/oarkflow/permission => ).*", r"\g<1>" + REPO, txt)
        open(mod, "w").write(txt)
        self.count = itertools.count(1)
        self.lock = threading.Lock()
        self.bins = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.dir)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)

    def env(self, **kw):
        e = dict(os.environ)
        e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="",
                 GOSUMDB="off", GOWORK="off", REPO=REPO)
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def build(self, pkg, race=False):
        """race: False, True (with the race detector) or "plan" (with scheduling points;
        None when the sources cannot be rewritten for that)."""
        key = (pkg, race)
        with self.lock:
            if key not in self.bins:
                self.bins[key] = self._build(pkg, race)
            return self.bins[key]

    def _overlay(self):
        out = self.path("points")
        if not os.path.exists(out):
            os.mkdir(out)
            p = subprocess.run(["go", "run", "./instr", REPO, out, ".", "v2", "trie", "v1", "utils-", "ds-"], cwd=self.h, env=self.env(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                print("no scheduling points: " + p.stdout[-1000:])
        f = os.path.join(out, "overlay.json")
        return f if os.path.exists(f) else None

    def _build(self, pkg, race):
        out = self.path(pkg.replace("/", "_") + ("_race" if race is True else "_plan" if race else "") + ".bin")
        how = ["-race"] if race is True else []
        if race == "plan":
            f = self._overlay()
            if not f:
                return None
            how = ["-overlay", f]
        cmd = ["go", "test", "-c", "-o", out] + how + ["./" + pkg]
        p = subprocess.run(cmd, cwd=self.h, env=self.env(CGO_ENABLED="1" if race else os.environ.get("CGO_ENABLED", "1")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 and race == "plan":
            print("no build with scheduling points: " + p.stdout[-1000:])
            return None
        if p.returncode != 0 or not os.path.exists(out):
            raise CheckError("building the driver failed:\n" + p.stdout[-4000:])
        return out

    # -- running a driver ---------------------------------------------------
    def run_driver(self, binary, test, env, limit=300, stall=STALL_S, mem_gb=6, log=None):
        """Runs a driver; returns (lines, ended) where ended is "" when it ran to its
        end, else why it did not."""
        n = next(self.count)
        out = self.path("rec%d.nd" % n)
        open(out, "w").close()
        errf = self.path("rec%d.err" % n)

        def lim():
            os.setsid()
            if mem_gb:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        with open(errf, "w") as ef:
            p = subprocess.Popen([binary, "-test.run", "^" + test + "$", "-test.timeout", "0"], cwd=self.h,
                                 env=self.env(OUT=out, **env), stdout=ef, stderr=subprocess.STDOUT, preexec_fn=lim)
            t0 = time.time()
            last, lastsize = t0, -1
            ended = ""
            cpu_mark = None
            while True:
                try:
                    p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                size = os.path.getsize(out)
                nowt = time.time()
                if size != lastsize:
                    last, lastsize = nowt, size
                elif nowt - last > stall:
                    ended = "hang"
                if nowt - t0 > limit and not ended:
                    ended = "limit"
                if ended:
                    try:
                        if ended == "hang":
                            os.kill(p.pid, signal.SIGQUIT)      # where everybody is
                            try:
                                p.wait(timeout=5)
                            except subprocess.TimeoutExpired:
                                pass
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        err = open(errf, errors="replace").read()
        if not ended and p.returncode != 0:
            ended = "exit %d" % p.returncode
        lines = open(out, errors="replace").read().split("\n")
        return [x for x in lines if x], ended, err


def parse(lines):
    """Recorded lines -> (traces, vocab). A trace is {"i", "meta", "ev", "done", "pending"}."""
    traces, vocab = [], {}
    cur = None
    for ln in lines:
        try:
            v = json.loads(ln[1:])
        except ValueError:
            continue
        tag = ln[0]
        if tag == "T":
            cur = {"i": v["i"], "meta": v, "ev": [], "done": False, "pending": None}
            traces.append(cur)
        elif tag == "V":
            vocab.setdefault(v["kind"], {})[v["s"]] = v["b"]
        elif tag == "B":
            cur["pending"] = v
        elif tag == "E":
            cur["pending"] = None
            cur["ev"].append(v)
        elif tag == "D":
            cur["done"] = True
    return traces, vocab


def record(work, pkg, test, env, limit=300, race=False, stall=STALL_S):
    """Records executions. A call that ends or hangs the process is recorded as
    such only when it does so again, on its own, at the same call."""
    binary = work.build(pkg, race)
    lines, ended, err = work.run_driver(binary, test, env, limit, stall)
    traces, vocab = parse(lines)
    if not ended:
        return traces, vocab
    if not traces:
        raise CheckError("driver ended (%s) before its first trace:\n%s" % (ended, err[-3000:]))
    t = traces[-1]
    if t["pending"] is None:
        raise CheckError("driver ended (%s) outside a call:\n%s" % (ended, err[-3000:]))
    if ended == "limit":
        raise CheckError("driver exceeded its time limit of %ds" % limit)
    where = len(t["ev"])
    again = dict(env, START=t["i"], N=1)
    for attempt in range(4):        # maps are walked in a different order each time
        lines2, ended2, err2 = work.run_driver(binary, test, again, limit, stall)
        tr2, voc2 = parse(lines2)
        if ended2:
            break
    if not ended2 or ended2 == "limit" or not tr2 or tr2[-1]["pending"] is None:
        if ended != "hang" and ("fatal error: " in err or "panic: " in err) and REPO + "/" in err:
            t["ev"].append(dict(t["pending"], crash=(ended + ": " + err[:300]).replace("\\", "/"), res="crash"))
            t["pending"] = None
            return traces, vocab
        raise CheckError("driver ended (%s) in call %d of trace %d, but not when run again:\n%s" % (ended, where, t["i"], err[-3000:]))
    for k, m in voc2.items():
        vocab.setdefault(k, {}).update(m)
    t2 = tr2[-1]
    ev = dict(t2["pending"])
    ev["crash"] = (ended2 + ": " + err2[-300:]).replace("\\", "/")
    ev["res"] = "crash"
    t2["ev"].append(ev)
    t2["pending"] = None
    traces[-1] = t2
    return traces, vocab


def batch(events, query_ops):
    """Groups runs of queries into one step of the trace specification."""
    out, cur = [], []
    for e in events:
        if e["op"] in query_ops:
            cur.append(e)
            if len(cur) >= 40:
                out.append({"op": "queries", "qs": cur})
                cur = []
        else:
            if cur:
                out.append({"op": "queries", "qs": cur})
                cur = []
            out.append(e)
    if cur:
        out.append({"op": "queries", "qs": cur})
    return out


# -- TLC ---------------------------------------------------------------------
def tlc(work, module, cfg=None, env=None, workers=8, limit=600, extra=(), heap="6g", stack="64m", on_line=None):
    """Runs TLC; returns (output lines, statistics)."""
    n = next(work.count)
    meta = work.path("meta%d" % n)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-cp", find_jars(), "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    t0 = time.time()
    e = dict(os.environ)
    e.update(env or {})
    outp = work.path("tlc%d.out" % n)
    with open(outp, "w") as f:
        p = subprocess.Popen(cmd, cwd=work.s, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=os.setsid)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            shutil.rmtree(meta, ignore_errors=True)
            raise CheckError("TLC exceeded %ds on %s" % (limit, module))
    shutil.rmtree(meta, ignore_errors=True)
    text = open(outp, errors="replace").read()
    lines = text.split("\n")
    st = {"states": 0, "transitions": 0, "wall": time.time() - t0, "rc": p.returncode}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    if m:
        st["transitions"], st["states"] = (int(x.replace(",", "")) for x in m[-1])
    ok = "Model checking completed. No error has been found." in text
    st["ok"] = ok
    return lines, st


def tlc_must(work, module, **kw):
    lines, st = tlc(work, module, **kw)
    if not st["ok"]:
        keep, on = [], True
        for x in lines:
            if x.startswith("State ") or x.startswith('<<"') or x.startswith('"{'):
                on = False
            elif x.startswith("Error:"):
                on = True
            if on:
                keep.append(x)
        raise CheckError("TLC failed on %s:\n%s" % (module, "\n".join(keep)[-5000:]))
    return lines, st


def printed(lines, tag):
    """PrintT tuples starting with tag, possibly over several lines."""
    out, cur = [], None
    for ln in lines:
        if cur is None:
            if re.match(r'<<\s*"%s"' % tag, ln):
                cur = ln
        else:
            cur += " " + ln.strip()
        if cur is not None and cur.rstrip().endswith(">>"):
            out.append(cur)
            cur = None
    return out


def validate(work, module, traces, vocab, query_ops, kinds=("perm", "req"), chunk=None, workers=8, limit=600, env=None):
    """Lets TLC check recorded traces. Returns (rejections, stats); a rejection is
    (trace, step, text)."""
    steps = [batch(t["ev"], query_ops) for t in traces]
    use = [k for k, s in enumerate(steps) if s]
    data = {"traces": [steps[k] for k in use]}
    for k in kinds:
        # a record needs at least one field
        data[k + "s"] = dict(vocab.get(k, {}), **{"\u0001none": [1]})
    f = work.path("traces%d.json" % next(work.count))
    json.dump(data, open(f, "w"))
    e = {"TRACE_FILE": f}
    e.update(env or {})
    lines, st = tlc_must(work, module, env=e, workers=workers, limit=limit)
    rej, acc = [], set()
    for p in printed(lines, "REJECT"):
        m = re.match(r'<<\s*"REJECT", (\d+), (\d+), (.*)>>$', p)
        rej.append((traces[use[int(m.group(1)) - 1]], int(m.group(2)), m.group(3), steps[use[int(m.group(1)) - 1]]))
    for p in printed(lines, "ACCEPT"):
        acc.add(int(re.match(r'<<\s*"ACCEPT", (\d+)', p).group(1)))
    rejected = {use.index(traces.index(r[0])) + 1 for r in rej}
    missing = [k for k in range(1, len(use) + 1) if k not in acc and k not in rejected]
    if missing:
        raise CheckError("TLC neither accepted nor rejected traces %s" % missing[:5])
    st["accepted"] = len(acc)
    st["events"] = sum(len(t["ev"]) for t in traces)
    return rej, st
