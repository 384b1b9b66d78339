"""What each check runs: drivers recorded and validated against a trace
specification, and bounded models explored by TLC and replayed."""
from vlib import *

ROOTQ = {"authorize", "rows", "ids", "tenantsBy", "implicit", "children", "below", "rolesBelow", "has", "perms", "implicitPerms", "collectPerms", "groupPerms", "available",
         "scopesRoles", "get", "list", "totals", "held"}
V1Q = {"authorize", "ofPrincipal", "ofTenant", "implicitRows", "permsFor", "tenantsFor", "rolePerms", "scopesFor", "tenantScopesFor", "allowed", "below",
       "rolesBelow", "has", "perms", "implicitPerms", "collectPerms", "groupPerms", "get", "list", "totals", "held"}
TRIEQ = {"search", "searchFunc", "data", "first", "firstFunc", "held"}
LISTQ = {"slice", "isEmpty", "read", "compact", "contains", "join", "filter", "intersection", "union", "text", "pool"}
V2Q = {"authorize", "can", "perms", "kids", "getRole", "getTenant", "defTenant", "expired", "expiry", "held"}


class Result:
    def __init__(self, name):
        self.name, self.states, self.transitions, self.traces = name, 0, 0, 0
        self.samples, self.violations, self.assumptions, self.known, self.part = [], [], [], [], {}


def short(ev, n=400):
    s = json.dumps(ev, default=str)
    return s if len(s) <= n else s[:n] + "..."


def fault(ended, err):
    """What the code under test did to end the process, as its output tells."""
    mine = REPO + "/"
    if mine not in err:
        return ""
    if "DATA RACE" in err:
        return "data race"
    if "fatal error: concurrent map" in err:
        return "concurrent use of a map"
    if ended == "hang" and ("sync." in err or "semacquire" in err):
        return "calls that do not return"
    if "panic:" in err:
        return "panic"
    if "fatal error: all goroutines are asleep" in err:
        return "deadlock"
    return ""


class Drive:
    """Recorded executions of the implementation, accepted by a trace specification?"""

    def __init__(self, pkg, profile, module, qops, n, test="TestDrive", race=False, kinds=("perm", "req"), chunk=150, procs=1, env=None,
                 limit=400, stall=STALL_S):
        self.pkg, self.profile, self.module, self.qops, self.n = pkg, profile, module, qops, n
        self.test, self.race, self.kinds, self.chunk, self.procs, self.env, self.limit = test, race, kinds, chunk, procs, env or {}, limit
        self.stall = stall
        self.name = "%s/%s/%s" % (pkg, test, profile)

    def record(self, work, env, r):
        return record(work, self.pkg, self.test, env, race=self.race, limit=self.limit, stall=self.stall)

    def run(self, work, seed, tier):
        r = Result(self.name)
        done, ops, wall = 0, {}, 0
        for start in range(0, self.n, self.chunk):
            k = min(self.chunk, self.n - start)
            env = dict(self.env, PROFILE=self.profile, SEED=seed, START=start, N=k)
            traces, vocab = self.record(work, env, r)
            rej, st = validate(work, self.module, traces, vocab, self.qops, self.kinds, limit=self.limit)
            r.states += st["states"]
            r.transitions += st["transitions"]
            r.traces += st["accepted"] + len(rej)
            wall += st["wall"]
            for t in traces:
                for e in t["ev"]:
                    key = e["op"] + ("=%s" % e["res"] if e["res"] in (True, False, "ok", "err") else "")
                    ops[key] = ops.get(key, 0) + 1
            if not r.samples and traces:
                t = max(traces[:5], key=lambda x: len(x["ev"]))
                r.samples.append({"driver": self.name, "seed": seed, "trace": t["i"], "calls": [short(e, 200) for e in t["ev"][-6:]]})
            for t, step, text, steps in rej[:3]:
                r.violations.append({"kind": "trace", "pkg": self.pkg, "test": self.test, "profile": self.profile, "module": self.module,
                                     "seed": seed, "index": t["i"], "step": step, "race": self.race, "env": self.env,
                                     "summary": "%s trace %d step %d: the specification does not allow this result; expected, got: %s" % (
                                         self.name, t["i"], step, text[:500]),
                                     "events": t["ev"]})
            if r.violations:
                break
        r.part = {"driver": self.name, "spec": self.module, "traces": r.traces, "calls": sum(ops.values()), "by_result": dict(sorted(ops.items())),
                  "tlc_s": round(wall, 1)}
        return r


class Beside(Drive):
    """Several engines at once, each driven from its own goroutine and judged on its own."""

    def __init__(self, pkg, profile, module, qops, n):
        Drive.__init__(self, pkg, profile, module, qops, n, test="TestBeside", race=True)

    def record(self, work, env, r):
        lines, ended, err = work.run_driver(work.build(self.pkg, True), self.test, dict(env, GORACE="halt_on_error=1 exitcode=66"), self.limit, self.stall)
        traces, vocab = parse(lines)
        if ended:
            bad = "" if ended == "limit" else fault(ended, err)
            if not bad:
                raise CheckError("%s ended (%s):\n%s" % (self.name, ended, err[-3000:]))
            at = env["START"] + len(traces)
            r.violations.append({"kind": "beside", "pkg": self.pkg, "test": self.test, "profile": self.profile, "seed": env["SEED"], "index": at,
                                 "summary": "%s, traces from %d on: %s" % (self.name, at, bad), "output": err[:6000]})
            traces = [t for t in traces if t["pending"] is None]
        return traces, vocab


class Model:
    """A bounded model explored by TLC, every transition replayed into the real code."""

    def __init__(self, pkg, module, quick, thorough, test="TestReplay", procs=4):
        self.pkg, self.module, self.quick, self.thorough, self.test, self.procs = pkg, module, quick, thorough, test, procs
        self.race, self.name = False, module

    def run(self, work, seed, tier):
        r = Result(self.name)
        depth = self.quick if tier == "quick" else self.thorough
        lines, st = tlc_must(work, self.module, env={"DEPTH": str(depth)}, workers=1, limit=scale(tier, 500, 5000), heap="5g")
        model, states, steps = None, {}, []
        for ln in lines:
            if ln.startswith('"ST') or ln.startswith('"MODEL'):
                txt = json.loads(ln)
                tag, body = txt.split(" ", 1)
                if tag == "MODEL":
                    model = body
                elif tag == "STATE":
                    d = json.loads(body)
                    if d["f"] in states and states[d["f"]] != d["a"]:
                        states[d["f"]] = None       # two states with one fingerprint: leave both out
                    else:
                        states[d["f"]] = d["a"]
                else:
                    steps.append(json.loads(body))
        script = work.path("script_%s.nd" % self.module)
        n = 0
        with open(script, "w") as f:
            f.write(model + "\n")
            for s in steps:
                a = states.get(s["f"])
                if a is not None:
                    f.write(json.dumps({"p": s["p"], "o": s["o"], "a": a}, separators=(",", ":")) + "\n")
                    n += 1
        if n == 0 or n < 0.9 * len(steps):
            raise CheckError("%s: only %d of %d transitions could be replayed" % (self.module, n, len(steps)))
        calls = 0
        mt = json.loads(model)
        import concurrent.futures as cf
        per = (n + self.procs - 1) // self.procs
        with cf.ThreadPoolExecutor(self.procs) as ex:
            res = list(ex.map(lambda k: replay_part(work, self, script, k * per, per), range(self.procs)))
        for done, diffs, c in res:
            r.traces += done
            calls += c
            for d in diffs[:2]:
                r.violations.append({"kind": "behaviour", "pkg": self.pkg, "module": self.module, "depth": depth, "test": self.test,
                                     "calls": mt["setup"] + [mt["ops"][k - 1] for k in d["p"]], "diff": d["diff"],
                                     "summary": "%s, after %s: %s" % (self.module, [short(mt["ops"][k - 1], 150) for k in d["p"]], d["diff"])})
        r.states, r.transitions = st["states"], st["transitions"]
        last = steps[-1]
        r.samples.append({"model": self.module, "calls": [mt["ops"][k - 1] for k in last["p"]], "result": last["o"]})
        r.part = {"model": self.module, "depth": depth, "states": st["states"], "transitions": st["transitions"], "behaviours_replayed": r.traces,
                  "calls_replayed": calls, "tlc_s": round(st["wall"], 1)}
        return r


class Table:
    """A relation computed by TLC for every input within bounds, compared with the real function."""

    def __init__(self, pkg, module, test, quick, thorough):
        self.pkg, self.module, self.test, self.bounds, self.race, self.name = pkg, module, test, {"quick": quick, "thorough": thorough}, False, module

    def run(self, work, seed, tier):
        r = Result(self.name)
        env = self.bounds["quick" if tier == "quick" else "thorough"]
        lines, st = tlc_must(work, self.module, env=env, workers=8, limit=scale(tier, 500, 5000), heap="6g")
        rows = [json.loads(x).split(" ", 1)[1] for x in lines if x.startswith('"PATTERN ')]
        if len(rows) != st["states"]:
            raise CheckError("%s: %d rows for %d states" % (self.module, len(rows), st["states"]))
        script = work.path("table_%s.nd" % self.module)
        open(script, "w").write("\n".join(rows) + "\n")
        binary = work.build(self.pkg, False)
        for attempt in (1, 2):
            out, ended, err = work.run_driver(binary, self.test, dict(env, SCRIPT=script), limit=3000)
            if not ended:
                break
        tr, _ = parse(out)
        diffs = [e["diff"] for t in tr for e in t["ev"] if e["op"] == "differs"]
        if ended:
            if not tr or tr[-1]["pending"] is None or ended == "limit":
                raise CheckError("%s ended (%s):\n%s" % (self.name, ended, err[-3000:]))
            diffs.append({"pattern": tr[-1]["pending"]["calls"], "result": "the call did not return: %s %s" % (ended, err[:300])})
        calls = sum(json.loads(x[1:])["calls"] for x in out if x[0] == "C")
        r.states, r.transitions, r.traces = st["states"], st["transitions"], len(tr)
        for d in diffs[:3]:
            r.violations.append({"kind": "table", "module": self.module, "pkg": self.pkg, "summary": "%s: the specification says otherwise: %s" % (self.module, d), "diff": d})
        r.samples.append({"model": self.module, "row": rows[-1][:200]})
        r.part = {"model": self.module, "bounds": env, "states": st["states"], "inputs_compared": calls, "tlc_s": round(st["wall"], 1)}
        return r


def shared(setup, alts):
    """Histories with each distinct call written once."""
    evs, ix = [], {}

    def ref(e):
        key = json.dumps(e, sort_keys=True)
        if key not in ix:
            evs.append(e)
            ix[key] = len(evs)
        return ix[key]
    out = []
    for alt in alts:
        h = []
        for it in alt:
            it = dict(it)
            if "e" in it:
                it["e"] = ref(it["e"])
            if "qs" in it:
                it["qs"] = [ref(q) for q in it["qs"]]
            h.append(it)
        out.append(h)
    return {"setup": setup, "alts": out, "evs": evs}


class Conc:
    """Calls of several goroutines at once, under chosen schedules (how="plan") or
    freely with the race detector (how="free"); TLC looks for an order that explains
    each recorded history. With how="storm" there are more calls and no history:
    only a crash, a race or a deadlock is a violation."""

    def __init__(self, pkg, module, n, how, schedules=120, reps=6, test="TestConc", kinds=("perm", "req"), chunk=60, procs=4):
        self.pkg, self.module, self.n, self.how, self.test, self.kinds, self.chunk, self.procs = pkg, module, n, how, test, kinds, chunk, procs
        self.schedules, self.reps = schedules, reps
        self.race = "plan" if how == "plan" else True
        self.name = "%s/%s/%s" % (pkg, test, how)

    def record(self, work, seed, start, n):
        env = dict(MODE=self.how, SEED=seed, START=start, N=n, SCHEDULES=self.schedules, REPS=self.reps)
        if self.how != "plan":
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        elif os.path.exists(work.path("points/starts")):
            env["VSYNC_SLOW"] = 1
        lines, ended, err = work.run_driver(work.build(self.pkg, self.race), self.test, env, limit=800, mem_gb=6 if self.how == "plan" else 0)
        traces, vocab = parse(lines)
        bad = ""
        if ended:
            if ended == "limit" or not traces:
                raise CheckError("%s ended (%s):\n%s" % (self.name, ended, err[-3000:]))
            bad = fault(ended, err)
            if not bad:
                raise CheckError("%s ended (%s):\n%s" % (self.name, ended, err[-3000:]))
        return traces, vocab, bad, err

    def run(self, work, seed, tier):
        r = Result(self.name)
        hist = runs = calls = 0
        wall = rwall = 0
        if work.build(self.pkg, self.race) is None:
            r.assumptions.append("the sources could not be rewritten with scheduling points: %s not run" % self.name)
            r.part = {"driver": self.name, "skipped": True}
            return r
        import concurrent.futures as cf
        for start in range(0, self.n, self.chunk):
            k = min(self.chunk, self.n - start)
            per = (k + self.procs - 1) // self.procs
            t0 = time.time()
            with cf.ThreadPoolExecutor(self.procs) as ex:
                got = list(ex.map(lambda j: self.record(work, seed, start + j * per, max(0, min(per, k - j * per))), range(self.procs)))
            rwall += time.time() - t0
            traces, vocab = [], {}
            for t, v, bad, err in got:
                if bad:
                    w = t[-1]
                    r.violations.append({"kind": "schedule", "pkg": self.pkg, "test": self.test, "how": self.how, "seed": seed, "index": w["i"],
                                         "summary": "%s workload %d: %s" % (self.name, w["i"], bad), "output": err[:6000]})
                traces += t
                for kind, m in v.items():
                    vocab.setdefault(kind, {}).update(m)
            data = {"traces": []}
            use = []
            for t in traces:
                setup = [e for e in t["ev"] if e["op"] not in ("schedule", "runs")]
                alts = [e["alt"] for e in t["ev"] if e["op"] == "schedule" and "alt" in e]
                runs += sum(e["n"] for e in t["ev"] if e["op"] == "runs")
                if any("crash" in e for e in setup):
                    r.violations.append({"kind": "schedule", "pkg": self.pkg, "test": self.test, "how": self.how, "seed": seed, "index": t["i"],
                                         "summary": "%s workload %d: a call %s failed: %s" % (self.name, t["i"], "made beforehand" if self.how != "storm" else "among others", short(setup[-1]))})
                    continue
                if alts:
                    use.append((t, alts))
                    data["traces"].append(shared(setup, alts))
            if not use:
                continue
            for kind in self.kinds:
                data[kind + "s"] = dict(vocab.get(kind, {}), **{"\u0001none": [1]})
            f = work.path("hist%d.json" % next(work.count))
            json.dump(data, open(f, "w"))
            lines, st = tlc_must(work, self.module, env={"TRACE_FILE": f}, workers=8, limit=800)
            wall += st["wall"]
            acc = {tuple(int(x) for x in re.match(r'<<\s*"ACCEPT", (\d+), (\d+)', p).groups()) for p in printed(lines, "ACCEPT")}
            r.states += st["states"]
            r.transitions += st["transitions"]
            for a, (t, alts) in enumerate(use):
                hist += len(alts)
                calls += sum(len(x) for x in alts) // 2
                missing = [b for b in range(len(alts)) if (a + 1, b + 1) not in acc]
                if missing and len(r.violations) < 3:
                    b = missing[0]
                    ev = [e for e in t["ev"] if e["op"] == "schedule" and "alt" in e][b]
                    r.violations.append({"kind": "schedule", "pkg": self.pkg, "test": self.test, "how": self.how, "seed": seed, "index": t["i"],
                                         "plan": ev.get("plan"), "history": ev["alt"],
                                         "summary": "%s workload %d: no order of the calls explains this history: %s" % (
                                             self.name, t["i"], short([x.get("e", x) for x in ev["alt"]], 700))})
            if not r.samples and use:
                r.samples.append({"driver": self.name, "workload": use[0][0]["i"], "history": [short(x, 150) for x in use[0][1][-1][:8]]})
            if r.violations:
                break
        r.traces = hist
        r.part = {"driver": self.name, "spec": self.module, "workloads": self.n, "record_s": round(rwall, 1), "schedules_run": runs, "histories_validated": hist, "calls": calls,
                  "tlc_s": round(wall, 1)}
        return r


def replay_part(work, m, script, start, n):
    binary = work.build(m.pkg, False)
    env = dict(SCRIPT=script, START=start, N=n)
    lines, ended, err = work.run_driver(binary, m.test, env, limit=3000)
    tr, _ = parse(lines)
    calls = sum(json.loads(x[1:])["calls"] for x in lines if x[0] == "C")
    diffs = [e for t in tr for e in t["ev"] if e["op"] == "differs"]
    if ended:
        if not tr or tr[-1]["pending"] is None or ended == "limit":
            raise CheckError("replay of %s ended (%s):\n%s" % (m.module, ended, err[-3000:]))
        lines2, ended2, err2 = work.run_driver(binary, m.test, dict(env, START=tr[-1]["i"], N=1))
        if not ended2 or ended2 == "limit":
            raise CheckError("replay of %s ended (%s), but not again:\n%s" % (m.module, ended, err[-3000:]))
        diffs.append({"p": tr[-1]["pending"]["calls"], "diff": "the process ended: %s %s" % (ended2, err2[:400])})
    elif len(tr) < n and not any(x[0] == "C" for x in lines):
        raise CheckError("replay of %s stopped early" % m.module)
    return len(tr), diffs, calls


def scale(tier, quick, thorough):
    return quick if tier == "quick" else thorough


MODELS = {"Tenancy": (4, 7), "Scopes": (4, 9), "Dag": (4, 6), "Expiry": (4, 8), "Removal": (3, 6), "Current": (4, 6)}
RMODELS = {"Member": (4, 12), "Activity": (4, 11), "Manage": (5, 11), "Roles": (5, 12), "Registry": (4, 12)}

V1MODELS = {"Assign": (6, 12), "Member": (5, 12), "Activity": (5, 12), "Manage": (6, 12), "Roles": (5, 12), "Registry": (4, 10)}


def v1(profile, models, quick=1050, thorough=6000):
    def plan(tier):
        return [Drive("v1d", profile, "TraceV1", V1Q, scale(tier, quick, thorough))] + [Model("v1d", "MC_V1_" + m, *V1MODELS[m]) for m in models]
    return plan


def root(profile, models, quick=1050, thorough=6000):
    def plan(tier):
        return [Drive("rootd", profile, "TraceRoot", ROOTQ, scale(tier, quick, thorough))] + [Model("rootd", "MC_Root_" + m, *RMODELS[m]) for m in models]
    return plan


def both(*plans):
    return lambda tier: [x for p in plans for x in p(tier)]


def v2(profile, models, quick=1200, thorough=6000):
    def plan(tier):
        return [Drive("v2d", profile, "TraceV2", V2Q, scale(tier, quick, thorough))] + [Model("v2d", "MC_V2_" + m, *MODELS[m]) for m in models]
    return plan


PLAN = {
    "C01": v2("C01", ["Scopes", "Current"]),
    "C02": v2("C02", ["Tenancy"]),
    "C03": v2("C03", ["Scopes"]),
    "C04": v2("C04", ["Dag"]),
    "C05": v2("C05", ["Current", "Dag"]),
    "C06": v2("C06", ["Expiry"]),
    "C07": v2("C07", ["Removal"]),
    "C08": v2("C08", ["Scopes", "Tenancy"]),
    "C09": v2("C09", ["Tenancy"]),
    "C10": v2("C10", ["Tenancy"]),
    "C11": lambda tier: [Conc("v2d", "LinV2", scale(tier, 1080, 12000), "plan", schedules=scale(tier, 110, 400), chunk=540),
                         Conc("v2d", "LinV2", scale(tier, 400, 6000), "free", reps=scale(tier, 6, 20)),
                         Conc("v2d", "LinV2", scale(tier, 1500, 30000), "storm", reps=scale(tier, 5, 10), chunk=1500)],
    "C12": lambda tier: [Table("matchd", "MC_Match", "TestTable", {"PLEN": "4", "VLEN": "4"}, {"PLEN": "6", "VLEN": "5"}),
                         Drive("matchd", "C12", "TraceMatch", {"match"}, scale(tier, 1200, 6000), stall=25)],
    "C13": root("C13", ["Member"]),
    "C14": root("C14", ["Activity"]),
    "C15": root("C15", ["Manage", "Activity"]),
    "C16": both(root("C16", ["Manage", "Roles"], quick=750), v1("C16", ["Manage"], quick=750)),
    "C17": both(root("C17", ["Roles"]), v1("C17", ["Roles"], quick=750)),
    "C18": both(root("C18", ["Roles", "Registry"], quick=750), v1("C18", ["Roles"], quick=750)),
    "C19": lambda tier: [Drive("stored", "C19", "TraceTrie", TRIEQ, scale(tier, 1500, 6000)), Model("stored", "MC_Trie", 3, 4, test="TestReplayTrie")],
    "C20": both(root("C20", ["Registry"], quick=750), v1("C20", ["Registry"], quick=750)),
    "C21": root("C21", ["Member", "Activity"]),
    "C22": lambda tier: [Conc("rootd", "LinRoot", scale(tier, 720, 12000), "plan", schedules=scale(tier, 90, 400), chunk=360),
                         Conc("rootd", "LinRoot", scale(tier, 400, 6000), "free", reps=scale(tier, 6, 20), chunk=100),
                         Conc("rootd", "LinRoot", scale(tier, 1200, 30000), "storm", reps=scale(tier, 5, 10), chunk=1200),
                         Conc("stored", "LinTrie", scale(tier, 200, 10000), "storm", reps=scale(tier, 4, 10), chunk=200),
                         Conc("stored", "LinTrie", scale(tier, 200, 6000), "plan", schedules=scale(tier, 90, 400), chunk=200),
                         Conc("stored", "LinTrie", scale(tier, 400, 6000), "free", reps=scale(tier, 6, 20), chunk=200)],
    "C23": v1("C23", ["Assign"]),
    "C24": v1("C24", ["Member", "Manage"]),
    "C25": v1("C25", ["Activity"]),
    "C26": both(root("C26", ["Manage", "Roles"], quick=750), v1("C26", ["Manage"], quick=750), v2("C26", ["Tenancy"], quick=750)),
    "C27": lambda tier: [Drive("stored", "C27", "TraceLists", LISTQ, scale(tier, 1500, 6000)), Model("stored", "MC_Lists", 4, 5, test="TestReplayLists")],
    "C28": both(root("C28", ["Roles"], quick=750), v1("C28", ["Assign"], quick=750), v2("C28", ["Current"], quick=750),
                lambda tier: [Drive("stored", "C28", "TraceTrie", TRIEQ, scale(tier, 750, 6000))]),
    "C29": lambda tier: [Beside("v1d", "C29", "TraceV1", V1Q, scale(tier, 450, 6000)), Beside("rootd", "C29", "TraceRoot", ROOTQ, scale(tier, 450, 6000)),
                         Beside("v2d", "C29", "TraceV2", V2Q, scale(tier, 450, 6000))],
    "C30": lambda tier: [Drive("stored", "C30", "TraceLists", LISTQ, scale(tier, 1500, 6000)), Model("stored", "MC_Lists", 4, 5, test="TestReplayLists")],
}


def describe(i):
    """The technique and the reach of a check, for the manifest."""
    tech, note = [], []
    for x in PLAN[i]("quick"):
        if isinstance(x, Beside):
            t = "TLC validation of traces recorded from engines working side by side (race detector)"
            n = "%d sets of %s engines at once against %s.tla" % (x.n, x.pkg[:-1], x.module)
        elif isinstance(x, Drive):
            t = "TLC trace validation of recorded executions"
            n = "%d recorded %s executions against %s.tla" % (x.n, x.pkg[:-1], x.module)
        elif isinstance(x, Model):
            t = "TLC exploration of bounded models, every transition replayed into the code"
            n = "%s.tla exhaustively to depth %d (thorough %d)" % (x.module, x.quick, x.thorough)
        elif isinstance(x, Table):
            t = "TLC enumeration of a relation, every pair asked of the code"
            n = "%s.tla for all pairs within the bounds" % x.module
        else:
            t = "TLC linearizability checking of recorded concurrent histories (explored schedules and race detector)"
            n = "%d %s workloads (%s) against %s.tla" % (x.n, x.pkg[:-1], x.how, x.module)
        if t not in tech:
            tech.append(t)
        note.append(n)
    return "TLA+ specification; " + "; ".join(tech), "Quick tier: " + "; ".join(note) + ". Exhaustive only within the models' bounds; the recorded executions are directed samples."
