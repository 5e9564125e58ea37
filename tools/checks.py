"""The checks, one function per property."""
import json, os, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *


def record(driver, arg, name, timeout=600, env=None):
    """Run a recording driver; returns the path of the recorded calls."""
    path = os.path.join(work(), name + ".ndjson")
    scratch = os.path.join(work(), "scratch-" + name)
    os.makedirs(scratch, exist_ok=True)
    with open(path, "wb") as f:
        rc, _, err = run([driver, arg], timeout, cwd=scratch, stdout=f, check=False, env=dict({"SCRATCH": scratch, "VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "GOTRACEBACK": "all",
                                                                       "FIXTURES": os.path.join(ROOT, "fixtures")}, **(env or {})))
    shutil.rmtree(scratch, ignore_errors=True)
    if rc != 0:
        # a process that ends because of the code under test is a recorded fact as well
        err = err.decode(errors="replace")
        if not to_blame(err) and not stuck(err):
            raise CheckError("driver %s failed (%d):\n%s" % (arg, rc, err[:4000]))
        got = [l for l in open(path, errors="replace").read().split("\n") if l.endswith("}")]
        died = {"op": "died", "what": err[:1500]}
        if got and "events" in json.loads(got[0]):
            died = dict(json.loads(got[0]), op="died", events=[{"ev": "died", "what": err[:1500]}])
        elif arg in ("C22", "C23"):
            died = {"op": "died", "alg": "ethash", "events": [{"ev": "died", "what": err[:1500]}]}
        open(path, "w").write("\n".join(got + [json.dumps(died)]) + "\n")
    if os.path.getsize(path) == 0:
        raise CheckError("nothing recorded")
    return path


def lines(path):
    return [json.loads(l) for l in open(path)]


def also32(arg):
    """The same recording by a 32-bit build, which takes other code paths
    (the portable XOR, 32-bit int).  Nothing when there is no such build."""
    try:
        driver = build_driver("clients", tag="386", arch="386")
    except CheckError as e:
        print("no 32-bit build: " + str(e)[:300])
        return None
    return record(driver, arg, arg + "-386")


def merge(path, more):
    if more:
        with open(path, "ab") as f, open(more, "rb") as g:
            shutil.copyfileobj(g, f)


def calls_check(prop, driver, rule, assumptions=(), arg=None, module=None, env=None, level="exploration", extra=None):
    """Record calls of the real code and let TLC compare each with the
    specification."""
    ev = record(driver, arg or prop, prop, env=env)
    if TIER == "thorough" and prop in RULES:
        merge(ev, also32(prop))
    bad, r = trace_check(module or prop, ev)
    calls = lines(ev)
    distinct = len({json.dumps(c, sort_keys=True) for c in calls})
    kinds = {}
    for c in calls:
        k = c["op"] + "/" + str(c.get("res", {}).get("kind", "value") if isinstance(c.get("res"), dict) else "value")
        kinds[k] = kinds.get(k, 0) + 1
    extra = extra or {"states": 0, "transitions": 0}
    evidence(prop, level, {**extra,
        "evaluations" if level == "exploration" else "traces_validated_against_impl": len(calls) - (len(bad) if level != "exploration" else 0), "distinct_nontrivial": distinct, "rule": rule,
        "by_operation_and_result": kinds, "states": extra["states"] + r.distinct, "transitions": extra["transitions"] + r.generated,
        "samples": [short(c) for c in calls[:2]]}, len(bad), assumptions)
    for k, i in enumerate(bad[:3]):
        report(prop, str(k), {"property": prop, "what": "recorded call is not allowed by spec/check/%s.tla" % (module or prop),
                              "call": calls[i], "rejected_calls": len(bad), "seed": SEED, "tier": TIER})
    return len(bad)


DET = ["recorded calls are a sample of the inputs, drawn from boundary classes with the run's seed",
       "the Java twins of the word operations agree with their TLA+ definitions (tools/agree.py)"]


RULES = {
"C10": "every epoch covered by the committed tables, those following them, epochs drawn up to 22,000, and random parameter sets with and without tables (both sizes at the table's end), among them those whose first candidate is small, a square, a pseudoprime or a product of close primes; epochs of up to 40 and rows of up to 58 bits; distinct recorded calls are counted",
"C11": "heights at and around epoch boundaries of every shipped chain and of random scaled-down chains, and arbitrary 64-bit heights; distinct recorded calls are counted",
"C12": "managers with random small sizes, round and parent counts, in memory and stored (fresh and reloaded): the whole cache, the whole L1 and dataset items of each width at boundary and random indices; single items of random caches with up to 300 parents; distinct recorded calls are counted",
"C13": "random header hashes (including all-zero, all-one and single-bit ones), heights at and around epoch boundaries and boundary nonces on scaled-down chains with random parameters; distinct recorded calls are counted",
"C14": "random header hashes, heights at and around period and epoch boundaries and boundary nonces, on scaled-down chains; single steps (random math and merge with every selector, boundary operands; generators, register sequences, initial mix, rounds); distinct recorded calls are counted",
"C15": "random header hashes, nonces at every position of a warp and at its boundaries, on scaled-down chains; distinct recorded calls are counted",
"C16": "valid solutions found by an own solver and published ones, each changed in every kind of way (bits, order of subtrees, repeated indices, indices out of order, lengths), over supported parameter sets; distinct recorded calls are counted",
"C17": "valid solutions (published and found), each changed in every kind of way (bits, subtree order, duplicates, seed, extra nonce, lengths); distinct recorded calls are counted",
"C18": "every bipartite graph of up to 5 (thorough: 6) edges up to renaming of nodes, larger random ones made of one or several cycles and damaged ones, orders and ranges of the edge list, cycles found in real graphs, published proofs; distinct recorded calls are counted",
"C19": "candidate matrices given to the client in place of its generator's numbers (repeated, dependent and zero rows and columns, small pivots), hashes with few bits, the all-zero hash, random and boundary hashes, timestamps and nonces; distinct recorded calls are counted",
"C20": "heights around every growth step and at word boundaries, random admissible element counts and base sizes, sums with leading zero bytes; distinct recorded calls are counted",
"C21": "every input length from 0 to 420 (thorough: 1,200), longer ones at block boundaries, with random and constant content, and messages of one to four MiB that repeat a short unit; distinct recorded calls are counted",
}


def calls(prop):
    return calls_check(prop, build_driver("clients"), RULES[prop], DET)


def c18(prop):
    """The walk of the verifier as a state machine, over every graph of few
    edges; then the real verifiers on the same graphs and others."""
    sizes, states, transitions = {}, 0, 0
    for n in range(1, 7 if TIER == "quick" else 8):
        r = tlc(os.path.join(ROOT, "spec/model/CuckooWalk.tla"), os.path.join(ROOT, "spec/model/CuckooWalk%d.cfg" % n), timeout=2400, twins=False)
        if "Error:" in r.out or r.left:
            raise CheckError("the model of the walk violates its own properties:\n" + r.out[-3000:])
        sizes[n] = {"states": r.distinct, "transitions": r.generated}
        states += r.distinct
        transitions += r.generated
    return calls_check(prop, build_driver("clients"), RULES[prop], DET, level="model_checking",
                       extra={"model_of_the_walk_by_edges": sizes, "states": states, "transitions": transitions})


CHECKS = {p: calls for p in RULES}
CHECKS["C18"] = c18


# ------------------------------------------------------------- the manager

ALL = ("internal/dag", "ethash", "kawpow", "firopow", "octopus", "internal/progpow")
TRACE = os.path.join(ROOT, "spec", "check", "DagTrace")


def dagman(everything=False):
    return build_driver("dagman", pkgs=("yield",), hook=True, instrument=ALL if everything else ("internal/dag",), tag="all" if everything else "")


def stuck(err):
    """Nothing was recorded for minutes, and the code under test is running."""
    return err.startswith("no progress") and re.search(r"^github.com/sencha-dev/powkit/(?!internal/zzverif)", err, re.M)


def to_blame(report):
    """Is a Go crash report about the code under test?"""
    i = report.find("goroutine ")
    for l in report[i:].splitlines() if i >= 0 else ():
        if l.startswith("github.com/sencha-dev/powkit/"):
            return "zzverif" not in l
    return False


DEAD = {"cfg": [{"chain": 1, "n": 1, "disk": True, "kinds": ["c"]}], "files": [], "threads": 1, "litter": 0, "unseen": False, "note": {}}


def record_runs(driver, scenario, env=None, timeout=800):
    """Like record; a process that ends because of the code under test is a
    recorded fact as well."""
    path = os.path.join(work(), scenario + ".ndjson")
    scratch = os.path.join(work(), "scratch-" + scenario)
    os.makedirs(scratch, exist_ok=True)
    with open(path, "wb") as f:
        rc, _, err = run([driver, scenario], timeout, cwd=scratch, stdout=f, check=False, env=dict(
            {"SCRATCH": scratch, "VERIF_SEED": str(SEED), "VERIF_TIER": TIER, "GOTRACEBACK": "all"}, **(env or {})))
    shutil.rmtree(scratch, ignore_errors=True)
    err = err.decode(errors="replace") if isinstance(err, bytes) else err
    got = [l for l in open(path, errors="replace").read().split("\n") if l.endswith("}")]
    if rc != 0:
        if not to_blame(err) and not stuck(err):
            raise CheckError("driver %s failed (%d):\n%s" % (scenario, rc, err[:4000]))
        got.append(json.dumps(dict(DEAD, op=scenario, events=[{"ev": "died", "what": err[:1500]}])))
    if not got:
        raise CheckError("nothing recorded")
    open(path, "w").write("\n".join(got) + "\n")
    return path


def accepted(path, n, timeout, workers=8, where=False):
    r = tlc(TRACE.replace("DagTrace", "DagWhere") + ".tla" if where else TRACE + ".tla", (TRACE.replace("DagTrace", "DagWhere") if where else TRACE) + ".cfg",
            env={"TRACE_FILE": path}, timeout=timeout, twins=False, workers=workers, heap="2g" if workers == 1 else "8g")
    if "Error:" in r.out or r.left:
        raise CheckError("TLC error in DagTrace:\n" + r.out[r.out.find("Error:"):][:3000])
    ok = {int(x) - 1 for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.out)}
    far = max([int(x) for x in re.findall(r'<<"POS", (\d+)>>', r.out)] or [0])
    return ok, far, r


def validate(path):
    """Which of the recorded runs are behaviours of DagManager?  Returns the
    runs, the rejected ones with the first event that no behaviour explains,
    the number of undecided ones and TLC's counts."""
    runs = open(path).read().splitlines()
    counts = [0, 0]
    try:
        ok, _, r = accepted(path, len(runs), 240 if TIER == "quick" else 2400)
        counts = [r.distinct, r.generated]
        suspects = [i for i in range(len(runs)) if i not in ok]
    except CheckError as e:
        if not str(e).startswith("timeout"):
            raise
        suspects = list(range(len(runs)))  # one at a time, then
    rejected, undecided, end = [], 0, time.time() + (150 if TIER == "quick" else 1500)

    def one(i):
        p = os.path.join(work(), "one-%s-%d" % (os.path.basename(path), i))
        open(p, "w").write(runs[i] + "\n")
        left = end - time.time()
        if left < 5:
            return i, None, 0, None
        try:
            ok, far, r = accepted(p, 1, min(left, 60), workers=1, where=True)
            return i, bool(ok), far, r
        except CheckError as e:
            if str(e).startswith("timeout"):
                return i, None, 0, None
            raise
    if suspects:
        with ThreadPoolExecutor(8) as ex:
            for i, ok, far, r in ex.map(one, suspects[:400]):
                if ok is None:
                    undecided += 1
                elif not ok:
                    rejected.append((i, far))
                if r is not None:
                    counts[0] += r.distinct
                    counts[1] += r.generated
        undecided += max(0, len(suspects) - 400)
    return [json.loads(l) for l in runs], rejected, undecided, counts


def explain(run, far):
    ev = run["events"]
    return {"scenario": run["op"], "managers": run["cfg"], "files_at_the_start": run["files"], "note": run["note"],
            "explained": ev[max(0, far - 25):far], "no_behaviour_explains": ev[far] if far < len(ev) else None, "position": far}


def histories_jobs(specs, limit):
    """Walks along all edges of the state graphs of spec/model/Histories.tla."""
    import walks, random
    jobs, states, edges = [], 0, 0
    for keep, disk, l1, top in specs:
        g, init, r = walks.edges(keep, disk, l1, top)
        w, n = walks.walks(g, init, limit, random.Random(SEED))
        jobs += [{"n": keep, "disk": disk, "l1": l1, "h": h} for h in w]
        states += len(g)
        edges += n
    p = os.path.join(work(), "jobs.json")
    json.dump(jobs, open(p, "w"))
    return p, {"graphs": [{"keep": a, "disk": b, "l1": c, "epochs": d + 1} for a, b, c, d in specs], "states_at_rest": states, "edges": edges, "walks": len(jobs)}


MEMORY_WALKS = ([(1, False, False, 4), (2, False, True, 4), (3, False, False, 4)],
                [(1, False, True, 7), (2, False, False, 7), (3, False, True, 5), (4, False, False, 5)])
DISK_WALKS = ([(1, True, False, 3), (2, True, True, 3)],
              [(1, True, True, 4), (2, True, False, 4), (3, True, True, 4), (1, True, False, 5)])


def manager(prop, scenarios, walk=(), extra=None):
    """Model check the specification of the manager, record the scenarios and
    validate every recorded run against the specification."""
    import models
    configs, states, transitions, noticed = models.models(prop)
    env, cover = {}, {}
    if walk:
        pick = 0 if TIER == "quick" else 1
        env["JOBS"], cover["walks"] = histories_jobs([x for w in walk for x in w[pick]], 12)
    viol, samples, total, bad_lines = [], [], 0, 0
    per = {}
    for s in (["histories"] if walk else []) + list(scenarios):
        path = record_runs(dagman(s == "computes"), s, env)
        runs, rejected, undecided, counts = validate(path)
        states += counts[0]
        transitions += counts[1]
        total += len(runs) - len(rejected) - undecided
        per[s] = {"runs": len(runs), "events": sum(len(r["events"]) for r in runs), "accepted": len(runs) - len(rejected) - undecided,
                  "rejected": len(rejected), "undecided": undecided, "states": counts[0]}
        viol += [dict(explain(runs[i], far), run=runs[i]) for i, far in rejected]
        r = runs[len(runs) // 2]
        samples.append(short({"scenario": s, "managers": r["cfg"], "events": r["events"][:12]}))
    if extra:
        more, n, x = extra()
        cover.update(x)
        total += n
        viol += more
    cover.update({"states": states, "transitions": transitions, "traces_validated_against_impl": total, "scenarios": per,
                  "model_configurations": configs, "planted_model_errors_noticed": noticed, "samples": samples})
    evidence(prop, "model_checking", cover, len(viol), MANAGER)
    for k, v in enumerate(viol[:3]):
        report(prop, str(k), dict({"property": prop, "what": "recorded run is no behaviour of spec/DagManager.tla", "rejected": len(viol),
                                   "seed": SEED, "tier": TIER}, **v))
    return len(viol)


MANAGER = ["model checked up to the listed bounds; recorded runs use scaled-down chains (about 1-4 KiB per epoch)",
           "schedules are steered at points between the statements of internal/dag and at its system calls; what happens between two "
           "points (memory model effects) is only seen by the race detector",
           "storage is Linux: a rename is atomic, nothing is lost by the death of a process"]


def c01(prop):
    def truth():
        path = record(dagman(), "truth", "truth")
        bad, r = trace_check("C12", path)
        calls = lines(path)
        return [{"what": "data of an epoch is not what the parameters define", "call": calls[i]} for i in bad], 0, {
            "data_compared_with_definition": len(calls)}
    return manager(prop, ["restarts", "far"], [MEMORY_WALKS, DISK_WALKS], truth)


CHECKS.update({
    "C01": c01,
    "C02": lambda p: manager(p, ["concurrent", "pauses"], extra=lambda: races(p)),
    "C03": lambda p: manager(p, ["concurrent", "pauses", "far"], [MEMORY_WALKS, DISK_WALKS]),
    "C04": lambda p: manager(p, ["concurrent", "pauses"], [MEMORY_WALKS, DISK_WALKS]),
    "C05": lambda p: manager(p, ["kills", "shared"]),
    "C06": lambda p: manager(p, ["faults"]),
    "C07": lambda p: manager(p, ["damage"]),
    "C08": lambda p: manager(p, ["chains", "restarts", "far"]),
    "C09": lambda p: manager(p, ["holds", "lookups", "computes"]),
})


# ------------------------------------------------------------ use of clients

def races(prop):
    """Concurrent calls of every kind of client, built with the race detector."""
    driver = build_driver("clients", flags=["-race"], tag="race")
    log = os.path.join(work(), "race")
    path = record(driver, "C02", "C02", timeout=800, env={"GORACE": "log_path=%s halt_on_error=0 exitcode=0" % log})
    reports = []
    for f in sorted(os.listdir(work())):
        if f.startswith("race."):
            reports += [x for x in open(os.path.join(work(), f)).read().split("==================") if "DATA RACE" in x]
    with open(path, "a") as f:
        for x in reports[:20]:
            f.write(json.dumps({"op": "race", "what": x[:3000]}) + "\n")
    bad, r = trace_check("C02", path)
    calls = lines(path)
    return [{"what": "answer of a concurrent call, or a data race", "call": calls[i]} for i in bad], 0, {
        "concurrent_calls": len(calls) - len(reports), "race_reports": len(reports), "clients_used_concurrently": sorted({c["alg"] for c in calls if c["op"] == "conc"})}


def runs_check(prop, driver, level, rule, assumptions, twins=False, extra=None):
    """Validate recorded sequences of events with spec/check/<prop>.tla."""
    path = record(driver, prop, prop)
    if prop == "C23":
        merge(path, also32(prop))
    runs = lines(path)
    r = tlc(os.path.join(ROOT, "spec", "check", prop + ".tla"), os.path.join(ROOT, "spec", "check", "runs.cfg"), env={"TRACE_FILE": path}, twins=twins)
    if "Error:" in r.out or r.left:
        raise CheckError("TLC error in %s:\n%s" % (prop, r.out[r.out.find("Error:"):][:3000]))
    ok = {int(x) - 1 for x in re.findall(r'<<"ACCEPTED", (\d+)>>', r.out)}
    far = {}
    for a, b in re.findall(r'<<"POS", (\d+), (\d+)>>', r.out):
        far[int(a) - 1] = max(far.get(int(a) - 1, 0), int(b))
    bad = [i for i in range(len(runs)) if i not in ok]
    for f in load_known():
        if f["property"] == prop:
            hit = [i for i in bad if runs[i]["op"] == f["run"] and far.get(i, 0) < len(runs[i]["events"]) and runs[i]["events"][far.get(i, 0)]["res"] == f["res"]]
            bad = [i for i in bad if i not in hit]
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    events = sum(len(x["events"]) for x in runs)
    evidence(prop, level, {**(extra or {}), "evaluations": events, "distinct_nontrivial": len({json.dumps(e, sort_keys=True) for x in runs for e in x["events"]}), "rule": rule,
                           "sequences": len(runs), "states": r.distinct, "transitions": r.generated, "traces_validated_against_impl": len(ok),
                           "samples": [short({k: (v if k != "events" else v[:4]) for k, v in x.items()}) for x in runs[:2]]}, len(bad), assumptions)
    for k, i in enumerate(bad[:3]):
        ev = runs[i]["events"]
        report(prop, str(k), {"property": prop, "what": "recorded sequence is not allowed by spec/check/%s.tla" % prop, "rejected": len(bad), "seed": SEED, "tier": TIER,
                              "run": {k: v for k, v in runs[i].items() if k != "events"}, "position": far.get(i, 0), "not_allowed": ev[far.get(i, 0)] if far.get(i, 0) < len(ev) else None, "events": ev})
    return len(bad)


CHECKS["C22"] = lambda p: runs_check(p, build_driver("clients"), "exploration",
    "for every kind of client, sequences of calls with well-formed (valid and damaged proofs) and malformed arguments (lengths around the right one, empty, nil) "
    "on two clients, the caller overwriting arguments and results in between; distinct events are counted",
    ["arguments are drawn with the run's seed"])

def c23(prop):
    import agree
    groups, numbers = agree.agree()
    return runs_check(prop, build_driver("clients"), "exploration",
        "sequences of uses of the primitives, several hashers and generators in use at once and from several goroutines: every input length around block "
        "boundaries, every XOR length up to 80 (thorough: 300) at every alignment, overlapping destinations, boundary words; recorded by a 64-bit and by a "
        "32-bit build (portable XOR); distinct events are counted", DET, twins=True,
        extra={"java_twins_compared_with_definitions": {"groups": groups, "numbers": numbers}})


CHECKS["C23"] = c23


def generator(prop):
    """The lookup table generator, run with many parameters."""
    gen = os.path.join(work(), "gen-lookup")
    run(["go", "build", "-o", gen, "./cmd/gen-lookup"], 300, cwd=REPO, env=goenv())
    return calls_check(prop, build_driver("clients"), "every table of the shipped chains (committed, and regenerated with the recorded parameters), and tables with random "
                       "parameters for 0, 1, ... 12 epochs, multiples of 5 and neighbours, and up to 3,000 (thorough: 9,000) epochs; distinct recorded tables are counted",
                       DET, env={"GENERATOR": gen, "REPO": REPO})


CHECKS["C24"] = generator

RULES["C25"] = ("every named client: production-size computations at the first epochs and a few others (each chain alone and again from its files, without storage, with storage that fails, and all in one directory at the same time), sizes, "
                "epochs and seeds at table ends and random heights, published and damaged proofs shown to their own and to other chains' clients, in random order; distinct recorded calls are counted")
CHECKS["C25"] = calls
