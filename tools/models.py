"""Model checking of spec/model/MCManager.tla: which configurations belong to
which property, and the planted errors each of which must be noticed."""
import os, re
from vlib import *

INVARIANTS = "Recency RightData Bounded Shared NextPrepared AheadOnce NothingBeyond NeverPartial NoLeftovers UsedStaysMapped"
BASE = dict(Threads=1, MaxEpoch=1, Keep=1, Mgrs=1, UseDisk=True, L1=False, Requests=2, Faults=0, Crashes=0, Holds=0,
            LookAhead=True, InitFiles='{"none"}')
MEM = dict(UseDisk=False, Threads=2)
TWO = dict(Threads=2, Mgrs=2, MaxEpoch=0)
DAMAGED = '{"none", "junk", "good", "stuck"}'
# name -> (constants, check that every request ends?, seconds allowed in the thorough tier)
CONFIGS = {
    "memory": (dict(MEM, MaxEpoch=2, Requests=4), False, 0),
    "memory2": (dict(MEM, MaxEpoch=2, Keep=2, Requests=4), False, 0),
    "answers": (dict(MEM, MaxEpoch=1, Requests=3), True, 0),
    "disk": (dict(Requests=2), False, 0),
    "faults": (dict(Requests=1, Faults=1, InitFiles=DAMAGED), False, 0),
    "faultsL1": (dict(L1=True, MaxEpoch=0, Requests=1, Faults=1, InitFiles='{"none", "stuck"}'), False, 0),
    "damage": (dict(L1=True, MaxEpoch=0, Requests=1, InitFiles='{"none", "junk", "good", "stuck", "full"}'), False, 0),
    "crash": (dict(MaxEpoch=0, Crashes=1), False, 0),
    "share": (dict(TWO, LookAhead=False, Crashes=1), False, 0),
    "shareL1": (dict(TWO, LookAhead=False, L1=True), False, 0),
    "shareFault": (dict(TWO, LookAhead=False, Faults=1), False, 0),
    "maps": (dict(MaxEpoch=1, Holds=1), False, 0),
    # thorough
    "MEMORY": (dict(MEM, Threads=3, MaxEpoch=3, Keep=2, Requests=5), False, 900),
    "ANSWERS": (dict(MEM, MaxEpoch=3, Keep=2, Requests=5), True, 900),
    "DISK": (dict(MaxEpoch=2, Requests=2), False, 900),
    "DISKL1": (dict(MaxEpoch=1, Requests=2, L1=True), False, 900),
    "FAULTS": (dict(L1=True, MaxEpoch=0, Requests=1, Faults=2, InitFiles=DAMAGED), False, 1200),
    "DAMAGE": (dict(L1=True, MaxEpoch=1, Requests=1, InitFiles=DAMAGED), False, 1200),
    "CRASH": (dict(MaxEpoch=1, Crashes=2, Requests=3), False, 1200),
    "SHARE": (dict(TWO, Requests=2), False, 1200),
    "SHARECRASH": (dict(TWO, LookAhead=False, L1=True, Crashes=1, Faults=1), False, 1200),
    "MAPS": (dict(MaxEpoch=2, Requests=3, Holds=2), False, 1200),
}
OF = {"C01": ["memory", "disk"], "C02": ["answers", "share"], "C03": ["memory2"], "C04": ["memory"], "C05": ["crash", "share", "shareL1"],
      "C06": ["faults", "faultsL1", "shareFault"], "C07": ["damage"], "C08": ["disk"], "C09": ["maps"]}
DEEP = {"C01": ["DISK", "DISKL1"], "C02": ["ANSWERS", "SHARE"], "C03": ["MEMORY"], "C04": ["MEMORY"], "C05": ["CRASH", "SHARE", "SHARECRASH"],
        "C06": ["FAULTS"], "C07": ["DAMAGE"], "C08": ["DISK"], "C09": ["MAPS"]}
# planted errors of the model: constants, and what has to be noticed
MUTANTS = {
    "C01": [("no-wait", dict(Requests=1, MaxEpoch=0), "RightData")],
    "C02": [("no-wait", dict(MEM, Requests=2, MaxEpoch=0), "RightData")],
    "C03": [("fifo", dict(UseDisk=False, Keep=2, MaxEpoch=2, Requests=4), "Recency")],
    "C04": [("no-reuse", dict(UseDisk=False, Requests=2), "Reused")],
    "C05": [("shared-temp", dict(TWO), "NeverPartial"), ("early-publish", dict(Requests=1, MaxEpoch=0), "NeverPartial")],
    "C06": [("leave-temp", dict(Requests=1, MaxEpoch=0, Faults=1), "NoLeftovers")],
    "C07": [("early-publish", dict(Requests=1, MaxEpoch=0), "NeverPartial")],
    "C08": [("early-expiry", dict(), "OnlyExpiredGo")],
    "C09": [("early-collect", dict(Requests=1, MaxEpoch=0), "UsedStaysMapped")],
}


def check(name, consts, live=False, timeout=300, mutation="none"):
    d = dict(BASE, **consts)
    cfg = os.path.join(work(), "mc.cfg")
    val = lambda v: str(v).upper() if isinstance(v, bool) else v
    with open(cfg, "w") as f:
        f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nPROPERTIES OnlyExpiredGo Reused%s%s\nCONSTANTS\n Mutation = "%s"\n'
                % (INVARIANTS, " Served" if live else "", " Retains" if d["Mgrs"] == 1 and not d["Crashes"] else "", mutation))
        f.write("".join(" %s = %s\n" % (k, val(v)) for k, v in sorted(d.items())))
    return tlc(os.path.join(ROOT, "spec/model/MCManager.tla"), cfg, timeout=timeout, twins=False, heap="16g" if timeout > 300 else "6g")


def errors(r):
    return re.findall(r"Error: (?!The behavior|The following)(.*)", r.out)


# the invariant of Retention is inductive, and what follows for each request:
# initial states, what has to hold, steps, expected outcome
INDUCTIVE = [("OInit", "OInv", 0, "NoError"), ("OAny", "OInv", 1, "NoError"), ("OAny", "Steps", 1, "NoError"), ("OAny", "NeverFull", 0, "Error")]


def inductive():
    from concurrent.futures import ThreadPoolExecutor

    def one(job):
        init, inv, n, want = job
        out = os.path.join(work(), "apalache-%s-%s-%d" % (init, inv, n))
        rc, text = run(["apalache-mc", "check", "--out-dir=" + out, "--cinit=CInit", "--next=ONext", "--init=" + init, "--inv=" + inv, "--length=%d" % n,
                        "RetentionProof.tla"], 400, cwd=os.path.join(ROOT, "spec/model"), env={"JVM_ARGS": "-Xmx3g"}, check=False)[:2]
        if "The outcome is: " + want not in text:
            raise CheckError("Apalache, %s from %s:\n%s" % (inv, init, text[-3000:]))
        return "%s from %s in %d steps: %s" % (inv, init, n, "holds" if want == "NoError" else "fails, as it should")
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, INDUCTIVE))


def models(prop):
    """Check the property's configurations; the specification itself has to
    be right, so an error here is an error of the check."""
    out, states, transitions = {}, 0, 0
    for n in OF[prop] + (DEEP[prop] if TIER == "thorough" else []):
        consts, live, limit = CONFIGS[n]
        try:
            r = check(n, consts, live, limit or 300)
        except CheckError as e:
            if not limit or not str(e).startswith("timeout"):
                raise
            out[n] = "not finished within %d s" % limit
            continue
        if errors(r) or r.left:
            raise CheckError("the specification violates its own properties (%s):\n%s" % (n, r.out[-3000:]))
        out[n] = {"states": r.distinct, "transitions": r.generated, "every request ends": live}
        states += r.distinct
        transitions += r.generated
    if prop in ("C03", "C04"):
        out["Retention, for any epochs and histories of any length (Apalache)"] = inductive()
    noticed = []
    for m, consts, want in MUTANTS[prop]:
        r = check(m, consts, False, 300, m)
        if not any(want in e for e in errors(r)):
            raise CheckError("planted error %s of the model is not noticed by %s:\n%s" % (m, want, r.out[-2000:]))
        noticed.append("%s (%s)" % (m, want))
    return out, states, transitions, noticed
