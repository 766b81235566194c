"""The design model (spec/Design.tla): explored by TLC in lockstep with the
contract, and its schedules replayed on the real code.

Each configuration is explored exhaustively within its bounds; its schedules
(the transition into every state at its last operation, and random longer
ones) are walked on the code, and what the code then does is judged by the
contract, like any other execution. Where the code does something else than
the design says, without breaking the contract, that is only counted.
"""
import concurrent.futures as cf
import json
import os
import random
import re

import vlib

GUARDED = ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15"]
BASE = {"U": 2, "MinDelay": 1, "MaxDelay": 1000000, "IdleMs": 5000, "WB": 2, "WL": 4, "Faults": [], "Ops": [],
        "MaxOps": 3, "MaxH": 8, "HSteps": [1], "Durs": [0, 3], "Instants": [2, 5], "Periods": [3], "Advances": [1],
        "Sleeps": [1, 2], "Intervals": [21], "Timeouts": [41], "Queues": [61], "Values": 2, "NWakers": 1,
        "TuFrom": False, "Endless": False, "Back": 0, "MaxCbs": 6, "Sample": 1, "Record": False}

S = "sn su sp sr sd".split()
I = "in ia ip ir ib iD".split()
T = "tn tp tc td ti".split()
Q = "qn qi qr qm qp qc qt".split()
CLK = "pa ad re".split()

# name: constants; of the schedule cover (quick: what every run explores, states
# at their last operation are not left), of the deeper exhaustive exploration
# (thorough), of the random one
M = {
    "sleeps": dict(Ops=S, quick=dict(MaxOps=3, MaxH=5), cover=dict(MaxOps=3), thorough=dict(MaxOps=4),
                   sim=dict(MaxOps=14, MaxH=60, HSteps=[1, 2, 7], Durs=[0, 1, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4], NWakers=2)),
    "shared": dict(Ops=S, NWakers=0, quick=dict(MaxOps=3, MaxH=5), cover=dict(MaxOps=4, MaxH=5, Durs=[3], Instants=[2]), thorough=dict(MaxOps=4, MaxH=6, Durs=[3]),
                   sim=dict(MaxOps=14, MaxH=60, HSteps=[1, 2, 7], Durs=[0, 1, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4])),
    "sleepsclock": dict(Ops=S + CLK, Advances=[1, 3], quick=dict(MaxOps=3, MaxH=3), cover=dict(MaxOps=4, MaxH=3), thorough=dict(MaxOps=4, MaxH=6),
                        sim=dict(MaxOps=16, MaxH=40, HSteps=[1, 2, 7], Advances=[1, 3, 8], Durs=[0, 1, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4], NWakers=2)),
    "react": dict(Ops="sn sr sp sd rx".split(), quick=dict(MaxOps=4, MaxH=5, Durs=[3], Instants=[2]), cover=dict(MaxOps=5, MaxH=6, Durs=[3]), thorough=dict(MaxOps=6, MaxH=6, Durs=[3]),
                  sim=dict(MaxOps=20, MaxH=60, HSteps=[1, 2, 7], Durs=[0, 2, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4], NWakers=2)),
    "reactclock": dict(Ops="sn sp sd rx pa ad".split(), TuFrom=True, Advances=[3], quick=dict(MaxOps=7, MaxH=0, Durs=[3]), cover=dict(MaxOps=9, MaxH=0, Durs=[3]), thorough=dict(MaxOps=9, MaxH=0),
                       sim=dict(Ops="sn sr sp sd rx pa re ad".split(), MaxOps=22, MaxH=40, TuFrom=False, HSteps=[1, 2, 7], Advances=[1, 3, 8], Durs=[0, 2, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4], NWakers=2)),
    "owner": dict(Ops="sn sp sd ow".split(), quick=dict(MaxOps=5, MaxH=5, Durs=[3]), cover=dict(MaxOps=6, MaxH=5), thorough=dict(MaxOps=7, MaxH=6, Durs=[3]),
                  sim=dict(Ops="sn sr sp sd ow rx".split(), MaxOps=20, MaxH=60, HSteps=[1, 2, 7], Durs=[0, 2, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4], NWakers=2)),
    "ownerclock": dict(Ops="sn sp sd ow pa ad".split(), TuFrom=True, Advances=[3], quick=dict(MaxOps=8, MaxH=0, Durs=[3]), cover=dict(MaxOps=10, MaxH=0, Durs=[3]), thorough=dict(MaxOps=11, MaxH=0),
                       sim=dict(Ops="sn sr sp sd ow rx pa re ad".split(), MaxOps=22, MaxH=40, TuFrom=False, HSteps=[1, 2, 7], Advances=[1, 3, 8], Durs=[0, 2, 4, 9], Instants=[0, 2, 5, 11, 24, 40], Sleeps=[1, 2, 3, 4], NWakers=2)),
    "intervals": dict(Ops=I, Instants=[5], quick=dict(MaxOps=4, MaxH=24, HSteps=[12]), cover=dict(MaxOps=3, MaxH=24, HSteps=[3, 12]), thorough=dict(MaxOps=5, MaxH=26, HSteps=[12, 13]),
                      sim=dict(MaxOps=16, MaxH=90, HSteps=[1, 2, 12, 17], Periods=[1, 3, 6, 13], Instants=[0, 5, 14, 30], Intervals=[21, 22])),
    "intervalsclock": dict(Ops=I + CLK, Advances=[3, 13], Instants=[5], quick=dict(MaxOps=5, MaxH=12, HSteps=[12]), cover=dict(MaxOps=5, MaxH=13, HSteps=[1, 12]), thorough=dict(MaxOps=6, MaxH=13, HSteps=[12, 1]),
                           sim=dict(MaxOps=18, MaxH=40, HSteps=[1, 2, 12], Advances=[1, 3, 13, 20], Periods=[1, 3, 6, 13], Instants=[0, 5, 14, 30], Intervals=[21, 22])),
    "timeouts": dict(Ops=T, quick=dict(MaxOps=4, MaxH=6), cover=dict(MaxOps=5), thorough=dict(MaxOps=6),
                     sim=dict(MaxOps=14, MaxH=40, HSteps=[1, 2, 7], Durs=[0, 1, 4, 9], Timeouts=[41, 42, 43], NWakers=2)),
    "timeoutsclock": dict(Ops=T + CLK, Advances=[3], quick=dict(MaxOps=4, MaxH=3), cover=dict(MaxOps=5, MaxH=3), thorough=dict(MaxOps=5, MaxH=5),
                          sim=dict(MaxOps=16, MaxH=30, HSteps=[1, 2, 7], Advances=[1, 4, 9], Durs=[0, 1, 4, 9], Timeouts=[41, 42, 43], NWakers=2)),
    "clock": dict(Ops=CLK + ["sn", "sp"], Sleeps=[1], Advances=[1, 3], HSteps=[1, 2], quick=dict(MaxOps=5, MaxH=4), cover=dict(MaxOps=6, MaxH=4), thorough=dict(MaxOps=7, MaxH=6),
                  sim=dict(MaxOps=16, MaxH=40, HSteps=[1, 2, 7])),
    "queue": dict(Ops=Q, U=2, Durs=[0], quick=dict(MaxOps=4, MaxH=4, Instants=[0, 3]), cover=dict(MaxOps=4, MaxH=5, Instants=[0, 3, 5]), thorough=dict(MaxOps=5, MaxH=5, Instants=[0, 3]),
                  sim=dict(MaxOps=22, MaxH=40, HSteps=[1, 5], Values=6, Instants=[0, 3, 4, 9, 20], NWakers=2)),
    "queueclock": dict(Ops=Q + CLK, TuFrom=True, MaxH=0, Instants=[0, 3, 4, 9], Advances=[3, 5], quick=dict(MaxOps=6), cover=dict(MaxOps=7, Instants=[0, 4, 9]), thorough=dict(MaxOps=8, Instants=[0, 4, 9]),
                       sim=dict(MaxOps=24, MaxH=12, TuFrom=False, HSteps=[1, 5], Values=6, Instants=[0, 3, 4, 9, 20], Advances=[1, 3, 5], NWakers=2)),
    "keys": dict(Ops="pa qn qi qm qM qt qk qs qp qc".split(), TuFrom=True, MaxH=0, U=1, Instants=[0, 2], Values=4,
                 quick=dict(MaxOps=9), cover=dict(MaxOps=10), thorough=dict(MaxOps=11, Values=5),
                 sim=dict(Ops="pa qn qi qm qt qk qs qp qc".split(), MaxOps=30, Values=9)),
    "wheel": dict(Ops="pa ad qn qi qr qm qp".split(), TuFrom=True, MaxH=0, U=1, WB=4, WL=3, Instants=[0, 3, 4, 15, 16, 21, 63, 64, 70], Advances=[1, 16, 60], Values=3,
                  quick=dict(MaxOps=6, Instants=[3, 4, 16, 63, 70]), cover=dict(MaxOps=7, Instants=[3, 4, 16, 21, 63, 64, 70], Advances=[1, 60]), thorough=dict(MaxOps=8, Instants=[3, 4, 16, 63, 70], Advances=[1, 60]),
                  sim=dict(MaxOps=30, Values=12, Instants=[0, 1, 3, 4, 5, 7, 15, 16, 20, 21, 48, 63, 64, 65, 80, 127], Advances=[1, 3, 4, 13, 16, 50, 64]),
                  cfg=dict(digits=[4, [0, 1, 62, 63]])),
    "idle": dict(Ops="sn sp sr sd".split(), Enforce=GUARDED + ["C04"], U=1, MaxDelay=3000, IdleMs=5000,
                 Instants=[8000], quick=dict(MaxOps=2, MaxH=20000, Durs=[9000], HSteps=[6000]),
                 cover=dict(MaxOps=3, MaxH=20000, Durs=[9000], HSteps=[6000]), thorough=dict(MaxOps=3, MaxH=40000, Durs=[9000, 30000], HSteps=[4000])),
}
PER = {
    "C01": ["sleeps", "sleepsclock", "react"], "C02": ["sleeps", "shared", "react"], "C03": ["sleeps", "sleepsclock", "shared", "react", "owner"], "C04": ["idle"],
    "C05": ["intervals", "intervalsclock"], "C06": ["intervals", "intervalsclock"], "C07": ["timeouts", "timeoutsclock"],
    "C08": ["clock"], "C09": ["sleepsclock", "queueclock", "timeoutsclock", "intervalsclock", "reactclock", "ownerclock"],
    "C10": ["queue", "wheel"], "C11": ["wheel", "queueclock"], "C12": ["queue", "queueclock"], "C13": ["keys"], "C18": ["sleeps", "intervals", "timeouts", "queue"],
}
# without bounds on operations and time (spec/Endless.tla), with a host and a
# library that look every 1 and 2 ms: constants; of what every run explores, and
# of what the thorough ones do
E = {
    "sleeps": dict(Ops=S, Instants=[0, 2], quick=dict(Sleeps=[1], NWakers=2), thorough=dict()),
    "shared": dict(Ops=S, Instants=[0, 2], NWakers=0, quick=dict(Ops="sn sp sd".split(), Instants=[], Durs=[3]), thorough=dict(Durs=[3])),
    "sleepsclock": dict(Ops=S + CLK, Instants=[0, 2], quick=dict(Sleeps=[1], Advances=[3]), thorough=dict(Advances=[1, 3])),
    "react": dict(Ops="sn sr sp sd rx".split(), Durs=[3], Instants=[2], thorough=dict()),
    "reactclock": dict(Ops="sn sp sd rx pa ad".split(), Durs=[3], Advances=[3], thorough=dict()),
    "owner": dict(Ops="sn sp sd ow".split(), Durs=[3], quick=dict(), thorough=dict(Durs=[0, 3])),
    "ownerclock": dict(Ops="sn sp sd ow pa ad".split(), Durs=[3], Advances=[3], thorough=dict()),
    "intervals": dict(Ops=I, Instants=[0, 3], HSteps=[1, 12], Back=16, quick=dict(), thorough=dict(Intervals=[21, 22], Ops="in ip ib iD".split())),
    "intervalsclock": dict(Ops=I + CLK, Instants=[0, 3], HSteps=[1, 12], Back=16, Advances=[3, 13], thorough=dict()),
    "timeouts": dict(Ops=T, quick=dict(), thorough=dict(Timeouts=[41, 42], Durs=[3])),
    "timeoutsclock": dict(Ops=T + CLK, Advances=[3], quick=dict(Durs=[3]), thorough=dict()),
    "clock": dict(Ops=CLK + ["sn", "sp"], Sleeps=[1], HSteps=[1, 2], Advances=[1, 3], quick=dict(), thorough=dict(Durs=[0, 2, 5])),
    "keys": dict(Ops="pa qn qi qm qM qt qk qs qp".split(), TuFrom=True, HSteps=[], U=1, WL=2, Instants=[0, 2], Back=1, quick=dict(), thorough=dict(Values=3)),
    "queue": dict(Ops="qn qi qr qm qp qt qd".split(), Durs=[0], U=1, WL=2, Instants=[0, 2], Back=3, thorough=dict(Values=1)),
    "queueclock": dict(Ops="qn qi qr qm qp qt qd pa ad".split(), TuFrom=True, HSteps=[], Durs=[0], U=1, WL=2, Instants=[0, 2], Back=4, Advances=[3],
                       quick=dict(), thorough=dict(WL=3, Back=8, Instants=[0, 2, 5], Advances=[1, 3])),
}
EPER = {
    "C01": ["sleeps", "sleepsclock", "react"], "C02": ["sleeps", "shared", "react"], "C03": ["sleeps", "owner"], "C04": ["sleeps"],
    "C05": ["intervals", "intervalsclock"], "C06": ["intervals", "intervalsclock"], "C07": ["timeouts", "timeoutsclock"], "C08": ["clock"],
    "C09": ["sleepsclock", "reactclock", "ownerclock", "queueclock"], "C10": ["queueclock"], "C11": ["queueclock"], "C12": ["queueclock", "queue"],
    "C13": ["keys"], "C18": ["sleeps", "timeouts", "intervals"],
}
# the value types (spec/Values.tla): every operation on a grid of values
VALUES = {"C14": "instants", "C15": "clock", "C16": "dates", "C17": "serde"}
VFAULTS = {"C14": ["carry", "borrow", "seconds"], "C15": ["hostelapsed"], "C16": ["roundup", "distance"],
           "C17": ["wrap", "missing", "duplicate", "unknown"]}
# what earlier designs did wrong, which the model has to tell from the present one
FAULTS = {
    "limit": ("sleeps", dict(Sleeps=[1, 2, 3, 4], Ops=["sn"], Durs=[400, 3], U=1, MaxOps=4, MaxH=420, HSteps=[1]), "C02"),
    "spin": ("idle", dict(MaxOps=1, MaxH=60000, Durs=[50000], HSteps=[2000]), "C04"),
    "relock": ("reactclock", dict(MaxOps=5), "C09"),
    "relockdrop": ("ownerclock", dict(MaxOps=6), "C09"),
    "lowestonly": ("sleeps", dict(MaxOps=2, MaxH=20), "C02"),
    "keepheap": ("sleeps", dict(MaxOps=4), "C03"),
    "keepheap ": ("sleeps", dict(MaxOps=3, Enforce=["C18"]), "C18"),
    "plusone": ("queueclock", dict(MaxOps=7), "C11"),
    "resetpast filed": ("queueclock", dict(MaxOps=5), "C12"),
    "removelast": ("queueclock", dict(MaxOps=5), "C12"),
    "filed": ("queue", dict(Ops="qn qi qm qp".split(), Instants=[4], MaxOps=7, MaxH=14, Values=3, HSteps=[4]), "C12"),
    "horizon": ("wheel", dict(MaxOps=6), "C10"),
    "nokeymap": ("keys", dict(MaxOps=7), "C13"),
}
# the same, without end
EFAULTS = {"keepheap": ("sleeps", "C03"), "relock": ("reactclock", "C09"), "relockdrop": ("ownerclock", "C09"), "plusone": ("queueclock", "C11"),
           "resetpast filed": ("queueclock", "C12"), "removelast": ("queueclock", "C12"), "horizon": ("queueclock", "C10")}


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, list):
        return "{" + ", ".join(json.dumps(x) for x in v) + "}"
    return str(v)


def config(name, over, label):
    c = dict(BASE, Enforce=GUARDED)
    c.update(dict(Endless=True, MaxOps=0, MaxH=0, IdleMs=2, MaxDelay=1) if over.get("Endless") else {})
    c.update({k: v for k, v in (E if c["Endless"] else M)[name].items() if k[0].isupper()})
    c.update(over)
    d = os.path.join(vlib.BUILD, "cfg")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, label + ".cfg")
    inv = "Refines" if c["Faults"] else "Refines TimerInv QueueInv" + (" Agree NoPile" if c["Endless"] else "")
    with open(p, "w") as f:
        f.write("SPECIFICATION Spec\nVIEW %s\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT %s\n%sINVARIANTS %s\nCONSTANTS\n" %
                (("EView", "Sampled", "CONSTRAINT NotBehind\n", inv) if c["Endless"] else ("View", "Told", "", inv)))
        for k, v in c.items():
            if c["Endless"] or k not in ("Back", "MaxCbs", "Sample"):
                f.write(" %s = %s\n" % (k, tla(v)))
    return p, c


def explore(name, over, label, workers, timeout, extra=()):
    p, c = config(name, over, label)
    rc, out = vlib.tlc("Endless.tla" if c["Endless"] else "Design.tla", p, label, workers=workers, timeout=timeout, heap="5g", extra=extra)
    return rc, out, c


def number(x):
    return ((x[0] * 10**9 + x[1]) * 10**9 + x[2]) * 10**9 + x[3]


def value_op(o):
    """An operation of Values.tla for the runner."""
    if o[0] == "yx":
        lit = {"str": "1", "neg": "-1", "float": "1.5", "null": "null"}
        e = [[n, k, lit.get(k) or str(number([0] + v))] for n, k, v in o[3]]
        return ["yx", o[1], {"form": o[2], "via": o[4], "e": e}]
    if o[0] == "date":
        return ["date", (-1 if o[1][0] else 1) * (number(o[1][1]) // 10**6)]
    return ["n%d" % number(x) if isinstance(x, list) else x for x in o]


def values(prop, tier, rnd):
    """Explores the model of the values of prop; returns what was explored, and scenarios."""
    kind, quick = VALUES[prop], tier == "quick"

    def tlc(label, module="Values.tla", spec="Spec", inv="Refines", faults=(), record=False, more=""):
        p = os.path.join(vlib.BUILD, "cfg", label + ".cfg")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("SPECIFICATION %s\n%sCHECK_DEADLOCK FALSE\nINVARIANT %s\nCONSTANTS\n" % (spec, "VIEW View\n" if spec == "Spec" else "", inv))
            for k, v in dict(Kind=json.dumps(kind), Faults=tla(list(faults)), Dense=tla(not quick), Record=tla(record),
                             Enforce=tla([prop])).items():
                f.write(" %s = %s\n" % (k, v))
            f.write(more)
        rc, out = vlib.tlc(module, p, label, workers=4, timeout=600 if quick else 4000, heap="5g")
        gen, dist = vlib.states_of(out)
        return out, {"states": dist, "transitions": gen}

    def whole(out, what):
        if "Model checking completed. No error has been found." not in out:
            raise vlib.ToolError("%s: %s" % (what, out[-3000:]))

    rep = []
    out, st = tlc(prop + "-laws", "Laws.tla", "LSpec", "Hold", more=" B <- Three\n TMax <- Top\n U64 <- Top3\n")
    whole(out, "the numbers of the contract")
    rep.append(dict(st, model="laws", kind="exhaustive, base 3"))
    out, st = tlc(prop + "-values", record=True)
    whole(out, "the model of the values")
    plans = [json.loads(x.replace('\\"', '"').replace("\\\\", "\\")) for x in SCHED.findall(out)]
    rep.append(dict(st, model=kind, kind="exhaustive on the grid", schedules=len(plans), walked=len(plans)))
    for f in [] if quick else VFAULTS[prop]:
        out, st = tlc(prop + "-f-" + f, faults=[f])
        if "Invariant Refines is violated" not in out:
            raise vlib.ToolError("the model does not tell the values with '%s' from right ones: %s" % (f, out[-1500:]))
        rep.append(dict(st, model=kind, kind="refutes the values with '%s'" % f))
    return rep, [{"id": "%s-x-%d" % (kind, i), "cfg": {"min": 1, "tu": any(o[0] == "pa" for o in q), "date": 0},
                  "ops": [value_op(o) for o in q]}
                 for i, q in enumerate(plans)]


SCHED = re.compile(r'^<<"SCHEDULE", "(.*)">>$', re.M)


def schedules(name, c, out, limit, rnd, tag):
    """The schedules TLC printed, as scenarios for the runner."""
    found = SCHED.findall(out)
    total = len(found)
    if total > limit:
        found = rnd.sample(found, limit)
    cfg = {"u": c["U"], "min": c["MinDelay"], "tu": any(o in c["Ops"] for o in CLK), "date": 1700000000000}
    cfg.update({"endless": True} if c["Endless"] else M[name].get("cfg", {}))
    if c["Enforce"] == ["C18"]:
        cfg["hold"] = True
    return total, [{"id": "%s-%s-%d" % (name, tag, i), "cfg": cfg,
                    "sched": json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))} for i, s in enumerate(found)]


def run(prop, tier, seed):
    """Explores the models of prop; returns (what was explored, schedules file or None)."""
    rnd = random.Random(seed)
    quick = tier == "quick"
    workers, limit = (4, 300) if quick else (8, 2400)

    def bounds(c):
        ks = ("Back", "Advances", "WB", "WL", "Sleeps") if c["Endless"] else ("MaxOps", "MaxH")
        return {k: c[k] for k in ("U", "Ops", "HSteps", "Durs", "Instants", "Values", "NWakers") + ks}

    def own(over):
        return dict(over, Enforce=[prop]) if prop == "C18" else over

    def full(name, kind, over, walked):
        over = own(over)
        rc, out, c = explore(name, over, "%s-%s-%s" % (prop, name, re.sub(r"\W+", "-", kind)), workers, limit)
        gen, dist = vlib.states_of(out)
        if rc == -1 and not walked and "violated" not in out:
            kind += ", out of time"
            g = re.findall(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct", out)
            gen, dist = [int(x.replace(",", "")) for x in g[-1]] if g else (0, 0)
        elif "Model checking completed. No error has been found." not in out:
            raise vlib.ToolError("design model %s: %s" % (name, out[-3000:]))
        total, sc = schedules(name, c, out, walked, rnd, "e" if c["Endless"] else "x")
        return {"model": name + " without end" * c["Endless"], "kind": kind, "states": dist, "transitions": gen, "schedules": total,
                "walked": len(sc), "bounds": bounds(c)}, sc

    def rand(name, n, walked):
        rc, out, c = explore(name, own(dict(M[name]["sim"], Record=True)), "%s-%s-sim" % (prop, name), workers, limit,
                             extra=["-simulate", "num=%d" % n, "-seed", str(seed), "-depth", "300"])
        if rc == -1 or "Error" in out or "is violated" in out:
            raise vlib.ToolError("design model %s (random): %s" % (name, out[-3000:]))
        total, sc = schedules(name, c, out, walked, rnd, "r")
        g = re.findall(r"The number of states generated: ([\d,]+)", out)
        return {"model": name, "kind": "random", "states": 0, "transitions": int(g[-1].replace(",", "")) if g else 0,
                "schedules": total, "walked": len(sc), "operations": c["MaxOps"]}, sc

    def refute(fault, endless=False):
        name, over = (EFAULTS[fault][0], dict(Endless=True)) if endless else FAULTS[fault][:2]
        rc, out, c = explore(name, dict(over, Faults=fault.split()), "%s-f-%s" % (prop, fault.split()[0]), workers, limit)
        if "Invariant Refines is violated" not in out:
            raise vlib.ToolError("the model does not tell the design with '%s' from a good one: %s" % (fault, out[-1500:]))
        gen, dist = vlib.states_of(out)
        return {"model": name + " without end" * endless, "kind": "refutes the design with '%s'" % fault, "states": dist, "transitions": gen}, []

    jobs = []
    for name in PER.get(prop, []):
        m = M[name]
        if quick:
            jobs.append((full, name, "exhaustive cover", dict(m["quick"], Record=True), 1200))
        else:
            jobs.append((full, name, "exhaustive cover", dict(m["cover"], Record=True), 12000))
            jobs.append((full, name, "exhaustive", m["thorough"], 0))
        if "sim" in m:
            jobs.append((rand, name, 12 if quick else 1500, 300 if quick else 12000))
    for name in EPER.get(prop, []):
        m = E[name]
        if quick and "quick" in m:
            jobs.append((full, name, "exhaustive, every history", dict(m["quick"], Endless=True, Record=True, Sample=25), 200))
        elif not quick:
            jobs.append((full, name, "exhaustive, every history", dict(m["thorough"], Endless=True), 0))
            if "quick" in m:
                jobs.append((full, name, "exhaustive, every history, smaller", dict(m["quick"], Endless=True, Record=True, Sample=2), 12000))
    if not quick:
        jobs += [(refute, f) for f in FAULTS if FAULTS[f][2] == prop]
        jobs += [(refute, f, True) for f in EFAULTS if EFAULTS[f][1] == prop]
    rep, scen = values(prop, tier, rnd) if prop in VALUES else ([], [])
    with cf.ThreadPoolExecutor(2 if quick else 1) as ex:
        for r, sc in ex.map(lambda j: j[0](*j[1:]), jobs):
            rep.append(r)
            scen += sc
    if not scen:
        return rep, None
    f = os.path.join(vlib.BUILD, "cfg", prop + "-sched.ndjson")
    rnd.shuffle(scen)
    with open(f, "w") as g:
        for s in scen:
            g.write(json.dumps(s) + "\n")
    return rep, f
