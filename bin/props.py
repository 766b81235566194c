"""Which executions decide which property: weights of the schedule profiles."""

# mean number of events of an execution, to share out the budget
LEN = {"sleep": 126, "sleepshort": 100, "sleepfar": 160, "sleepmany": 680, "sleepkeep": 170, "sleepreset": 120,
       "sleepturns": 200, "react": 150, "sleepshared": 120, "idle": 200, "idlefar": 130, "interval": 105,
       "intervalshort": 90, "intervalfar": 115, "lag": 107, "timeout": 110, "timeoutfar": 145, "queue": 145,
       "queueshort": 125, "queuewheel": 285, "queuebig": 570, "queuekeys": 207, "queuefew": 82, "queuetask": 110,
       "tusleep": 104, "tusleepfar": 94, "tuinterval": 90, "tutimeout": 95, "tuqueue": 110, "tuqueuewheel": 120,
       "tumany": 315, "tuqueuerota": 215, "queuerota": 290, "tureact": 105, "owner": 150, "tuowner": 150, "hold": 195, "holdfar": 150, "tuhold": 190, "churn": 1300, "tuchurn": 1300, "clock": 48, "all": 216, "tuall": 180, "sleepcrowd": 2500, "queuecrowd": 650, "queuekeysbig": 355, "instant": 97, "now": 60, "system": 83, "serde": 95}

QUEUE = {"queue": 2, "queueshort": 2, "queuewheel": 3, "queuebig": 3, "queuekeys": 2, "queuefew": 2, "queuetask": 3,
         "tuqueue": 1, "tuqueuewheel": 2, "tuqueuerota": 3, "queuerota": 1, "queuecrowd": 2, "all": 1}
SLEEP = {"sleep": 2, "sleepshort": 2, "sleepfar": 2, "sleepmany": 3, "sleepkeep": 2, "sleepreset": 2, "sleepturns": 1,
         "sleepshared": 1, "react": 2, "owner": 1, "tureact": 1, "tuowner": 1, "tusleep": 1, "tumany": 1, "tusleepfar": 1, "all": 1}
PROFILES = {
    "C01": SLEEP,
    "C02": dict(SLEEP, idle=1, idlefar=1, sleepturns=3, sleepcrowd=3),
    "C03": {"sleepreset": 4, "sleepcrowd": 3, "sleep": 2, "sleepmany": 3, "react": 1, "tureact": 1, "owner": 1, "tuowner": 1, "sleepshared": 2, "tusleep": 2, "sleepshort": 2,
            "sleepturns": 1, "tumany": 1, "all": 1},
    "C04": {"idle": 3, "idlefar": 3, "sleepturns": 3, "sleepreset": 2, "sleepmany": 2, "intervalfar": 2, "queue": 1,
            "queuewheel": 1, "interval": 1, "timeoutfar": 1, "all": 1, "tuall": 1},
    "C05": {"interval": 4, "intervalshort": 3, "intervalfar": 2, "lag": 3, "tuinterval": 2, "all": 1},
    "C06": {"lag": 6, "intervalshort": 3, "interval": 3, "intervalfar": 1, "tuinterval": 2},
    "C07": {"timeout": 5, "timeoutfar": 3, "tutimeout": 3, "all": 1, "tuall": 1},
    "C08": {"clock": 5, "tusleep": 1, "tuall": 2, "tuinterval": 1, "tuqueue": 1},
    "C09": {"tusleep": 3, "tusleepfar": 2, "tumany": 3, "tuinterval": 3, "tutimeout": 2, "tuqueue": 2, "tuqueuewheel": 3,
            "tuqueuerota": 1, "tureact": 2, "tuowner": 2, "tuall": 2},
    "C10": QUEUE, "C11": QUEUE, "C12": dict(QUEUE, queuetask=5), "C13": dict(QUEUE, queuekeys=8, queuekeysbig=3),
    "C14": {"instant": 1}, "C15": {"now": 3, "clock": 2, "sleep": 1, "all": 1}, "C16": {"system": 1}, "C17": {"serde": 1},
    "C18": {"hold": 4, "holdfar": 2, "tuhold": 3, "churn": 3, "tuchurn": 3},
}
# events to judge
BUDGET = {"quick": 220000, "thorough": 2600000}
SMALL = {"C08": 0.6, "C14": 0.5, "C15": 0.6, "C16": 0.5, "C17": 0.5}


def counts(prop, tier, scale=1.0):
    w = PROFILES[prop]
    tot = sum(w.values())
    ev = BUDGET[tier] * SMALL.get(prop, 1.0) * scale
    return [f"{p}:{max(8, round(ev * k / tot / LEN[p]))}" for p, k in w.items()]
