"""Configurations of the two-endpoint model (YamuxPair), and schedules drawn from it."""
import re

INVS = "Credit Windows Share Prefix EofLast Once NoRefusal Limits NoDeadlock"


def cfg(opens, wmax, wsz, rsz="9", cap=2, d=4, backlog=2, qfull=2, qmax=4, pendmax=2, maxs=8, maxc=-1, rac=True, stalled="",
        closes=False, drops=False, ends=False, pings=False, grow=False, live=False, split=1000, sim=0):
    t = lambda b: str(b).upper()
    consts = """CONSTANTS
  D = %d
  BACKLOG = %d
  QFULL = %d
  QMAX = %d
  PENDMAX = %d
  PINGIV = 10
  CAP = %d
  Opens <- OpensV
  WMAX <- WmaxV
  WSZ = {%s}
  RSZ = {%s}
  Closes = %s
  Drops = %s
  Ends = %s
  Pings = %s
  Grow = %s
  MaxS = %d
  MaxC <- MaxcV
  Rac = %s
  Stalled = {%s}
  Split = %d
%s%s
CHECK_DEADLOCK FALSE
""" % (d, backlog, qfull, qmax, pendmax, cap, wsz, rsz, t(closes), t(drops), t(ends), t(pings), t(grow), maxs, t(rac), stalled, split,
       "  DEPTH = %d\n" % sim if sim else "", "INIT SimInit\nNEXT SimNext\nINVARIANTS Emit " + INVS if sim else
       "SPECIFICATION FairSpec\nPROPERTY Progress" if live else "INIT Init\nNEXT Next\nINVARIANTS " + INVS)
    mod = """---- MODULE PX ----
EXTENDS %s
OpensV == <<%s>>
WmaxV == <<%s>>
MaxcV == %d
====
""" % ("YamuxPairSim" if sim else "YamuxPair", opens, wmax, maxc)
    return mod, consts


MODELS = {
    "data": cfg("1, 0", "9, 0", "3", closes=True, pings=True),
    "duplex": cfg("1, 0", "6, 6", "3", pings=True),
    "half": cfg("1, 0", "4, 4", "2", closes=True),
    "drop": cfg("1, 0", "4, 2", "2", closes=True, drops=True),
    "two": cfg("1, 1", "4, 4", "2", stalled="1", cap=1),
    "ends": cfg("1, 0", "2, 2", "2", ends=True, closes=True),
    "backlog": cfg("2, 0", "1, 0", "1", backlog=1, closes=True),
    "backlog2": cfg("2, 0", "1, 1", "1", backlog=1, drops=True),
    "grow": cfg("2, 0", "9, 0", "3, 4", grow=True, maxs=2, maxc=13),
    "pingpong": cfg("1, 0", "8, 8", "2", d=8, cap=1, qfull=2, pings=True),
    "old": cfg("1, 0", "8, 8", "2", d=8, cap=1, qfull=2, pings=True, pendmax=1),
    "grow2": cfg("2, 1", "6, 0", "3", grow=True, maxs=3, maxc=17),
    "drop2": cfg("1, 1", "2, 1", "2", closes=True, drops=True, cap=1),
    "ends2": cfg("1, 0", "4, 2", "2", ends=True, closes=True, drops=True, rac=False),
    "two2": cfg("2, 1", "4, 2", "2", stalled="1", cap=1),
    "live3": cfg("1, 0", "6, 6", "2", d=4, cap=1, live=True, pings=True),
    "live": cfg("1, 0", "5, 2", "2, 4", closes=True, cap=1, live=True),
    "live2": cfg("1, 0", "3, 3", "2", closes=True, drops=True, cap=1, live=True),
}

# which configurations are explored for which property: (quick, thorough)
USE = {
    "C01": (["half"], ["data", "duplex", "half", "drop"]),
    "C02": (["data"], ["data", "duplex", "two"]),
    "C03": (["duplex"], ["data", "duplex", "grow"]),
    "C04": (["grow"], ["grow", "grow2"]),
    "C05": ([], ["live", "live2"]),
    "C06": (["two", "old", "live"], ["two", "old", "pingpong", "live", "live2", "live3"]),
    "C07": (["half"], ["half", "drop", "live2"]),
    "C08": (["drop"], ["drop", "drop2"]),
    "C09": (["backlog2"], ["backlog2", "drop2"]),
    "C10": (["half"], ["half", "backlog2", "drop2"]),
    "C11": (["backlog"], ["backlog", "backlog2"]),
    "C13": ([], ["pingpong"]),
    "C14": (["ends"], ["ends", "ends2"]),
    "C15": (["ends"], ["ends", "ends2"]),
    "C19": ([], ["pingpong"]),
    "C20": (["two"], ["two", "two2"]),
}
# the design before its repair: the model must find the deadlock
MUST_FAIL = {"old": "NoDeadlock"}


def real(opens, wmax, wsz, rsz, cap, depth, **kw):
    """The model with the constants of the implementation, for simulation."""
    kw = dict(dict(maxs=16, maxc=1 << 30, pings=True), **kw)
    return cfg(opens, wmax, wsz, rsz, cap=cap, d=262144, backlog=256, qfull=10, qmax=16, pendmax=32, sim=depth, split=16384, **kw)


SIMS = {
    "life": real("2, 1", "40000, 40000", "1, 9000, 16384", "5, 20000", 3, 60, closes=True, drops=True),
    "duplex": real("1, 1", "300000, 300000", "9000, 16384", "3000, 70000, 200000", 4, 120, closes=True),
    "ends": real("1, 1", "40000, 20000", "100, 16384", "50, 20000", 3, 50, closes=True, ends=True),
    "endsn": real("2, 1", "40000, 20000", "100, 16384", "50, 20000", 3, 50, closes=True, drops=True, ends=True, rac=False),
    "full": real("2, 2", "200000, 200000", "16384", "16384, 70000", 1, 150),
    "stalled": real("2, 1", "100000, 100000", "5000, 16384", "7000, 50000", 2, 80, stalled="1, 2", drops=True),
    "tiny": real("3, 3", "60, 60", "1, 7, 20", "2, 33", 2, 90, closes=True, drops=True, maxs=6),
}
# walks drawn for a property in the quick tier
SIM_USE = {
    "C01": {"life": 60, "tiny": 60}, "C02": {"duplex": 40}, "C03": {"duplex": 40}, "C05": {"life": 60, "full": 20, "tiny": 60},
    "C06": {"life": 80, "duplex": 60, "full": 40, "ends": 60, "stalled": 40, "tiny": 80}, "C07": {"life": 80, "tiny": 60},
    "C08": {"life": 80, "tiny": 80}, "C09": {"tiny": 80}, "C10": {"tiny": 80, "life": 40}, "C12": {"tiny": 80},
    "C14": {"ends": 100, "endsn": 60}, "C15": {"ends": 80, "endsn": 100}, "C16": {"tiny": 60}, "C19": {"full": 30},
    "C20": {"stalled": 60, "full": 20},
}


def walks(out):
    """The action sequences TLC printed, without those that are the beginning of another."""
    w = sorted({tuple(re.findall(r'<<([^<>]+)>>', l)) for l in out.splitlines() if "@W" in l})
    return [x for k, x in enumerate(w) if k + 1 == len(w) or w[k + 1][:len(x)] != x]


def translate(name, x, rnd, rac):
    """One walk as a scenario for two real endpoints."""
    split = rnd.choice([16384, 16384, 1 << 40, 4000])
    out = ["# " + name] + ["cfg %d %d %d %d %d" % (i, rnd.choice([16, 64]), 1 << 30, rac, split) for i in (0, 1)]
    tight = rnd.random() < .3
    for e in "ab":
        out.append("%s cap %d" % (e, rnd.choice([30, 1000, 20000, 70000]) if tight else 1 << 20))
        out.append("%s bud 0" % e)
        if rnd.random() < .2:
            out.append("%s chunk %d %d" % (e, 1 + rnd.randrange(20000), 1 + rnd.randrange(20000)))
    cut = {}
    ended = ""

    def drive(e):
        out.append("%s poll" % e if rnd.random() < .4 else "%s run %d" % (e, rnd.randrange(1000)))
    for t in x:
        f = [y.strip().strip('\\"') for y in t.split(",")]
        e, op = "ab"[int(f[0]) - 1], f[1]
        if op in ("push", "dlv"):
            z = int(f[2])
            if z == -2:
                n = cut[e, op] = 12 + rnd.choice([0, 1, 100, 3000])
            elif z == -1:
                n = 12
            else:
                n = max(0, 12 + z - cut.pop((e, op), 0))
            out.append("%s %s %d" % (e, "bud" if op == "push" else op, n))
            drive(e)
        elif op == "ping":
            out.append("adv 10001")
            out.append("%s poll" % e)
        elif op == "poll":
            drive(e)
        else:
            c = " ".join([op] + f[2:])
            if op == "cc":
                ended += e
            if rnd.random() < .2 and op not in ("cc", "open"):
                out.append("%s race %d poll / %s" % (e, rnd.randrange(20), c))
            else:
                out.append("%s %s" % (e, c))
    how = "" if rnd.random() < .5 else rnd.choice(["ca", "cb", "cab", "cabx"])
    out += ["%s %s" % (e, s) for e in "ab" for s in ("bud inf",)]
    for e in "ab":
        for s in range(1, 7):
            if rnd.random() < .3:
                out.append("%s goal %d %d %d %d" % (e, s, rnd.randrange(100000), rnd.randrange(2), 1 + rnd.randrange(30000)))
    out.append("drain %d %s" % (rnd.randrange(1 << 40), how))
    return "\n".join(out)
