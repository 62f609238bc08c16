"""Schedules derived from the specification: run TLC on YamuxGen for a family, turn the action
sequences it prints into scenarios for the harness."""
import os, random, re

UNIT = 65536
SPEC_D = 4            # D of YamuxGen in units
TICK = 1000           # one tick of the model's clock, in ms (PINGIV = 10 ticks = 10 s)

# A family: the alphabet and bounds of one exhaustive exploration.
#   out/inn: streams opened locally / by the peer; depth: (quick, thorough); pre: prefixes
def fam(pre, conn, stream, depth, out=1, inn=0, srv=False, maxs=8, maxc=64, rac=True, backlog=256, full=True):
    return dict(pre=pre, conn=conn.split(), stream=stream.split(), depth=depth, out=out, inn=inn, srv=srv,
                maxs=maxs, maxc=maxc, rac=rac, backlog=backlog, full=full)


IO = ["open.0"], ["s1.0"]
FAMILIES = {
    # one stream's whole life, from either side
    "life-out": fam([["open.0"]], "blk unb", "wr1 rd9 cl dr d1 fi df rs wa wf", (5, 6)),
    "life-in": fam([["s1.0"]], "blk unb", "wr1 rd9 rp cl dr d1 fi rs w1 rw", (5, 6), out=0, inn=1, srv=True),
    "life-pre": fam([["open.0", "wr1.1", "cl.1"], ["open.0", "fi.1"], ["open.0", "wr1.1", "d2.1"]],
                    "blk unb", "wr1 rd1 rd9 cl dr d1 fi rs rw da", (4, 5)),
    # parked operations: wakers replaced, calls given up, endings
    "wake": fam([["open.0"], ["s0.0"]], "blk unb", "wr8 rd9 rp mr mw nr nw w4 d1 fi rs rw wf cl", (5, 6), inn=1),
    # credit for writing
    "credit": fam([["open.0"]], "blk unb", "wr1 wr8 w1 w4 wx cl dr", (6, 7)),
    "credit-in": fam([["s0.0"], ["wo.0"], ["w9.0"]], "blk unb", "wr1 wr8 w1 wx wf cl dr", (4, 5), out=0, inn=1),
    # receive windows and the connection's limit on them
    "flow": fam([["poll.0", "t1.0", "po.0", "s4.0", "s4.0"]], "t1 t3", "rd9 rd1 d4 d2 dr", (5, 6), out=0, inn=2,
                srv=True, maxs=2, maxc=13),
    "flow-tight": fam([["poll.0", "t1.0", "po.0", "s4.0", "rd9.1", "s4.0"]], "s4 t1", "rd9 d4 dr", (6, 7), out=0, inn=3,
                      srv=True, maxs=2, maxc=12),
    "flow-nortt": fam([["open.0"]], "poll po t1 t3", "rd9 rd1 d4 d2 d1 cl fi", (5, 6), maxs=1, maxc=-1),
    # every way a connection can end, with tasks waiting
    "end": fam([["open.0", "wr8.2", "wr1.2", "rd9.2"], ["open.0", "blk.0", "wr1.2", "cl.2"], ["s1.0", "rd9.1", "rd9.1"],
                ["open.0", "wr1.2", "dr.2"], ["s1.0", "open.0"]],
               "cc dc eof em rerr werr ferr go blk unb poll open ping", "wr1 rd9 cl dr d1", (3, 4), out=2, inn=1, srv=True),
    "end-norac": fam([["open.0", "d1.1"], ["open.0", "d1.1", "rd9.1"]], "cc dc eof rerr go unb", "wr1 rd9 rp cl dr", (3, 4), rac=False),
    # the transport breaks while frames are on their way
    "break": fam([["open.0", "wr1.1"], ["s1.0", "open.0"]], "werr ferr eof em rerr poll blk unb ping t9", "wr1 cl dr rd9", (4, 5), inn=1),
    # limits
    "limit": fam([[]], "open s0 s1 blk unb poll", "dr cl fi rs rd9", (5, 6), out=2, inn=3, srv=True, maxs=2),
    "limit1": fam([[]], "open s1 sf blk unb poll", "dr cl fi rs wr1", (5, 6), out=2, inn=2, maxs=1),
    "backlog": fam([[]], "open blk unb", "wa w1 da rs fa cl dr fi", (5, 6), out=4, backlog=2, maxc=-1),
    # ids and frames that do not fit
    "ids": fam([["open.0", "s0.0"], ["s1.0", "dr.2"], ["s1.0", "cl.2", "fi.2"]], "ud uw un s0", "sd sw d1 w1 rs dr cl ps fi", (3, 4), out=1, inn=2),
    # pings
    "ping": fam([[]], "poll po bp ping un t1 t9 blk unb open", "wr1 ps", (5, 6)),
    # stalled writing: what arrives is still read, replies and queued frames stay bounded
    "stall": fam([["open.0", "wr1.1", "blk.0", "wr1.1"]], "unb ping open poll", "wr1 w1 d1 rd9 fi dr", (4, 5), out=2),
    # streams that are stalled, and others
    "others": fam([["open.0", "d4.1"], ["s4.0"], ["open.0", "wr8.1", "wr8.1"], ["open.0", "d4.1", "rs.1"], ["open.0", "d2.1", "fi.1"],
                   ["s1.0", "dr.2"]], "open s1 ping blk unb", "wr1 d1 rd9 cl w1", (3, 4), out=2, inn=2),
    "two": fam([["open.0", "open.0"], ["s1.0", "open.0"]], "blk unb", "wr1 rd9 cl dr d1 fi", (4, 5), out=2, inn=1, srv=True),
}

# which families judge which property (quick: at most this many scenarios of each)
USE = {
    "C01": [("life-out", 1500), ("life-in", 1500), ("life-pre", 1500), ("two", 1500)],
    "C02": [("credit", 3500), ("credit-in", 2000), ("life-in", 500)],
    "C03": [("flow", 2500), ("flow-nortt", 2500), ("life-in", 500)],
    "C04": [("flow", 3000), ("flow-tight", 3000)],
    "C05": [("wake", 5000), ("life-pre", 1500), ("end", 1500), ("backlog", 200), ("two", 800)],
    "C06": [("stall", 1000)],
    "C07": [("life-out", 2500), ("life-in", 1500), ("life-pre", 1500)],
    "C08": [("life-out", 2000), ("life-in", 1500), ("life-pre", 1500), ("ids", 1000)],
    "C09": [("ids", 4000), ("two", 1000)],
    "C10": [("life-out", 1500), ("life-in", 2500), ("life-pre", 1000)],
    "C11": [("backlog", 350)],
    "C12": [("limit", 3500), ("limit1", 2500)],
    "C13": [("ping", 4500)],
    "C14": [("end", 5000)],
    "C15": [("end", 4000), ("end-norac", 1000)],
    "C16": [("break", 2500), ("end", 1000), ("life-pre", 1500), ("two", 1000)],
    "C17": [("break", 1500), ("end", 1000), ("ids", 1500)],
    "C18": [("ids", 3500), ("life-pre", 1000)],
    "C19": [("stall", 3000), ("ping", 1500)],
    "C20": [("others", 3000), ("stall", 2000), ("two", 2000), ("credit", 500)],
}


def tla_set(v):
    return "{" + ", ".join('"%s"' % x for x in v) + "}"


def module(name, pre):
    seqs = ["<<%s>>" % ", ".join('<<"%s", %s>>' % tuple(a.split(".")) for a in p) for p in pre]
    return "---- MODULE %s ----\nEXTENDS YamuxGen\nPre == {%s}\n====\n" % (name, ", ".join(seqs))


def config(f, depth):
    return """CONSTANTS
  D = 4
  BACKLOG = %d
  QFULL = 10
  QMAX = 16
  PENDMAX = 32
  PINGIV = 10
  Server = %s
  MaxS = %d
  MaxC %s
  Rac = %s
  MaxOut = %d
  MaxIn = %d
  Depth = %d
  Prefixes <- Pre
  ConnActs = %s
  StreamActs = %s
  Full = %s
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
""" % (f["backlog"], str(f["srv"]).upper(), f["maxs"],
       "= %d" % f["maxc"] if f["maxc"] >= 0 else "<- NoLimit", str(f["rac"]).upper(), f["out"], f["inn"], depth,
       tla_set(f["conn"]), tla_set(f["stream"]), str(f["full"]).upper())


def parse(out):
    """action sequences, without those that are the beginning of another"""
    seqs = [tuple(m.group(1).split()) for m in re.finditer(r'^"?@SCN (.*?) ?"?$', out, re.M)]
    inner = set()
    for s in seqs:
        for k in range(1, len(s)):
            inner.add(s[:k])
    return sorted(s for s in set(seqs) if s not in inner)


INJ = {  # name: type, flags, units
    "d0": (0, 0, 0), "d1": (0, 0, 1), "d2": (0, 0, 2), "d4": (0, 0, 4), "da": (0, 2, 1), "df": (0, 4, 1),
    "fi": (0, 4, 0), "fa": (0, 6, 0), "rs": (0, 8, 0), "sd": (0, 1, 0),
    "w1": (1, 0, 1), "w4": (1, 0, 4), "wa": (1, 2, 0), "wf": (1, 4, 1), "rw": (1, 8, 0), "sw": (1, 1, 0),
}
SYNS = {"s0": (1, 1, 0), "s1": (0, 1, 1), "s4": (0, 1, 4), "s5": (0, 1, 5), "sf": (0, 5, 1), "w9": (1, 5, 2), "wo": (1, 1, None)}


CALL = re.compile(r"a (wr|rd|rp|cl|open|dr|cc)\b")


def interleaved(steps, rnd):
    """Some of the calls overlap with what the driver does before or after them."""
    out = []
    i = 0

    def k():
        return rnd.randrange(10) if rnd.random() < .7 else rnd.randrange(30)

    def settles(t):
        return t == "a poll" or t.startswith("a quiesce") or t.startswith("a run")
    while i < len(steps):
        t = steps[i]
        m = CALL.match(t)
        if not m or rnd.random() < .3:
            out.append(t.replace("quiesce", "rquiesce") if t.startswith("a quiesce") and rnd.random() < .7 else t)
            i += 1
            continue
        # what comes next may already have arrived, and the driver may not yet have handled what came before
        nxt = []
        j = i + 1
        while j < len(steps) and not settles(steps[j]) and not CALL.match(steps[j]) and rnd.random() < .7:
            nxt.append(steps[j])
            j += 1
        while out and settles(out[-1].replace("rquiesce", "quiesce")):
            out.pop()
        out += nxt
        call, op = t[2:], m.group(1)
        other = [s[2:] for s in steps if re.match(r"a (rd|wr|rp|cl|dr) ", s)] or ["run 1"]
        if op in ("rd", "rp") and rnd.random() < .3:
            o2 = [x for x in other if x.split()[0] in ("rd", "rp") and x.split()[1] != call.split()[1]]
            if o2:
                out.append("a race1 %d %s / %s" % (rnd.randrange(14), call, rnd.choice(o2)))
                i = j
                continue
        more = rnd.choice(["", "", " / run %d" % rnd.randrange(100), " / open"])
        if op in ("cc", "open"):
            out.append("a race %d %s / %s%s" % (k(), call, rnd.choice(other), more.replace(" / open", "")))
        elif op == "dr" or rnd.random() < .5:
            out.append("a race %d poll / %s%s" % (k(), call, more.replace(" / open", "")))
        else:
            out.append("a race %d %s / poll%s" % (k(), call, more))
        out.append("a rquiesce %d" % rnd.randrange(1 << 30))
        i = j
    return out


def translate(ident, f, seq, rnd):
    """One scenario. The model's macro step 'everything that can happen happens' is `quiesce`; in part of
    the scenarios other schedules and transports are used instead: the trace is judged all the same."""
    mode = rnd.random()
    exact = mode < .4
    races = mode > .7
    out = ["# " + ident,
           "cfg %d %d %s %d %d" % (f["srv"], f["maxs"] + (256 - f["backlog"]), "-" if f["maxc"] < 0 else f["maxc"] * UNIT,
                                   f["rac"], 1 << 40 if exact or rnd.random() < .6 else rnd.choice([16384, 65536, 100000]))]
    if not exact:
        if rnd.random() < .3:
            out.append("a chunk %s %s" % (rnd.choice(["inf", "1000", "7777", "11"]), rnd.choice(["inf", "5000", "40000"])))
        if rnd.random() < .3:
            out.append("a stut %d %d" % (rnd.random() < .5, rnd.random() < .5))

    def q():
        if exact:
            out.append("a quiesce 1")
            return
        r = rnd.random()
        if r < .55:
            out.append("a quiesce %d" % rnd.randrange(1 << 30))
        elif r < .75:
            out.append("a poll")
        elif r < .9:
            for _ in range(rnd.randrange(1, 4)):
                out.append("a run %d" % rnd.randrange(100))
    shift = 0
    if f["backlog"] < 256:
        shift = 2 * (256 - f["backlog"])
        for i in range(256 - f["backlog"]):
            out.append("a open")
        out.append("a quiesce 1")
    base = 2 if f["srv"] else 1
    nin = 0
    ids = []
    nout = base + shift
    for t in seq:
        a, s = t.split(".")
        s = int(s)
        if shift and s and s % 2 == base % 2:
            s += shift
        if a == "open":
            out.append("a open")
            ids.append(nout)
            nout += 2
        elif a in SYNS:
            y, fl, n = SYNS[a]
            sid = (1 if f["srv"] else 2) + 2 * nin
            nin += 1
            ids.append(sid)
            out.append("a inj %d %d %d %d" % (y, fl, sid, 4294967295 if n is None else n * UNIT))
            q()
        elif a in INJ:
            y, fl, n = INJ[a]
            out.append("a inj %d %d %d %d" % (y, fl, s, n * UNIT))
            q()
        elif a == "wx":
            out.append("a inj 1 0 %d 4294967295" % s)
            q()
        elif a[:2] == "wr" and a[2:].isdigit():
            out.append("a wr %d %d" % (s, int(a[2:]) * UNIT))
        elif a in ("rd1", "rd9"):
            out.append("a rd %d %d" % (s, int(a[2:]) * UNIT))
        elif a in ("rp", "cl", "dr"):
            out.append("a %s %d" % (a, s))
        elif a in ("mr", "mw", "nr", "nw"):
            out.append("a %s %s %d" % ({"m": "mig", "n": "can"}[a[0]], a[1], s))
        elif a == "ps":
            out.append("a inj 2 1 %d 7" % s)
            q()
        elif a == "poll":
            q()
        elif a == "blk":
            out.append("a bud 0")
        elif a == "unb":
            out.append("a bud inf")
            q()
        elif a == "po":
            out.append("a pong 0")
            q()
        elif a == "bp":
            out.append("a inj 2 2 0 55")
            q()
        elif a == "ping":
            out.append("a inj 2 1 0 9")
            q()
        elif a == "un":
            out.append("a inj 2 1 99 9")
            q()
        elif a == "ud":
            out.append("a inj 0 4 99 %d" % UNIT)
            q()
        elif a == "uw":
            out.append("a inj 1 8 98 %d" % UNIT)
            q()
        elif a in ("t1", "t3", "t9"):
            out.append("adv %d" % (TICK * {"1": 1, "3": 3, "9": 10}[a[1]]))
        elif a == "cc":
            out.append("a cc")
            q()
        elif a == "dc":
            out.append("a dc")
            out.append("a quiesce 1")
        elif a == "eof":
            out.append("a eof")
            q()
        elif a == "em":
            out.append("a raw 000000")
            out.append("a eof")
            q()
        elif a == "rerr":
            out.append("a rerr")
            q()
        elif a == "werr":
            if exact:
                out.append("a werr err")
            else:
                out.append("a wcut %d %s" % (rnd.choice([0, 1, 4, 7, 11, 12, 13, 20, 24, 30, 70000]), rnd.choice(["err", "zero", "over"])))
            q()
        elif a == "ferr":
            out.append("a werr flush")
            q()
        elif a == "go":
            out.append("a inj 3 0 0 0")
            q()
        else:
            raise Exception("token " + t)
    if races:
        n = 256 - f["backlog"] + 4
        out[n:] = interleaved(out[n:], rnd)
    # let everything that can happen happen, and look at what the application can see
    out += ["a quiesce 1", "a bud inf", "a chunk inf inf", "a quiesce 1"]
    for s in ids:
        out.append("a q %d" % s)
        if rnd.random() < .7:
            out.append("a rd %d %d" % (s, 9 * UNIT))
            out.append("a rd %d %d" % (s, 9 * UNIT))
        if rnd.random() < .5:
            out.append("a cl %d" % s)
        elif rnd.random() < .3:
            out.append("a dr %d" % s)
    out.append("a quiesce 1")
    if rnd.random() < .4:
        out += ["a cc", "a quiesce 1"]
    return "\n".join(out)
