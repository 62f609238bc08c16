"""Every operation that may have to wait, overlapping with everything that lets it go on.

For each way an operation of the API parks (no credit, full queue, nothing to read, backlog reached),
each event that ends the wait, both nestings of the two tasks and each scheduling point: a scenario.
The specification judges the traces; at the end nothing that can go on may still wait."""

KS = 12


def setup(kind, srv, n):
    """-> steps, id of the stream"""
    s = (1 if srv else 2) if n else (2 if srv else 1)
    out = ["a inj 1 1 %d 0" % s, "a quiesce 1"] if n else ["a open", "a poll", "a inj 1 2 %d 0" % s, "a quiesce 1"]
    if kind == "wr0":
        out += ["a wr %d 262144" % s, "a quiesce 1"]
    elif kind == "full":
        out += ["a bud 0", "a poll"] + ["a wr %d 1" % s] * 14 + ["a can w %d" % s]
    return out, s


def ends(s):
    """events after which whatever waits on the stream has to give up"""
    return {
        "rs": ["a inj 0 8 %d 0" % s], "rw": ["a inj 1 8 %d 0" % s], "eof": ["a eof"], "em": ["a raw 0000", "a eof"],
        "rerr": ["a rerr"], "go": ["a inj 3 0 0 0"], "bad": ["a raw ff0000000000000000000000"],
    }


def cases():
    """(name, properties, cfg, before, event, operation)"""
    for srv in (0, 1):
        for inn in (0, 1):
            pre = "%d%d" % (srv, inn)
            b, s = setup("wr0", srv, inn)
            e = dict(ends(s), w1=["a inj 1 0 %d 65536" % s], wa=["a inj 1 2 %d 1" % s], wf=["a inj 1 4 %d 70000" % s],
                     fw=["a inj 0 4 %d 0" % s, "a inj 1 0 %d 9" % s], ww=["a inj 1 0 %d 1" % s] * 2)
            for n, ev in e.items():
                for op in ("wr %d 1000" % s,):
                    yield pre + "-wr0-" + n, b, ev, op, s
            b, s = setup("rd", srv, inn)
            e = dict(ends(s), d1=["a inj 0 0 %d 100" % s], df=["a inj 0 4 %d 100" % s], fi=["a inj 0 4 %d 0" % s],
                     wf=["a inj 1 4 %d 5" % s], dr=["a inj 0 0 %d 100" % s, "a inj 0 8 %d 0" % s],
                     dd=["a inj 0 0 %d 100" % s, "a inj 0 0 %d 300" % s])
            for n, ev in e.items():
                for op in ("rd %d 1000" % s, "rp %d" % s):
                    yield pre + "-rd-" + n, b, ev, op, s
            b, s = setup("full", srv, inn)
            e = dict(ends(s), un=["a bud inf"], one=["a bud 13"], werr=["a werr err"], unrs=["a inj 0 8 %d 0" % s, "a bud inf"],
                     uneof=["a eof", "a bud inf"])
            for n, ev in e.items():
                for op in ("wr %d 5" % s, "fl %d" % s, "cl %d" % s):
                    yield pre + "-full-" + n, b, ev, op, s
            # a reader that has credit to grant but no room for the frame
            b, s = setup("full", srv, inn)
            b = b + ["a inj 0 0 %d 262144" % s, "a poll", "a rd %d 262144" % s]
            for n in ("un", "one", "rs", "eof", "werr"):
                yield pre + "-grant-" + n, b, e[n], "rd %d 1000" % s, s


def text(name, srv, b, ev, op, s, k, order, rnd):
    out = ["# " + name, "cfg %d 512 - %d %d" % (srv, rnd.random() < .8, 1 << 40)] + ["  ".join(x.split()) and x for x in b]
    if rnd.random() < .2:
        # the call was made before by another task
        out.append("a " + op)
    if order == 2:
        out += ["a race %d %s / cc" % (k, op)]
    elif order == 3:
        out += ["a race %d cc / %s" % (k, op)]
    elif order == 4:
        out += ["a race %d %s / dc" % (k, op)]
    else:
        out += ev
        out.append("a race %d %s / %s" % ((k, op, "poll") if order == 0 else (k, "poll", op)))
    out += ["a rquiesce %d" % rnd.randrange(1 << 30) if rnd.random() < .3 else "a quiesce 1", "a bud inf", "a quiesce 1"]
    out += ["a rd %d 300000" % s, "a rd %d 300000" % s, "a wr %d 70000" % s, "a q %d" % s, "a quiesce 1", "a dr %d" % s, "a quiesce 1"]
    return "\n".join(out)


def scenarios(rnd, only=None, frac=1.0):
    out = []
    seen = set()
    for name, b, ev, op, s in cases():
        o = op.split()[0]
        if only and not any(x in name for x in only):
            continue
        for order in range(5):
            key = (name.split("-")[0] + name.split("-")[1], o, order)
            if order >= 2:
                if key in seen:
                    continue
                seen.add(key)
            for k in range(KS):
                if rnd.random() < frac:
                    out.append(text("park-%s-%s-%d-%d" % (name, o, order, k), int(name[0]), b, ev, op, s, k, order, rnd))
    return out


def backlog(rnd):
    """an open that waits, against everything that makes room for it"""
    out = []
    for srv in (0, 1):
        f = 2 if srv else 1
        for n, ev in {"wa": ["a inj 1 2 %d 0" % f], "da": ["a inj 0 2 %d 10" % (f + 40)], "fa": ["a inj 0 6 %d 0" % f], "fi": ["a inj 0 4 %d 0" % f],
                      "rs": ["a inj 0 8 %d 0" % f], "rw": ["a inj 1 8 %d 0" % f], "eof": ["a eof"], "go": ["a inj 3 0 0 0"]}.items():
            for k in range(KS):
                for o in ("open / poll", "poll / open"):
                    out.append(["# bpark-%d-%s-%d-%s" % (srv, n, k, o[0])] + ev + ["a race %d %s" % (k, o)])
        for op in ("cl %d" % f, "dr %d" % (f + 2), "cl %d" % (f + 4)):
            for k in range(KS):
                for o in ("open / %s" % op, "%s / open" % op, "open / %s / poll" % op, "%s / open / poll" % op):
                    if o.split()[0] == "dr":
                        continue
                    out.append(["# bpark-%d-%s-%d" % (srv, o.replace(" ", "").replace("/", "."), k)] + ["a race %d %s" % (k, o)])
    res = []
    for t in out:
        srv = int(t[0].split("-")[1])
        res.append("\n".join([t[0], "cfg %d 512 - 1 16384" % srv] + ["a open"] * 256 + ["a quiesce 1"] + t[1:]
                             + ["a quiesce 1", "a open", "a quiesce 1"]))
    return res


def closers(rnd):
    """a connection being closed, or that has ended, is polled by any of the three calls, each of which may be the
    first to see how it ended; afterwards all three are called again"""
    out = []
    calls = ["poll", "open", "cc"]
    for srv in (0, 1):
        s = 2 if srv else 1
        for how in ("err", "zero", "over", "flush", "none", "cut5", "cut12", "cut40", "eof", "rerr", "go", "bad"):
            for closing in (0, 1, 2):
                for first in calls:
                    for extra in ("", "open", "wr", "cl", "dr", "ping", "full", "credit", "credits"):
                        if closing == 0 and how in ("none",):
                            continue
                        if rnd.random() > .5:
                            continue
                        b = ["cfg %d 512 - %d 16384" % (srv, rnd.random() < .7), "a open", "a poll", "a inj 1 2 %d 0" % s, "a quiesce 1"]
                        if how.startswith("cut"):
                            b.append("a wcut %s %s" % (how[3:], rnd.choice(["err", "zero", "over"])))
                        elif closing:
                            b.append("a bud 0")
                        if rnd.random() < .5:
                            b.append("a rd %d 10" % s)
                        if extra == "open":
                            b += ["a open", "a wr %d 3" % (s + 2)]
                        elif extra == "wr":
                            b += ["a wr %d 100" % s, "a poll", "a wr %d 100" % s]
                        elif extra == "full":
                            b += ["a poll"] + ["a wr %d 1" % s] * 14
                        elif extra in ("cl", "dr"):
                            b += ["a wr %d 9" % s, "a %s %d" % (extra, s)]
                        elif extra == "credit":
                            # the grant is still queued when closing starts
                            b += ["a inj 0 0 %d %d" % (s, rnd.choice([262144, 200000])), "a poll", "a wr %d 7" % s, "a rd %d 200000" % s,
                                  "a rd %d %d" % (s, rnd.choice([1, 99999]))]
                        elif extra == "credits":
                            # several streams with frames queued in different orders
                            p = 1 if srv else 2
                            b += ["a inj %d 1 %d 0" % (rnd.randrange(2), p + 2 * k) for k in range(3)] + ["a poll"]
                            b += ["a inj 0 0 %d 262144" % (p + 2 * k) for k in range(3)] + ["a poll"] * 2
                            b += ["a rd %d 200000" % (p + 2 * k) for k in range(3)]
                            q = ["a rd %d 262144" % (p + 2 * k) for k in range(3)] + ["a wr %d 5" % (p + 2 * k) for k in range(3)]
                            rnd.shuffle(q)
                            b += q + rnd.choice([[], ["a cl %d" % p], ["a dr %d" % (p + 2)]])
                        elif extra == "ping":
                            b += ["a inj 2 1 0 %d" % n for n in range(3)] + ["a poll"]
                        if closing:
                            b.append("a cc")
                        if closing == 2:
                            b.append("a " + rnd.choice(calls))
                        if how in ("err", "zero", "over", "flush"):
                            b.append("a werr " + how)
                        elif how in ("eof", "rerr"):
                            b.append("a " + how)
                        elif how == "go":
                            b.append("a inj 3 0 0 0")
                        elif how == "bad":
                            b.append("a raw 05000000000000000000000000")
                        if closing:
                            b.append("a bud inf")
                        b.append("a " + first)
                        if rnd.random() < .5:
                            b.append("a " + rnd.choice(calls))
                        b += ["a quiesce 1"] + ["a " + x for x in rnd.sample(calls, 3)] + ["a quiesce 1", "a q %d" % s, "a rd %d 100" % s,
                                                                                       "a wr %d 1" % s, "a fl %d" % s, "a quiesce 1"]
                        out.append("\n".join(["# closer-%d-%s-%d-%s-%s" % (srv, how, closing, first, extra)] + b))
    return out


def stall(kind, s, rnd):
    """-> steps after which stream s is stalled"""
    if kind == "unread":
        return ["a inj 0 0 %d 262144" % s]
    if kind == "chunks":
        return ["a inj 0 0 %d %d" % (s, 262144 // 8)] * 8
    if kind == "half":
        return ["a inj 0 0 %d 131072" % s, "a quiesce 1", "a rd %d 5" % s, "a inj 0 0 %d 100000" % s]
    if kind == "credit":
        return ["a wr %d 262144" % s, "a quiesce 1"] * 17 + ["a wr %d 9" % s]
    if kind == "closed":
        return ["a wr %d 5" % s, "a cl %d" % s, "a inj 0 0 %d 70000" % s]
    if kind == "fin":
        return ["a inj 0 0 %d 70000" % s, "a inj 0 4 %d 60000" % s]
    if kind == "reset":
        return ["a inj 0 0 %d 70000" % s, "a inj 0 8 %d 0" % s]
    if kind == "both":
        return ["a cl %d" % s, "a inj 0 4 %d 9000" % s]
    if kind == "dropped":
        return ["a inj 0 0 %d 50000" % s, "a dr %d" % s, "a quiesce 1"] + ["a inj 0 0 %d 30000" % s] * 3
    if kind == "waiting":
        return ["a rd %d 10" % s]
    return []


STALLS = ["unread", "chunks", "half", "credit", "closed", "fin", "reset", "both", "dropped", "waiting"]


def stalls(rnd, mixed=60):
    """Streams that are stalled in every way, and the life of others after that."""
    out = []
    todo = [(srv, [k] * n, late) for srv in (0, 1) for k in STALLS for n in (1, 3, 9) for late in (0, 1) if n < 9 or srv == late]
    todo += [(rnd.randrange(2), [rnd.choice(STALLS) for _ in range(rnd.randrange(2, 14))], rnd.randrange(2)) for _ in range(mixed)]
    for i, (srv, kinds, late) in enumerate(todo):
        own, theirs = (2, 1) if srv else (1, 2)
        o = ["# stall-%d" % i, "cfg %d %d - %d %d" % (srv, len(kinds) + 4, rnd.randrange(2), rnd.choice([16384, 1 << 40]))]

        def new():
            nonlocal own, theirs
            if rnd.random() < .5:
                own += 2
                return own - 2, ["a open", "a poll", "a inj 1 2 %d 0" % (own - 2)]
            theirs += 2
            return theirs - 2, ["a inj %d 1 %d 0" % (rnd.randrange(2), theirs - 2)]
        if late == 0:
            other, st = new()
            o += st + ["a quiesce 1"]
        for k in kinds:
            s, st = new()
            o += st + ["a quiesce 1"] + stall(k, s, rnd)
            if rnd.random() < .5:
                o.append("a quiesce 1")
        if late:
            other, st = new()
            o += st
        o += ["a quiesce 1", "a q %d" % other, "a wr %d 70000" % other, "a quiesce 1", "a inj 0 0 %d 70000" % other,
              "a rd %d 70000" % other, "a quiesce 1", "a inj 2 1 0 7", "a inj 1 0 %d 300000" % other] + ["a wr %d 262144" % other, "a quiesce 1"] * 3
        a, b = own, theirs
        o += ["a open", "a quiesce 1", "a wr %d 10" % a, "a inj 0 1 %d 1000" % b, "a quiesce 1", "a rd %d 2000" % b, "a wr %d 11" % b,
              "a cl %d" % a, "a dr %d" % b, "a quiesce 1", "a inj 0 4 %d 5" % other, "a rd %d 100" % other, "a rd %d 100" % other,
              "a cl %d" % other, "a quiesce 1", "a dr %d" % other, "a quiesce 1", "a open", "a quiesce 1"]
        if rnd.random() < .4:
            o += ["a cc", "a quiesce 1"]
        out.append("\n".join(o))
    return out


def pings(rnd, n=250):
    """Rounds of pings answered properly, then one that is not: late, twice, with another round's value, ..."""
    out = []
    ends = ["a pongx %d %d" % (b, d) for b in range(4) for d in (0, 1, -1, 2, 256, -256, 65536, 1 << 31)] + \
        ["a inj 2 2 0 %d" % v for v in (0, 1, 2, 3, 4294967295, 2147483648, 256)] + ["twice", "none", "unasked", "early"]
    todo = [(e, r) for e in ends for r in (1, 2, 3)] + [(rnd.choice(ends), rnd.randrange(1, 9)) for _ in range(n)]
    for i, (end, rounds) in enumerate(todo):
        srv = rnd.randrange(2)
        o = ["# pings-%d" % i, "cfg %d 512 - 1 16384" % srv]
        s = 2 if srv else 1
        if rnd.random() < .5:
            o += ["a open", "a wr %d 9" % s]
        for k in range(rounds):
            o.append("a quiesce 1")
            t = rnd.choice([0, 1, 50, 9999, 10000, 25000])
            if t:
                o.append("adv %d" % t)
            if rnd.random() < .3:
                o += ["a inj 2 1 0 %d" % rnd.choice([k, 0, 77, 4294967295]), "a quiesce 1"]
            if k == rounds - 1:
                break
            o += ["a pong 0", "a quiesce 1"]
            w = rnd.choice([10000, 10000, 10001, 9999, 30000])
            o += ["adv %d" % w, "a quiesce 1"] + (["adv 1", "a quiesce 1"] if w == 9999 else [])
        if end == "twice":
            o += ["a pong 0"] + rnd.choice([[], ["a quiesce 1"], ["adv 9999", "a quiesce 1"]]) + ["a pong 0"]
        elif end == "none":
            o += ["adv 10000", "a quiesce 1", "adv 100000", "a quiesce 1", "a pong 0"]
        elif end == "unasked":
            o += ["a pong 0", "a quiesce 1", "adv 5000", "a quiesce 1", "a inj 2 2 0 %d" % rnd.choice([rounds, rounds - 1, 0])]
        elif end == "early":
            o += ["a pong 0", "a quiesce 1", "adv 10000", "a inj 2 2 0 %d" % rounds]
        else:
            o.append(end)
        o += ["a quiesce 1", "a open", "a poll", "adv 10000", "a quiesce 1", "a pong 0", "a quiesce 1"]
        out.append("\n".join(o))
    return out
