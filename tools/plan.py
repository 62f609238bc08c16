"""What each check runs: design models, fixed scenarios, generated schedules."""
import os

import genscn
import parks

D = 262144
ASSUMPTIONS = [
    "the crate is exercised through its public API over a simulated transport; tasks interleave where one takes or releases a lock (parking_lot, substituted) or calls the transport, not inside critical sections or inside the channels",
    "time is a virtual clock substituted for the web-time dependency",
    "TLC, the harness's frame parser and the recorded payload positions are trusted",
]

PROFILES = {
    "C01": [("life", 300), ("frag", 300), ("flow", 200), ("block", 150), ("credit", 100), ("fuzz", 200), ("pairsmall", 30), ("pair", 10), ("xlife", 250), ("xflow", 100)],
    "C02": [("credit", 600), ("life", 200), ("block", 150), ("frag", 150), ("fuzz", 200), ("xcredit", 250)],
    "C03": [("flow", 500), ("life", 200), ("credit", 100), ("ids", 100), ("fuzz", 200), ("stall", 60), ("xflow", 250), ("xlife", 150)],
    "C04": [("flow", 1300), ("xflow", 200)],
    "C05": [("split", 200), ("block", 150), ("life", 200), ("close", 200), ("fail", 200), ("limit", 150), ("ids", 150), ("backlog", 40), ("credit", 80), ("flow", 80), ("xsplit", 200), ("xlife", 200), ("xfail", 200), ("xclose", 150), ("xblock", 100), ("xbacklog", 60), ("xcredit", 100)],
    "C06": [("pairsmall", 120), ("pair", 70)],
    "C07": [("life", 700), ("block", 200), ("close", 200), ("split", 120), ("frag", 200), ("xlife", 300)],
    "C08": [("life", 700), ("ids", 200), ("block", 150), ("limit", 150), ("fail", 100), ("xlife", 300), ("xids", 150)],
    "C09": [("ids", 600), ("life", 300), ("limit", 200), ("fuzz", 300), ("frag", 150), ("xids", 200)],
    "C10": [("life", 600), ("ids", 300), ("close", 200), ("flow", 150), ("backlog", 20), ("xlife", 250)],
    "C11": [("backlog", 150), ("ids", 100), ("xbacklog", 120)],
    "C12": [("limit", 1000), ("ids", 200), ("xlimit", 300)],
    "C13": [("ping", 900), ("block", 120), ("frag", 150), ("fuzz", 150), ("xping", 200)],
    "C14": [("close", 1500), ("block", 100), ("fail", 150), ("xclose", 400)],
    "C15": [("fail", 1200), ("close", 500), ("fuzz", 200), ("limit", 100), ("xfail", 400), ("xclose", 300)],
    "C16": [("frag", 400), ("block", 200), ("fail", 700), ("close", 300), ("xfail", 200), ("xblock", 80)],
    "C17": [("fuzz", 900), ("frag", 400), ("fail", 400), ("xfuzz", 200)],
    "C18": [("ids", 600), ("life", 200), ("fuzz", 400), ("frag", 200), ("xids", 200)],
    "C19": [("block", 300), ("stall", 100), ("ping", 250), ("split", 100), ("xblock", 100), ("xsplit", 60)],
    "C20": [("stall", 250), ("block", 200), ("split", 120), ("life", 200), ("limit", 100), ("xstall", 60), ("xsplit", 80)],
}


def profiles(prop):
    return PROFILES[prop]


def families(prop):
    return genscn.USE[prop]


def fixed(prop):
    return []


def scenarios(prop, tier, rnd):
    out = []
    if prop == "C04":
        n = 300 if tier == "quick" else 3000
        l = ["# config", "cfg 0 8 - 1 16384"]
        for _ in range(n):
            k = rnd.choice([0, 1, 2, 3, 7, 64, 511, 512, 513, 4095, 4096, 4097, rnd.randrange(8000)])
            c = rnd.choice([k * D, k * D - 1, k * D + 1, k * D + D, 0, 1 << 30, rnd.randrange(1 << 30)])
            c = max(0, min(c, (1 << 31) - 1))
            o = rnd.choice("sccsx")
            l.append("a cfgtry %d %s %s" % (k, "-" if rnd.random() < .1 else c, o))
        out.append(("config", "\n".join(l) + "\n"))
    if prop in PARKS:
        blocks = parks.scenarios(rnd, PARKS[prop])
        if prop in ("C05", "C11"):
            blocks += parks.backlog(rnd)
        out.append(("parks", "\n".join(blocks) + "\n"))
    if prop in ("C05", "C14", "C15", "C16", "C17"):
        out.append(("closers", "\n".join(parks.closers(rnd)) + "\n"))
    if prop == "C13":
        out.append(("pings", "\n".join(parks.pings(rnd, 250 if tier == "quick" else 4000)) + "\n"))
    if prop in ("C01", "C05", "C08", "C20"):
        out.append(("stalls", "\n".join(parks.stalls(rnd, 60 if tier == "quick" else 600)) + "\n"))
    return out


# which waiting calls (see parks.py) matter for which property
PARKS = {
    "C01": ["-rd-d", "-rd-f"],
    "C02": ["-wr0-w", "-wr0-fw"],
    "C03": ["-grant-"],
    "C05": None,
    "C07": ["-rd-fi", "-rd-df", "-rd-wf", "-full-"],
    "C08": ["-rs", "-rw"],
    "C11": ["none"],
    "C14": ["-wr0-rs", "-rd-rs", "-full-rs"],
    "C15": ["-eof", "-em", "-rerr", "-go", "-bad", "-werr"],
    "C16": ["-werr"],
    "C17": ["-bad", "-em"],
    "C20": ["-full-", "-grant-"],
}


LABELS = {}


def labels(prop):
    return LABELS.get(prop, [])


def known_fails(scn, traces):
    """Does the recorded finding still show?"""
    for t in traces:
        for e in t["ev"]:
            if e["e"] == "fin" and any(u["k"] == "w" for u in e["un"]):
                return True
    return False
