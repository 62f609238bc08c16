#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property against /repo's working tree
   check.py replay <dir>                  re-run a recorded violation
   check.py setup                         build everything the checks need

Exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: the check itself failed."""
import collections, json, os, random, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import genscn  # noqa: E402
import pairs  # noqa: E402
import plan  # noqa: E402

HARNESS = os.path.join(V, "harness")
TARGET = os.path.join(V, "target")
BIN = os.path.join(TARGET, "debug", "yxharness")
SPEC = os.path.join(V, "spec")
KNOWN = os.path.join(V, "known_findings.txt")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()


class Broken(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, **kw)


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    for attempt in (1, 2):
        r = sh(["cargo", "build", "--offline", "-q"], 800, cwd=HARNESS, env=env)
        if r.returncode == 0:
            return
    raise Broken("harness does not build:\n" + r.stdout[-3000:])


def harness(args, timeout=300):
    r = sh([BIN] + [str(a) for a in args], timeout)
    if r.returncode != 0:
        raise Broken("harness failed: %s\n%s" % (args, r.stdout[-2000:]))


def tlc(cfg, module, work, env=None, timeout=800, extra=(), heap="6g", workers="8", cwd=SPEC, jvm=()):
    """Run TLC in SPEC; returns its output."""
    meta = tempfile.mkdtemp(dir=work, prefix="tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *jvm, "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", workers, "-metadir", meta, "-config", cfg, *extra, module]
    r = sh(cmd, timeout, cwd=cwd, env=dict(os.environ, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


# ---------------------------------------------------------------------------- trace validation
class Traces:
    """Validates recorded executions of the real code with YamuxTrace.tla."""

    def __init__(self, prop, work):
        self.prop, self.work = prop, work
        self.events = 0
        self.traces = 0
        self.states = 0
        self.rejected = 0      # by the whole specification, for whatever property
        self.cov = collections.Counter()
        self.bad = []          # (id, line, tags, trace json line, scenario)
        self.samples = []
        self.runs = collections.Counter()
        self.n = 0

    def validate(self, nd, label):
        lines = [l for l in open(nd) if l.strip()]
        scn = scenarios(nd + ".scn")
        ids = [re.match(r'\{"id":"([^"]*)"', l).group(1) for l in lines]
        text = dict(zip(ids, lines))
        self.runs[label] += len(lines)
        self.traces += len(lines)
        self.events += sum(int(re.match(r'\{"id":"[^"]*","n":(\d+)', l).group(1)) for l in lines)
        if not self.samples and lines:
            ev = json.loads(lines[0])
            self.samples.append({"trace": ev["id"], "events": ev["ev"][:12]})
        # against the whole specification first; what it rejects is then judged for this property
        acc, dead = self.judge(nd, ids, text, "ALL")
        rest = [i for i in ids if i not in acc]
        self.rejected += len(rest)
        mine = [i for i in rest if any(self.prop in t for t in dead[i][1])]
        other = [i for i in rest if i not in mine][:200]
        if other:
            p = os.path.join(self.work, "rest.nd")
            open(p, "w").writelines(text[i] for i in other)
            a2, d2 = self.judge(p, other, text, self.prop)
            for i in other:
                if i not in a2:
                    mine.append(i)
                    dead[i] = d2[i]
        for i in mine:
            self.bad.append((i, dead[i], text[i], scn.get(i[:-1], [])))

    def judge(self, nd, ids, text, enforced):
        """-> accepted ids, {rejected id: (event number, [violated properties])}"""
        acc, dead, ok = self.tlc_on(nd, enforced)
        if not ok:
            # TLC stopped at a trace it cannot evaluate: judge what it had not accepted one by one
            n = 0
            for i in ids:
                if i not in acc and n < 40:
                    n += 1
                    p = os.path.join(self.work, "one.nd")
                    open(p, "w").write(text[i])
                    a, d, o = self.tlc_on(p, enforced)
                    acc |= a
                    dead.update(d)
                    if not o:
                        dead[i] = (0, [[self.prop, "the specification has no meaning for this trace"]])
        for i in ids:
            if i not in acc:
                dead.setdefault(i, (0, [["not judged"]]))
        return acc, dead

    def tlc_on(self, nd, enforced):
        self.n += 1
        out = tlc("YamuxTrace.cfg", "YamuxTrace.tla", self.work, {"TRACE": nd, "ENFORCED": enforced})
        acc, dead = set(), {}
        for m in re.finditer(r'@ACCEPT (\S+) (\[.*?\])"?$', out, re.M):
            acc.add(m.group(1))
            for x in re.findall(r'\\"(.*?)\\"', m.group(2)):
                self.cov[x] += 1
        for m in re.finditer(r'@DEAD (\S+) (\d+) (.*?)"?$', out, re.M):
            n, tags = int(m.group(2)), re.findall(r"C\d\d", m.group(3))
            old = dead.get(m.group(1), (-1, []))
            if n >= old[0]:
                dead[m.group(1)] = (n, (old[1] if n == old[0] else []) + [tags])
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        ok = "Finished in" in out and m is not None and "Error:" not in out
        if m:
            self.states += int(m.group(2))
        if not ok and not acc and not dead and "Error:" not in out:
            raise Broken("TLC failed:\n" + out[-2000:])
        return acc, dead, ok


def scenarios(f):
    d, cur = {}, None
    if os.path.exists(f):
        for l in open(f):
            l = l.rstrip("\n")
            if l.startswith("# "):
                cur = l[2:]
                d[cur] = []
            elif cur is not None:
                d[cur].append(l)
    return d


def save_replay(prop, bad):
    i, (line, tags), trace, scn = bad
    d = os.path.join(V, "replays", "%s-%s" % (prop, i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "scenario.scn"), "w").write("# %s\n" % i[:-1] + "\n".join(scn) + "\n")
    open(os.path.join(d, "trace.ndjson"), "w").write(trace)
    ev = json.loads(trace)["ev"]
    lo = max(0, line - 25)
    with open(os.path.join(d, "reason.txt"), "w") as f:
        f.write("property %s: event %d of trace %s is not allowed (violates %s)\n\n" % (
            prop, line, i, " or ".join(",".join(t) for t in tags)))
        for k in range(lo, min(len(ev), line + 1)):
            f.write("%s%5d  %s\n" % (">" if k + 1 == line else " ", k + 1, json.dumps(ev[k])[:400]))
    return d


# ---------------------------------------------------------------------------- schedules from the specification
def generate(name, tier, work, limit, rnd, ev):
    """Explore a family of YamuxGen; returns the scenarios to run (text blocks)."""
    f = genscn.FAMILIES[name]
    depth = f["depth"][0 if tier == "quick" else 1]
    t = time.time()
    d = os.path.join(work, "gen")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "G.tla"), "w").write(genscn.module("G", f["pre"]))
    open(os.path.join(d, "G.cfg"), "w").write(genscn.config(f, depth))
    out = tlc("G.cfg", "G.tla", work, cwd=d, jvm=["-DTLA-Library=" + SPEC])
    if "No error has been found" not in out:
        raise Broken("family %s: TLC failed or the specification violates its invariants\n%s" % (
            name, "\n".join(l for l in out.splitlines() if "@SCN" not in l)[-3000:]))
    st = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)[-1]
    seqs = genscn.parse(out)
    ev["models"].append({"module": "YamuxGen", "cfg": "family %s, depth %d after %d prefixes" % (name, depth, len(f["pre"])),
                         "distinct_states": int(st[1].replace(",", "")), "states_generated": int(st[0].replace(",", "")),
                         "action_sequences": len(seqs), "wall_s": round(time.time() - t, 1)})
    shutil.rmtree(d, ignore_errors=True)
    if limit and len(seqs) > limit:
        seqs = rnd.sample(seqs, limit)
    return [genscn.translate("%s-%d" % (name, i), f, s, rnd) for i, s in enumerate(seqs)], len(seqs)


def simulate(name, tier, work, limit, rnd, ev):
    """Random walks of the two-endpoint model, as scenarios for two real endpoints."""
    t = time.time()
    d = os.path.join(work, "sim")
    os.makedirs(d, exist_ok=True)
    mod, cfg = pairs.SIMS[name]
    open(os.path.join(d, "PX.tla"), "w").write(mod)
    open(os.path.join(d, "P.cfg"), "w").write(cfg)
    depth = int(re.search(r"DEPTH = (\d+)", cfg).group(1))
    out = tlc("P.cfg", "PX.tla", work, cwd=d, jvm=["-DTLA-Library=" + SPEC],
              extra=["-simulate", "num=%d" % (1 + limit // 16), "-depth", str(depth + 2), "-seed", str(rnd.randrange(1 << 40))])
    if "Error:" in out or "Finished in" not in out:
        raise Broken("simulation %s: TLC failed or the specification violates its invariants\n%s" % (
            name, "\n".join(l for l in out.splitlines() if "@W" not in l)[-3000:]))
    st = re.findall(r"The number of states generated: ([\d,]+)", out)
    n = int(st[-1].replace(",", "")) if st else 0
    walks = pairs.walks(out)
    ev["models"].append({"module": "YamuxPairSim", "cfg": "%s, walks of %d steps at the constants of the implementation" % (name, depth),
                         "distinct_states": 0, "states_generated": n, "action_sequences": len(walks),
                         "wall_s": round(time.time() - t, 1)})
    shutil.rmtree(d, ignore_errors=True)
    if len(walks) > limit:
        walks = rnd.sample(walks, limit)
    return [pairs.translate("pw-%s-%d" % (name, i), w, rnd, int("Rac = TRUE" in cfg)) for i, w in enumerate(walks)]


# ---------------------------------------------------------------------------- the checks
def known(prop):
    """Known findings: 'finding: property=C08 scenario=<name> <text>'."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def run(prop, tier):
    work = os.path.join(V, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    budget = 200 if tier == "quick" else 600
    ev = {"models": []}
    violations = []
    try:
        build()
        # 1. the design: model checking of the specification itself
        for name in pairs.USE.get(prop, ((), ()))[tier != "quick"]:
            t = time.time()
            d = os.path.join(work, "pair")
            os.makedirs(d, exist_ok=True)
            mod, cfg = pairs.MODELS[name]
            open(os.path.join(d, "PX.tla"), "w").write(mod)
            open(os.path.join(d, "P.cfg"), "w").write(cfg)
            try:
                out = tlc("P.cfg", "PX.tla", work, cwd=d, jvm=["-DTLA-Library=" + SPEC], timeout=60 if tier == "quick" else 200)
            except subprocess.TimeoutExpired as e:
                out = e.stdout or b""
                out = out.decode(errors="replace") if isinstance(out, bytes) else out
            st = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct", out)
            gen, dis = (int(x.replace(",", "")) for x in st[-1]) if st else (0, 0)
            bad = re.search(r"Invariant (\w+) is violated|(Temporal properties) were violated", out)
            want = pairs.MUST_FAIL.get(name)
            if (bad.group(1) if bad else None) != want or (not bad and "Error:" in out) or not st:
                raise Broken("design model %s: %s\n%s" % (name, bad.group(0) if bad else "TLC failed", out[-3000:]))
            ev["models"].append({"module": "YamuxPair", "cfg": name, "distinct_states": dis, "states_generated": gen,
                                 "complete": "No error has been found" in out, "violates_as_it_must": want or "",
                                 "wall_s": round(time.time() - t, 1)})
        # 2. conformance: recorded executions of the real code against the specification
        tr = Traces(prop, work)
        fixed = plan.fixed(prop)
        for f in fixed:
            nd = os.path.join(work, os.path.basename(f) + ".nd")
            harness(["run", os.path.join(V, f), nd])
            tr.validate(nd, os.path.basename(f))
        rnd = random.Random(SEED)
        for name, text in plan.scenarios(prop, tier, rnd):
            f = os.path.join(work, name + ".scn")
            open(f, "w").write(text)
            harness(["run", f, f + ".nd"])
            tr.validate(f + ".nd", name)
        for name, limit in plan.families(prop):
            if tr.bad:
                break
            blocks, n = generate(name, tier, work, limit if tier == "quick" else 40000, rnd, ev)
            for k in range(0, len(blocks), 10000):
                f = os.path.join(work, name + ".scn")
                open(f, "w").write("\n".join(blocks[k:k + 10000]) + "\n")
                harness(["run", f, f + ".nd"])
                tr.validate(f + ".nd", "model:" + name)
        for name, limit in pairs.SIM_USE.get(prop, {}).items():
            if tr.bad:
                break
            blocks = simulate(name, tier, work, limit if tier == "quick" else 15 * limit, rnd, ev)
            f = os.path.join(work, name + ".scn")
            open(f, "w").write("\n".join(blocks) + "\n")
            harness(["run", f, f + ".nd"])
            tr.validate(f + ".nd", "walks:" + name)
        mstates = sum(m["distinct_states"] for m in ev["models"])
        mtrans = sum(m["states_generated"] for m in ev["models"])
        rounds = 0
        t1 = time.time()
        while not tr.bad:
            for prof, count in plan.profiles(prop):
                nd = os.path.join(work, prof + ".nd")
                harness(["gen", prof, SEED * 1000 + rounds, count, nd])
                tr.validate(nd, prof)
                if time.time() - t1 > budget or len(tr.bad) > 20:
                    break
            rounds += 1
            if tier == "quick" or time.time() - t1 > budget:
                break
        for b in tr.bad[:5]:
            violations.append(save_replay(prop, b))
        # 3. recorded findings
        kf = []
        for scn, text in known(prop):
            nd = os.path.join(work, "known.nd")
            harness(["run", os.path.join(V, "scenarios", scn), nd])
            if plan.known_fails(scn, [json.loads(l) for l in open(nd)]):
                kf.append(text)
        want = plan.labels(prop)
        cov = {
            "states": mstates + tr.states,
            "transitions": mtrans + tr.events,
            "traces_validated_against_impl": tr.traces,
            "trace_events": tr.events,
            "trace_states": tr.states,
            "traces_rejected_for_any_property": tr.rejected,
            "design_models": ev["models"],
            "traces_by_source": dict(tr.runs),
            "rounds": rounds,
            "situations_covered": {k: v for k, v in sorted(tr.cov.items())},
            "relevant_situations_not_reached": sorted(l for l in want if l not in tr.cov),
            "samples": tr.samples + [{"model": m["cfg"], "states": m["distinct_states"]} for m in ev["models"][:2]],
        }
        evd = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
               "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - T0, 1), "violations": len(tr.bad)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(evd, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        for t in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        print("%s %s: %d design states, %d traces / %d events of the real code checked, %d rejected, %.0f s" % (
            prop, tier, mstates, tr.traces, tr.events, len(tr.bad), time.time() - T0))
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (prop, v))
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(d):
    prop = os.path.basename(os.path.abspath(d)).split("-")[0]
    work = os.path.join(V, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build()
    nd = os.path.join(work, "r.nd")
    harness(["run", os.path.join(d, "scenario.scn"), nd])
    tr = Traces(prop, work)
    tr.validate(nd, "replay")
    for b in tr.bad:
        print("VIOLATION property=%s replay=%s" % (prop, save_replay(prop, b)))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if tr.bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            build()
            return 0
        if a[0] == "replay":
            return replay(a[1])
        return run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except Broken as e:
        print("ERROR", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR timeout", e.cmd)
        return 2


if __name__ == "__main__":
    sys.exit(main())
