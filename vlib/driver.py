"""Decides one property: models, their behaviours replayed in the code, and
recordings of the code validated against the specification."""
import argparse, json, os, shutil, sys, time
import judge, run
from run import Broken, BUILD, VERIF

ALL = ["C%02d" % i for i in range(1, 23)]


class Check:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.quick = tier == "quick"
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.parts = [], [], []
        self.other = 0
        self.violated = False
        self.listed = {key(f["session"]): f for f in known().get(prop, [])}

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, x, call, tags, want):
        self.violated = self.violated or key(x) not in self.listed
        self.bad.append({"session": x, "call": call, "in_respect_of": sorted(tags), "specification": want})

    # --- recordings of the code against the specification -----------------
    def validate(self, lines, name):
        """lines: sessions; run them, and let TLC compare the recordings."""
        self.compare(run.harness(self.work, lines), name)

    def replay(self, lines, name, r):
        """lines: behaviours of the specification; carry them out in the code."""
        outs = run.harness(self.work, lines)
        off = [o for o in outs if o != b"="]
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(lines) - len(off)
        self.parts.append({"part": name, "behaviours": len(lines), "states": r.distinct, "carried_out_otherwise": len(off)})
        for l in lines[:1] + lines[-1:]:
            x = json.loads(l)
            x = json.loads(x) if isinstance(x, str) else x
            self.sample({"replayed": "".join(x.get("cs", [t[1] for t in x.get("toks", [])]))[:200], "calls": x.get("calls")})
        if off:
            off.sort(key=len)
            self.compare(off[:4000], name + ": what was carried out otherwise")

    def compare(self, outs, name):
        """Let TLC compare what the code did with the specification."""
        xs, keep = [], []
        for l in outs:
            if not l:
                continue
            x = json.loads(l)
            if "crash" in x:
                if "panic" in judge.ACCEPT[self.prop] or x["crash"] in judge.ACCEPT[self.prop]:
                    self.violation(x, None, {x["crash"]}, None)
                else:
                    self.other += 1
                continue
            xs.append(x)
            keep.append(l)
        trace, out = self.work.path("trace"), self.work.path("deviations")
        with open(trace, "wb") as f:
            f.write(b"\n".join(keep + [canary()]) + b"\n")
        r = run.tlc(self.work, "Trace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", {"TRACE": trace, "OUT": out},
                    timeout=800 if self.quick else 6000)
        if not r.ok:
            raise Broken("TLC could not validate the recordings:\n" + r.text[-3000:])
        dev = run.read_csv(out)
        if not any(d["h"] == len(xs) + 1 for d in dev):
            raise Broken("the specification accepted a corrupted recording")
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(xs)
        self.parts.append({"part": name, "recordings": len(xs), "states": r.distinct})
        for x in xs[:2]:
            self.sample({"recorded": "".join(x.get("cs", [t[1] for t in x.get("toks", [])]))[:200], "calls": x.get("calls")})
        accept = judge.ACCEPT[self.prop]
        seen = set()
        for d in sorted(dev, key=lambda d: (d["h"], d["l"])):
            h = d["h"] - 1
            if h >= len(xs) or h in seen:
                continue
            x = xs[h]
            tags = judge.call_tags(x["out"][d["l"] - 1], d) if d["what"] == "call" else judge.whole_tags(x, d)
            if tags & accept:
                seen.add(h)
                self.violation(x, d["l"] - 1 if d["what"] == "call" else None, tags & accept, d)
            else:
                self.other += 1
        self.monitors(xs)

    def monitors(self, xs):
        """What is judged on the recordings themselves, or on pairs of them."""
        p = self.prop
        if p == "C03":
            for x in xs:
                if "out" in x and judge.endless(x):
                    self.violation(x, None, {"endless"}, None)
        if p == "C05":
            for x in xs:
                if "out" in x and "cs" in x and "kind" not in x:
                    n = judge.positions_true(x)
                    if n is not None:
                        self.violation(x, n, {"posbad"}, None)
        if p == "C04":
            its = [x for x in xs if ["into_iter"] in x.get("calls", [])]
            sib = [strip(x, calls=x["calls"][:x["calls"].index(["into_iter"])] + [["*"]], fused=True) for x in its]
            for x, y in zip(its, self.rerun(sib)):
                if y is None or not judge.iterates_like_calls(x, y):
                    self.violation(x, None, {"iteration"}, y and y["out"])
        if p == "C09":
            fs = [x for x in xs if x.get("fail")]
            sib = [strip(x, fail=0) for x in fs]
            for x, y in zip(fs, self.rerun(sib)):
                if y is None or not judge.aborts_like(x, y, x["fail"]):
                    self.violation(x, None, {"abort"}, y and y["out"])

    def rerun(self, sessions):
        outs = run.harness(self.work, [json.dumps(s).encode() for s in sessions])
        res = []
        for o in outs:
            y = json.loads(o) if o else None
            res.append(None if y is None or "crash" in y else y)
        return res


def strip(x, **more):
    y = {k: v for k, v in x.items() if k in ("cs", "toks", "calls", "fail", "via")}
    y.update(more)
    return y


def canary():
    """A recording of nothing that really happened: it has to be rejected."""
    e = {"op": ["complete_command"], "ev": [["word", ["s", ["S", ["lit", "b"]]]]], "ret": ["ok", [1]],
         "pos": [1, 1, 2], "tp": 1, "cp": 1}
    s = {"op": ["start"], "ev": [], "ret": ["ok", []], "pos": [0, 1, 1], "tp": 0, "cp": 0}
    return json.dumps({"cs": ["a"], "calls": [["*"]], "out": [s, e]}).encode()


def known():
    """The recorded findings: {property: [{"cs": ..., "calls": ..., "what": ...}]}."""
    res = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding:"):
                f = json.loads(l[8:])
                res.setdefault(f["property"], []).append(f)
    return res


def key(x):
    return json.dumps({k: x.get(k) for k in ("mode", "cs", "toks", "calls", "fail", "kind", "p", "w", "e")}, sort_keys=True)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=ALL)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default="")
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        with run.Work() as work:
            run.build()
            c = Check(a.property, a.tier, a.seed, work)
            import models
            for m in models.for_property(c):
                if c.violated or (a.only and a.only not in m.__name__):
                    continue
                t = time.time()
                m(c)
                if c.parts:
                    c.parts[-1]["wall_s"] = round(time.time() - t, 1)
            return report(c, time.time() - t0)
    except Broken as e:
        print("ERROR: %s" % e)
        return 2


def report(c, wall):
    p = c.prop
    fresh, found = [], {}
    for b in c.bad:
        f = c.listed.get(key(b["session"]))
        if f:
            found[key(b["session"])] = f
        else:
            fresh.append(b)
    for f in found.values():
        print("KNOWN-FINDING: property=%s %s" % (p, f["what"]))
    cov = {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
           "samples": c.samples or ["none"], "parts": c.parts, "deviations_outside_of_this_property": c.other,
           "exhaustive": False}
    ev = {"property": p, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
          "assumptions": ["TLC and the harness's encodings are correct", "inputs within the stated bounds"],
          "wall_s": round(wall, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", p + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d states, %d recordings and behaviours, %.0f s" % (p, c.states, c.traces, wall))
    for q in c.parts:
        print("  ", json.dumps(q))
    if not fresh:
        return 0
    os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
    path = os.path.join(BUILD, "replays", p + ".json")
    fresh.sort(key=lambda b: len(json.dumps(b["session"].get("cs", b["session"].get("toks", [])))))
    with open(path, "w") as f:
        json.dump(fresh[:50], f, indent=1)
    b = fresh[0]
    x = b["session"]
    print("%d violations; the shortest source: %r" % (len(fresh), "".join(x.get("cs", [t[1] for t in x.get("toks", [])]))))
    print("  calls: %s  in respect of: %s" % (json.dumps(x.get("calls")), ", ".join(b["in_respect_of"])))
    if b["call"] is not None and "out" in x:
        e = x["out"][b["call"]]
        print("  code:          %s" % json.dumps({k: e[k] for k in ("op", "ev", "ret", "pos")})[:1500])
    if b["specification"] is not None:
        print("  specification: %s" % json.dumps(b["specification"])[:1500])
    print("VIOLATION property=%s replay=%s" % (p, path))
    return 1
