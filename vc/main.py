"""check driver: extraction, verification, replay, verdict, evidence."""
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

HERE = build.HERE
SHARDS = 5
# (cases per shard, seconds cap) of the replay in the quick tier
QUICK = {"C01": (60000, 40), "C02": (60000, 40), "C03": (60000, 40), "C04": (60000, 40),
         "C05": (4000, 60), "C06": (6000, 60)}
QUICK_DEFAULT = (40000, 60)
THOROUGH = (100000000, 600)


def properties():
    out = {}
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                out[d["id"]] = d
    return out


def known_findings(prop):
    """Lines `known: property=<id> match=<text>`; a failure whose message contains the text is known."""
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known:") and ("property=%s " % prop) in line and " match=" in line:
                out.append(line.split(" match=", 1)[1].strip())
    return out


class Replay:
    """Shards of the replay harness running beside the verifier."""

    def __init__(self, binary, prop, seed, cases, secs, scratch, shards=SHARDS):
        self.binary, self.prop, self.scratch = binary, prop, scratch
        self.cases, self.secs = cases, secs
        self.procs = []
        for k in range(shards):
            s = seed * 1000 + k
            out = os.path.join(scratch, "shard-%d-%d.json" % (s, len(os.listdir(scratch))))
            self.procs.append([s, out, self._start(s, out, 0), time.time()])

    def _start(self, s, out, frm):
        return subprocess.Popen([self.binary, "run", self.prop, str(s), str(self.secs), str(self.cases), out, str(frm)],
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def wait(self):
        tot = {"cases": 0, "evaluations": 0, "nontrivial": 0, "skipped": 0, "failures": [], "samples": [],
               "hangs": 0, "broken": []}
        for rec in self.procs:
            s, out, p, t0 = rec
            restarts = 0
            while True:
                try:
                    p.wait(timeout=self.secs + 120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                d = None
                try:
                    with open(out) as f:
                        d = json.load(f)
                    os.remove(out)
                except (OSError, ValueError):
                    pass
                if d is None:
                    tot["broken"].append("shard seed=%d exit=%s" % (s, p.returncode))
                    break
                for k in ("cases", "evaluations", "nontrivial", "skipped"):
                    tot[k] += d[k]
                for f in d["failures"]:
                    f["seed"] = s
                    tot["failures"].append(f)
                if len(tot["samples"]) < 4:
                    tot["samples"] += d["samples"][:2]
                if p.returncode == 3:
                    tot["hangs"] += 1
                    restarts += 1
                    if restarts < 3 and time.time() - t0 < self.secs:
                        p = self._start(s, out, d["next"])
                        continue
                break
        return tot


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def check(prop):
    t0 = time.time()
    props = properties()
    if prop not in props:
        print("unknown property", prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    scratch = os.path.join(build.BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    try:
        return run(prop, props[prop], seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, spec, seed, tier, scratch, t0):
    binary, feats = build.build_replay()
    cases, secs = (QUICK.get(prop, QUICK_DEFAULT) if tier == "quick" else THOROUGH)
    rep = Replay(binary, prop, seed, cases, secs, scratch)
    import contracts
    ver = contracts.verify(prop, tier)
    tot = rep.wait()

    obls = ver["obligations"]
    refuted = [o for o in obls if o["status"] == "refuted"]
    undecided = [o for o in obls if o["status"] not in ("proved", "refuted")]
    known = known_findings(prop)

    def unknown_failure(f):
        text = f["message"] + " " + f["input"]
        return not any(k in text for k in known)
    failures = [f for f in tot["failures"] if unknown_failure(f)]
    knownf = [f for f in tot["failures"] if not unknown_failure(f)]
    if (refuted or undecided) and not failures and tier == "quick":
        # an obligation is open: look longer for an input that shows a failure on the real code
        more = Replay(binary, prop, seed + 7919, 100000000, 120, scratch).wait()
        for k in ("cases", "evaluations", "nontrivial", "skipped"):
            tot[k] += more[k]
        failures = [f for f in more["failures"] if unknown_failure(f)]
    violated = bool(failures or refuted)
    if tot["broken"] and not violated:
        # the harness itself died on every shard: nothing was explored
        if len(tot["broken"]) == SHARDS:
            print("replay harness did not run:", "; ".join(tot["broken"]))
            return 2

    proof = bool(obls) and not undecided and not refuted
    bounded = {
        "label": "bounded: generated inputs on the real crate, not counted as proved",
        "evaluations": tot["evaluations"], "distinct_nontrivial": tot["nontrivial"],
        "cases": tot["cases"], "skipped": tot["skipped"], "hangs_skipped": tot["hangs"],
        "hooks_compiled": feats,
    }
    cov = {
        "evaluations": tot["cases"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": "cases are generated from the seed (problem, options, matrices; see replay/src/case.rs, "
                "lin.rs); a case is non-trivial when the property's antecedent held and at least one "
                "assertion about it was evaluated on the real crate",
        "samples": tot["samples"][:4] or ["no case ran"],
        "assertions_evaluated": tot["evaluations"],
        "replay": bounded,
        "obligations": len(obls),
        "discharged": sum(1 for o in obls if o["status"] == "proved"),
        "checker_cmd": "VERIF_TIER=%s VERIF_SEED=%d ./check %s" % (tier, seed, prop),
        "trusted_base": ver["trusted"],
        "functions_under_contract": ver["functions"],
        "by_backend": ver["backends"],
        "solver_seconds": round(ver["solver_s"], 2),
        "assumption_sets": ver.get("assumption_sets", {}),
        "extraction": ver["extraction"],
        "not_under_contract_bounded_only": ver["bounded"],
        "undecided": [{"name": o["name"], "why": o.get("detail", "")[:300]} for o in undecided][:60],
        "refuted": [o["name"] for o in refuted][:60],
        "obligation_list": [{"name": o["name"], "status": o["status"], "backend": o.get("backend", "")}
                            for o in obls][:400],
    }
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": "proof" if ver["level"] == "proof" and proof else "exploration",
          "coverage": cov, "assumptions": ver["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": len(failures) + len(refuted)}
    write_json(os.path.join(HERE, "evidence", prop + ".json"), ev)

    for f in knownf[:5]:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["message"]))
    print("%s: %d/%d obligations discharged, %d undecided, %d refuted; replay %d cases, %d non-trivial, %d failing"
          % (prop, cov["discharged"], len(obls), len(undecided), len(refuted), tot["cases"], tot["nontrivial"],
             len(failures)))
    for o in undecided[:10]:
        print("  undecided (bounded replay stands in):", o["name"], "-", o.get("detail", "")[:160])
    if not violated:
        return 0
    path = os.path.join(build.BUILD, "violations", prop + ".json")
    rec = {"property": prop, "statement": spec["statement"], "tier": tier, "seed": seed,
           "failed_obligations": [{"name": o["name"], "backend": o.get("backend"), "verifier_output": o.get("detail", "")}
                                  for o in refuted]}
    if failures:
        f = failures[0]
        rec["replay_cmd"] = "%s one %s %d %s %s" % (binary, prop, f["seed"], f["group"], f["case"])
        rec["failing_inputs"] = failures[:10]
    write_json(path, rec)
    for f in failures[:3]:
        print("  failing input:", f["message"][:300])
        print("    input:", f["input"][:400])
    for o in refuted[:5]:
        print("  failed obligation:", o["name"], "-", o.get("detail", "")[:300])
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if failures else " no-failing-input-found"))
    return 1


def setup():
    b, feats = build.build_replay()
    print("replay harness:", b, feats)
    _, s = build.extract_mir()
    print("MIR extraction: %.1f s" % s)
    return 0


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        sys.exit(setup())
    if len(sys.argv) != 2:
        print("usage: check <property>")
        sys.exit(2)
    try:
        sys.exit(check(sys.argv[1]))
    except build.BuildError as e:
        print(e)
        sys.exit(2)
