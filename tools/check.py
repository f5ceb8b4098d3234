#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property.

1. model-check the design models of the property's family with TLC,
2. build the harness from /repo and run it on the scenarios TLC exported and
   on generated inputs, recording every call,
3. validate the recorded traces against the trace specification with TLC,
   with corrupted copies of events mixed in as negative controls.
"""
import json, os, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from runner import *
from config import PROPS


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--seed" in sys.argv:
        seed = int(sys.argv[sys.argv.index("--seed") + 1])
    t0 = time.time()
    c = PROPS[prop]
    run = os.path.join(BUILD, "run", prop)
    shutil.rmtree(run, ignore_errors=True)
    os.makedirs(run)
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    conf = build()
    # 1. design models
    models = []
    for i, m in enumerate(c["models"]):
        mm = dict(m)
        if tier == "thorough" and "thorough_cfg" in m:
            mm["cfg"] = m["thorough_cfg"]
            mm["timeout"] = 3000
        if tier == "quick" and m.get("only") == "thorough":
            continue
        models.append(model_check(mm, "%s-mc%d" % (prop, i)))
    if c.get("exact") or tier == "thorough":
        models.append(exact_selftest(tier, prop))
    scn = [s for m in models for s in m["scn"]]
    scnf = os.path.join(run, "scn.ndjson")
    open(scnf, "w").write("".join(s + "\n" for s in scn))
    # 2. conformance runs, 3. validation
    total = dict(events=0, accepted=0, controls=0, ctl_rejected=0, traces=0)
    kinds, rejects, knowns, samples, skipped = {}, [], {}, [], 0
    jobs = []
    for fam in c["families"]:
        n = fam.get(tier, fam["quick"])
        shards = fam.get("shards_" + tier, fam.get("shards", NPROC))
        for s in range(shards):
            jobs.append((fam, n, s, shards))

    def job(j):
        fam, n, s, shards = j
        path = os.path.join(run, "%s-%d.ndjson" % (fam["family"], s))
        cmd = [conf, fam["family"], "--seed", str(seed), "--shard", str(s), "--shards", str(shards),
               "--count", str(n), "--prop", prop, "--scn", scnf, "--out", path]
        try:
            rc, out = sh(cmd, 300 if tier == "quick" else 7200)
        except Timeout:
            rc, out = -1, "the driven code did not terminate"
        if rc == 3 or rc < 0:
            # the driven code aborted, overflowed its stack, hung or panicked
            # where no call may panic
            return path, cmd, [json.dumps({"e": "crash", "rc": rc, "output": out[-500:]})], 0, \
                {"REJECT": [(1, "driven code crashed or hung")], "KNOWN": [], "CTLHIT": [], "SKIP": []}, {"crash": 1}
        if rc:
            raise ToolError("harness failed (%d): %s\n%s" % (rc, " ".join(cmd), out[-2000:]))
        nc = add_controls(path, seed * 1000 + s, fam.get("ctl_every", 60), fam.get("ctl_skip", ()))
        res = validate(fam["trace"], path, prop, "%s-%s-%d" % (prop, fam["family"], s),
                       840 if tier == "quick" else 20000, fam.get("heap", "2g"))
        lines = open(path).read().splitlines()
        kd = {}
        for ln in lines:
            if ',"ctl":true' in ln:
                continue
            k = ln[6:ln.index('"', 6)]
            kd[k] = kd.get(k, 0) + 1
        return path, cmd, lines, nc - res["DROPPED"], res, kd

    with ThreadPoolExecutor(NPROC) as ex:
        for path, cmd, lines, nc, res, kd in ex.map(job, jobs):
            total["traces"] += 1
            total["events"] += len(lines) - nc
            total["controls"] += nc
            total["ctl_rejected"] += len(res["CTLHIT"])
            skipped += len(res["SKIP"])
            for k in kd:
                kinds[k] = kinds.get(k, 0) + kd[k]
            for l, s in res["REJECT"]:
                rejects.append((path, l, s, lines[l - 1], cmd))
            for l, s in res["KNOWN"]:
                knowns.setdefault(s, []).append((path, l, lines[l - 1], cmd))
            if len(samples) < 4 and lines:
                samples.append(json.loads(lines[(len(lines) * 2) // 3]))
    total["accepted"] = total["events"] - len(rejects) - sum(len(v) for v in knowns.values())
    kf = {k["id"]: k for k in known()["known"] if k["property"] == prop}
    for s, v in knowns.items():
        if s in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[s]["what"]))
        else:
            rejects += [(p, l, s, ev, cmd) for p, l, ev, cmd in v]
    missing = [k for k in c.get("require", []) if kinds.get(k, 0) == 0]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(m["states"] for m in models),
            "transitions": sum(m["transitions"] for m in models),
            "models": [{k: v for k, v in m.items() if k != "scn"} | {"scenarios": len(m["scn"])} for m in models],
            "traces_validated_against_impl": total["traces"],
            "events_validated": total["accepted"],
            "events_by_kind": kinds,
            "scenarios_from_model_replayed": len(scn),
            "negative_controls": total["controls"],
            "negative_controls_rejected": total["ctl_rejected"],
            "samples": samples,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(rejects),
    }
    if knowns:
        ev["coverage"]["known_findings_seen"] = {k: len(v) for k, v in knowns.items()}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if rejects:
        path, l, s, line, cmd = rejects[0]
        rp = os.path.join(ROOT, "evidence", "replays", prop + ".json")
        json.dump({"property": prop, "rejected_event": json.loads(line), "reason": s,
                   "trace_line": l, "harness_cmd": cmd, "seed": seed, "tier": tier,
                   "rejected_total": len(rejects),
                   "more": [dict(reason=r[2], event=json.loads(r[3])) for r in rejects[1:20]]},
                  open(rp, "w"), indent=1)
        print("rejected %d of %d events; first: %s %s" % (len(rejects), total["events"], s, line[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if missing:
        raise ToolError("no event of kind %s was produced" % missing)
    if total["controls"] and total["ctl_rejected"] * 10 < total["controls"] * c.get("ctl_min", 3):
        raise ToolError("only %d of %d negative controls rejected" % (total["ctl_rejected"], total["controls"]))
    print("OK %s: %d states, %d events of %d traces conform, %d/%d controls rejected, %.1fs" % (
        prop, ev["coverage"]["states"], total["accepted"], total["traces"],
        total["ctl_rejected"], total["controls"], ev["wall_s"]))
    if "--keep" not in sys.argv:
        shutil.rmtree(run, ignore_errors=True)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("TOOL ERROR:", e)
        sys.exit(2)
