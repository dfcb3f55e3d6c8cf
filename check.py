#!/usr/bin/env python3
"""Runs the check of one property (see DESIGN.md).

check.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--family F]

Exit 0: property held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: error of the check itself.
"""
import argparse, array, json, os, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
from registry import REGISTRY

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "LC_ALL": "C.UTF-8",
    "QT_QPA_PLATFORM": "offscreen",
    "QT_HASH_SEED": "0",
})


def spec_of(prop):
    from spec import PROPS
    return next((p for p in PROPS if p["id"] == prop), {})


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            fields = line[len("known:"):].strip().split(None, 2)
            d = dict(f.split("=", 1) for f in fields[:2])
            if d.get("property") == prop:
                out[d["key"]] = fields[2] if len(fields) > 2 else ""
    return out


def read_shm(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return "", ""
    return (b[:256].split(b"\0")[0].decode(errors="replace"),
            b[256:].split(b"\0")[0].decode(errors="replace"))


class Runner:
    def __init__(self, prop, cfg, tier, seed, work):
        self.prop, self.cfg, self.tier, self.seed, self.work = prop, cfg, tier, seed, work

    def start(self, exe, args, tag):
        out = os.path.join(self.work, tag + ".json")
        shm = os.path.join(self.work, tag + ".shm")
        err = os.path.join(self.work, tag + ".err")
        cwd = os.path.join(self.work, tag + ".cwd")
        os.makedirs(cwd, exist_ok=True)
        cmd = [exe, "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed),
               "--out", out, "--shm", shm] + args
        f = open(err, "wb")
        p = subprocess.Popen(cmd, stdout=f, stderr=f, stdin=subprocess.DEVNULL, env=ENV, cwd=cwd)
        return {"p": p, "out": out, "shm": shm, "err": err, "tag": tag}

    def finish(self, h, timeout=None):
        hung = False
        try:
            rc = h["p"].wait(timeout)
        except subprocess.TimeoutExpired:
            h["p"].kill()
            rc = h["p"].wait()
            hung = True
        cid, desc = read_shm(h["shm"])
        err = open(h["err"], "rb").read().decode(errors="replace")
        res = None
        if rc == 0 and os.path.exists(h["out"]):
            res = json.load(open(h["out"]))
            a = array.array("Q")
            a.frombytes(open(h["out"] + ".hash", "rb").read())
            res["hashes"] = set(a)
        return {"rc": rc, "hung": hung or rc == 97, "id": cid, "desc": desc, "err": err, "res": res}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--family", default="")
    a = ap.parse_args()
    prop = a.prop
    cfg = REGISTRY[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        prof = cfg.get("profile", "asan")
        if isinstance(prof, dict):
            prof = prof[a.tier]
        exe = B.build(cfg["harness"], prof,
                      extra_flags=[B.subst(s) for s in cfg.get("flags", [])],
                      extra_sources=[B.subst(s) for s in cfg.get("sources", [])],
                      libs=cfg.get("libs", ["-lpugixml"]), qt=cfg.get("qt", False))
    except B.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    try:
        return go(prop, cfg, a, seed, exe, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def report(prop, tier, kind, cid, text, err=""):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.json" % (prop, n))):
        n += 1
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    json.dump({"property": prop, "tier": tier, "kind": kind, "case": cid, "text": text, "stderr": err[-8000:],
               "how": "python3 /verif/check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
    print("---- %s case %s (%s)" % (prop, cid, kind))
    print(text[:4000])
    if err:
        print(err[:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def go(prop, cfg, a, seed, exe, work, t0, t_build):
    tier = a.tier
    R = Runner(prop, cfg, tier, seed, work)
    known = known_findings(prop)
    ct = cfg.get("case_timeout", 30)
    if isinstance(ct, dict):
        ct = ct[tier]
    if a.replay:
        rp = json.load(open(a.replay))
        R.tier = rp["tier"]
        r = R.finish(R.start(exe, ["--only", rp["case"], "--case-timeout", str(ct * 4)], "replay"))
        bad = r["rc"] != 0 or r["res"]["failures"]
        print(r["desc"])
        print(r["err"][-6000:])
        if r["res"]:
            for f in r["res"]["failures"]:
                print(f["text"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    budget = cfg.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    n = a.jobs
    base = ["--deadline", str(budget), "--case-timeout", str(ct)]
    if known:
        base += ["--known", ",".join(known)]
    if a.family:
        base += ["--family", a.family]
    hs = [R.start(exe, base + ["--shard", "%d/%d" % (i, n)], "s%d" % i) for i in range(n)]
    results = [R.finish(h, budget + ct + 60) for h in hs]

    agg = {"cases": 0, "nontrivial": 0, "states": 0, "transitions": 0, "traces": 0}
    hashes = set()
    counters, samples, failures = {}, [], []
    capped, capped_at = False, []
    crashes = []
    enumerated = 0
    for i, r in enumerate(results):
        if r["res"] is None:
            crashes.append((i, r))
            continue
        for k in agg:
            agg[k] += r["res"][k]
        hashes |= r["res"]["hashes"]
        enumerated = max(enumerated, r["res"]["enumerated"])
        for k, v in r["res"]["counters"].items():
            counters[k] = counters.get(k, 0) + v
        samples += r["res"]["samples"]
        failures += [dict(f, shard=i) for f in r["res"]["failures"]]
        if r["res"]["capped"]:
            capped = True
            capped_at.append(r["res"]["capped_at"])

    violations = 0
    seen_known = {}
    for r in results:
        for k, v in ((r["res"] or {}).get("known") or {}).items():
            seen_known[k] = seen_known.get(k, 0) + v

    def again_at_all(case, shard):
        for k in range(2):
            for how in (["--only", case], ["--shard", "%d/%d" % (shard, n), "--upto", case]):
                x = R.finish(R.start(exe, how + ["--case-timeout", str(ct * 4)], "a%d" % k), budget * 2 + 60)
                if x["rc"] != 0 or x["res"]["failures"]:
                    return True
        return False

    # Crashes and hangs: replay alone, then as the shard ran it.
    for i, r in crashes:
        if not r["id"]:
            print("harness error (no case running): rc=%s\n%s" % (r["rc"], r["err"][-3000:]))
            return 2
        kind = "hang" if r["hung"] else "crash"
        rr = R.finish(R.start(exe, ["--only", r["id"], "--case-timeout", str(ct * 4)], "c%d" % i), ct * 4 + 60)
        if rr["rc"] == 0 and not rr["res"]["failures"]:
            rr = R.finish(R.start(exe, ["--shard", "%d/%d" % (i, n), "--upto", r["id"], "--case-timeout", str(ct * 4)], "d%d" % i), budget * 2 + 60)
            if rr["rc"] == 0 and not rr["res"]["failures"]:
                if kind == "hang":
                    print("note: case %s was slow once, but completes when re-run" % r["id"])
                    continue
                if not again_at_all(r["id"], i):
                    if r["rc"] == -9:
                        print("harness error: case %s was killed\n%s" % (r["id"], r["err"][-3000:]))
                        return 2
                    kind += " (not at every run)"
        key = kind
        if rr["res"] and rr["res"]["failures"]:
            key = rr["res"]["failures"][0]["key"]
        if key in known:
            seen_known[key] = seen_known.get(key, 0) + 1
            continue
        violations += 1
        if violations <= 3:
            report(prop, tier, kind, r["id"], r["desc"], r["err"])

    confirmed_keys = {}
    for f in failures:
        if f["key"] and f["key"] in known:
            seen_known[f["key"]] = seen_known.get(f["key"], 0) + 1
            continue
        violations += 1
        if violations > 3:
            continue
        # Replay before report.
        rr = R.finish(R.start(exe, ["--only", f["id"], "--case-timeout", str(ct * 4)], "f%d" % violations), ct * 4 + 60)
        alone = rr["rc"] != 0 or rr["res"]["failures"]
        if not alone:
            rr = R.finish(R.start(exe, ["--shard", "%d/%d" % (f["shard"], n), "--upto", f["id"], "--case-timeout", str(ct * 4)], "g%d" % violations), budget * 2 + 60)
            again = rr["rc"] != 0 or any(x["id"] == f["id"] for x in rr["res"]["failures"])
            if not again and not again_at_all(f["id"], f["shard"]):
                # What the code does depends on where its memory is, for instance.
                report(prop, tier, "failure (not at every run)", f["id"], f["text"])
                continue
        report(prop, tier, "failure" if alone else "failure (depends on earlier cases of its shard)", f["id"], f["text"])

    for k, cnt in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%s, %d explored cases)" % (prop, known[k], k, cnt))

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec_of(prop).get("level", "model_checking"),
        "coverage": {
            # Distinct observed states: counted by the harness's own search when it
            # deduplicates, by hashing what each execution ends with otherwise.
            "states": agg["states"] or len(hashes), "transitions": agg["transitions"],
            "traces_validated_against_impl": agg["traces"] or agg["cases"],
            "nontrivial_traces": agg["nontrivial"],
            "exhaustive": (not capped) and not crashes and not a.family,
            "bound": spec_of(prop).get("bound", {}).get(tier, ""),
            "samples": samples[:8] or ["(none)"],
            "counters": counters,
        },
        "assumptions": [spec_of(prop).get("note", "")],
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if capped:
        ev["coverage"]["capped_at"] = capped_at
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print("%s %s: %d executions, %d states, %d transitions, %d traces replayed, %d outcomes%s; build %.0fs, total %.0fs, violations %d"
          % (prop, tier, agg["cases"], agg["states"], agg["transitions"], agg["traces"], len(hashes),
             " CAPPED at " + ",".join(capped_at) if capped else "", t_build, time.time() - t0, violations))
    if agg["cases"] == 0 and not violations:
        print("harness error: nothing explored")
        return 2
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
