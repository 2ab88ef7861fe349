"""Check one property: `python -m vsym.run S01 quick|thorough`."""

from __future__ import annotations

import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Slot:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        env["PYTHONPATH"] = HERE
        self.p = subprocess.Popen(
            [sys.executable, "-m", "vsym.explore"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=None if os.environ.get("VSYM_DEBUG") else subprocess.DEVNULL, text=True, cwd=HERE, env=env, start_new_session=True,
        )  # fmt: skip
        if not self.p.stdout.readline().startswith("ready"):
            raise OSError("slot did not start")

    def run(self, job, limit, stop):
        res = {}
        try:
            if self.p is None or self.p.poll() is not None:
                self.start()
        except OSError as e:
            return {"unit": job["unit"], "error": str(e), "violation": None}

        def io():
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                res.update(json.loads(line) if line else {"error": "slot ended"})
            except (OSError, ValueError) as e:
                res["error"] = str(e)

        t = threading.Thread(target=io, daemon=True)
        t.start()
        end = time.time() + limit
        while t.is_alive() and time.time() < end and not stop.is_set():
            t.join(0.5)
        if t.is_alive() or "error" in res and "unit" not in res:
            self.kill()
            t.join(5)
            return {"unit": job["unit"], "error": res.get("error", "stopped: another unit already violates the property" if stop.is_set() else "time limit"), "violation": None}
        return res

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, 9)
            except OSError:
                pass
            self.p.wait()
            self.p = None


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def matching_finding(known, v):
    return next((k for k in known if k["unit"] == v["unit"] and (not k.get("label") or k["label"] == v["label"])), None)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    from vsym import harness

    units = harness.units(prop, tier)
    if only:
        units = [u for u in units if only in u.name]
    total = 780.0 if tier == "quick" else 880.0
    q = queue.Queue()
    # longest first
    for u in sorted(units, key=lambda u: -u.budget):
        q.put(u)
    results = []
    lock = threading.Lock()
    stop = threading.Event()
    known = known_findings(prop)
    nslots = min(int(os.environ.get("VSYM_SLOTS", "8")), len(units))

    def work():
        s = Slot()
        try:
            while True:
                try:
                    u = q.get_nowait()
                except queue.Empty:
                    return
                left = total - (time.time() - t0)
                if stop.is_set():
                    r = {"unit": u.name, "error": "not started: another unit already violates the property", "violation": None}
                elif left < 5:
                    r = {"unit": u.name, "error": "not started: time limit", "violation": None}
                else:
                    r = s.run({"property": prop, "unit": u.name, "tier": tier, "seed": seed}, min(left, u.budget * 2 + 60), stop)
                with lock:
                    results.append(r)
                v = r.get("violation")
                if v and not matching_finding(known, v) and not os.environ.get("VSYM_ALL"):
                    stop.set()
        finally:
            s.kill()

    th = [threading.Thread(target=work) for _ in range(nslots)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    finish(prop, tier, seed, units, results, t0)


def finish(prop, tier, seed, units, results, t0):
    agg = {"paths": 0, "decisions": 0, "queries": 0, "solver_s": 0.0, "unknown": 0, "normal_form": 0, "obligations": 0, "aborted": 0, "unsupported": 0}
    funcs = set()
    bounds, inconclusive, notes, samples, viol = {}, [], [], [], []
    replays = validated = mismatch = 0
    for r in sorted(results, key=lambda r: r["unit"]):
        for k, v in r.get("stats", {}).items():
            agg[k] = agg.get(k, 0) + v
        funcs |= set(r.get("functions", []))
        if r.get("bounds"):
            bounds[r["unit"]] = r["bounds"][:400]
        why = []
        if r.get("error"):
            why.append(r["error"].strip().splitlines()[-1][:160])
        elif not r.get("complete") and not r.get("violation"):
            why.append("exploration incomplete")
        elif not r.get("violation") and r.get("stats", {}).get("paths") == 0:
            why.append("no path satisfies the assumptions")
        if r.get("n_open"):
            why.append(f"{r['n_open']} obligations undecided: {r['open'][:2]}"[:240])
        if r.get("stats", {}).get("unsupported"):
            why.append("part of the code not encoded: " + "; ".join(n for n in r["notes"] if n.startswith("not encoded"))[:200])
        if why:
            inconclusive.append({"unit": r["unit"], "why": why})
        if r.get("notes"):
            notes.append({"unit": r["unit"], "notes": [n[:160] for n in r["notes"][:3]]})
        samples += [{"unit": r["unit"], **s} for s in r.get("samples", [])[:1]]
        replays += r.get("replays", 0)
        validated += r.get("validated", 0)
        mismatch += r.get("mismatch", 0)
        if r.get("violation"):
            viol.append(r["violation"])
    known = known_findings(prop)
    kf_seen, real = [], []
    for v in viol:
        hit = matching_finding(known, v)
        (kf_seen if hit else real).append((v, hit))
    for v, hit in kf_seen:
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    code = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for n, (v, _) in enumerate(real):
        path = os.path.join(HERE, "replays", f"{prop}-{n}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  unit {v['unit']}: {v['label']}: {v['fails'][0][1] if v['fails'] else ''}"[:400])
        code = 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": max(1, agg["paths"]), "transitions": max(1, agg["decisions"] + agg["obligations"]), "traces_validated_against_impl": validated,
            "samples": samples[:6] or [{"unit": "none"}], "functions_encoded": sorted(funcs)[:120], "bounds": dict(list(bounds.items())[:60]),
            "units": len(units), "paths": agg["paths"], "infeasible_or_excluded_paths": agg["aborted"], "forks": agg["decisions"],
            "obligations": agg["obligations"], "discharged_by_normal_form_elements": agg["normal_form"], "solver_queries": agg["queries"],
            "solver_unknown": agg["unknown"], "solver_seconds": round(agg["solver_s"], 2), "concrete_replays": replays,
            "encoding_mismatches": mismatch, "inconclusive": inconclusive[:30], "known_findings_seen": [h["what"][:200] for _, h in kf_seen],
            "assumptions": ["real arithmetic in place of IEEE doubles (replays run on doubles)", "libraries numpy/scipy/torch replaced by exact models; every path witness is replayed on the real ones"],
            "notes": notes[:20],
        },
    }  # fmt: skip
    if code:
        ev["coverage"]["violations"] = len(real)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["bounds"] = dict(list(bounds.items())[:15])
        ev["coverage"]["notes"] = []
        ev["coverage"]["inconclusive"] = inconclusive[:8]
        txt = json.dumps(ev, indent=1)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        f.write(txt)
    print(
        f"{prop} {tier}: {len(units)} units, {agg['paths']} paths, {agg['obligations']} obligations, {agg['queries']} queries ({agg['solver_s']:.1f}s solver), "
        f"{replays} replays ({validated} validated, {mismatch} mismatching), {len(inconclusive)} inconclusive units, {time.time()-t0:.1f}s"
    )
    if os.environ.get("VSYM_VERBOSE"):
        for i in inconclusive:
            print("  inconclusive", i)
        for n in notes:
            print("  note", n)
        for r in results:
            print("  unit", r["unit"], r.get("seconds"), {k: v for k, v in (r.get("stats") or {}).items()} if r.get("stats") else r.get("error", "")[-800:])
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
