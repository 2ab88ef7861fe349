"""Path exploration of one unit: symbolic execution, obligations, witness replays."""

from __future__ import annotations

import json
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

from vsym import core, stubs
from vsym.core import BudgetExceeded, Engine, PathAbort, Sym, Unsupported, eval_sym, z3, z3num
from vsym.env import Failure, SymEnv

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Replayer:
    """Client of the concrete replay server."""

    def __init__(self):
        self.p = None
        self.ready = False
        self.start()

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        env["PYTHONPATH"] = os.pathsep.join([HERE, REPO])
        self.p = subprocess.Popen(
            [sys.executable, "-m", "vsym.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE if False else subprocess.DEVNULL,
            text=True, cwd=HERE, env=env,
        )  # fmt: skip
        self.ready = False

    def run(self, job):
        try:
            if not self.ready:
                if not self.p.stdout.readline().startswith("ready"):
                    raise OSError("replay server did not start")
                self.ready = True
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise OSError("replay server ended")
            return json.loads(line)
        except (OSError, ValueError) as e:
            try:
                self.p.kill()
            except OSError:
                pass
            self.start()
            return {"status": "error", "fails": [("replay error", str(e))], "observed": {}, "inputs": {}, "choices": {}}

    def stop(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:  # noqa: BLE001
            self.p.kill()


class Session:
    def __init__(self, prop, unit, tier, seed, replayer):
        self.prop, self.unit, self.tier, self.seed, self.rp = prop, unit, tier, seed, replayer
        self.rng = random.Random(seed * 7919 + hash_str(unit.name))
        self.done = set()
        self.open_obligations = []
        self.notes = []
        self.violation = None
        self.replays = 0
        self.validated = 0
        self.mismatch = 0
        self.samples = []
        self.concrete_runs = 0

    # ------------------------------------------------------------------ solving
    def _full(self, eng, extra, timeout):
        ids = set(extra.atoms) if extra is not None else set()
        for _, at in eng.constraints:
            ids |= at
        ids = eng.closure(ids)
        cs = []
        for i in sorted(ids):
            cs.extend(eng.atoms[i].defs())
        ids2 = eng.closure(ids)  # definitions may have created atoms
        while ids2 - ids:
            for i in sorted(ids2 - ids):
                cs.extend(eng.atoms[i].defs())
            ids = ids2
            ids2 = eng.closure(ids)
        cs.extend(e for e, _ in eng.constraints)
        if extra is not None:
            cs.append(extra.e)
        return cs, ids

    def solve(self, eng, bad):
        """Is `bad` possible on the current path?  ('unsat'|'sat'|'unknown', model)"""
        eng.check_time()
        eng._send(bad.atoms)
        t = time.time()
        left = max(2.0, min(20.0, eng.time_budget - (t - eng.t0)))
        if eng.lin_unsat(bad.e, timeout=2000):
            return "unsat", None
        try:
            eng.solver.set("timeout", 2500)
            r = eng.solver.check(bad.e)
            eng.stats["queries"] += 1
            if r == z3.sat:
                return "sat", eng.solver.model()
            if r == z3.unsat:
                return "unsat", None
            cs, ids = self._full(eng, bad, left)
            has_int = any(eng.atoms[i].is_int for i in ids)
            uf = any(eng.atoms[i].kind == "uf" for i in ids)
            tactics = []
            if not has_int and not uf:
                tactics.append(lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver())
            tactics.append(z3.Solver)
            for mk in tactics:
                s = mk()
                s.set("timeout", int(left * 1000 / len(tactics)))
                s.add(*cs)
                r = s.check()
                eng.stats["queries"] += 1
                if r == z3.sat:
                    return "sat", s.model()
                if r == z3.unsat:
                    return "unsat", None
            eng.stats["unknown"] += 1
            for _ in range(4):
                m = self.random_model(eng, bad)
                if m is not None:
                    return "sat", m
            return "unknown", None
        except z3.Z3Exception as e:
            self.notes.append(f"solver: {e}"[:120])
            return "unknown", None
        finally:
            eng.solver.set("timeout", 4000)
            eng.stats["solver_s"] += time.time() - t

    def random_model(self, eng, extra=None, checks=14):
        """A model of the path with inputs as generic as possible."""
        eng._send(range(len(eng.atoms)))
        if extra is not None:
            eng._send(extra.atoms)
        names = list(eng.inputs)
        self.rng.shuffle(names)
        eqs = []
        for n in names:
            a = eng.inputs[n]
            lo, hi = a.lo, a.hi
            if a.is_int:
                eqs.append(a.var == self.rng.randint(int(lo), int(hi)))
            elif a.square is not None:
                continue
            else:
                v = lo + (hi - lo) * Fraction(self.rng.randint(1, 999), 1000)
                eqs.append(a.var == core._zval(v.limit_denominator(10000)))
        base = [extra.e] if extra is not None else []
        fixed, todo, model = [], [eqs], None
        eng.solver.set("timeout", 1200)
        try:
            while todo and checks > 0:
                part = todo.pop(0)
                if not part:
                    continue
                checks -= 1
                t = time.time()
                r = eng.solver.check(*base, *fixed, *part)
                eng.stats["queries"] += 1
                eng.stats["solver_s"] += time.time() - t
                if r == z3.sat:
                    fixed += part
                    model = eng.solver.model()
                elif len(part) > 1:
                    h = len(part) // 2
                    todo += [part[:h], part[h:]]
            if model is None:
                r = eng.solver.check(*base)
                if r == z3.sat:
                    model = eng.solver.model()
            return model
        except z3.Z3Exception:
            return None
        finally:
            eng.solver.set("timeout", 4000)

    def model_inputs(self, eng, model):
        out = {}
        for n, a in eng.inputs.items():
            if model is None:
                continue
            v = z3num(model.eval(a.var, model_completion=True))
            if v is None:
                continue
            out[n] = repr(int(v)) if a.is_int else repr(float(v))
        return out

    # ------------------------------------------------------------------ replays
    def concrete(self, inputs, choices, seed=0, jitter=0.0):
        self.replays += 1
        return self.rp.run(
            {"property": self.prop, "unit": self.unit.name, "tier": self.tier, "inputs": inputs, "choices": choices, "seed": seed, "jitter": jitter}
        )

    def report(self, res, inputs, choices, label, how):
        self.violation = {
            "property": self.prop, "unit": self.unit.name, "tier": self.tier, "inputs": {**inputs, **{k: repr(v) for k, v in res["inputs"].items() if k not in inputs}},
            "choices": {**choices, **res.get("choices", {})}, "label": label, "fails": res["fails"], "found_by": how,
        }  # fmt: skip

    def candidate(self, eng, f: Failure):
        """Replay a candidate violation; returns True when the real code shows it."""
        tried = []
        for attempt in range(4):
            if attempt == 0 and f.model is not None:
                m = f.model
            else:
                m = self.random_model(eng, f.cond)
                if m is None and attempt == 0:
                    m = eng.quick_model()
            if m is None and eng.inputs:
                continue
            inputs = self.model_inputs(eng, m) if m is not None else {}
            if inputs in tried:
                continue
            tried.append(inputs)
            res = self.concrete(inputs, dict(eng.choices), seed=self.seed + attempt)
            if res["status"] == "fail":
                self.report(res, inputs, dict(eng.choices), f.label, "solver")
                return True
            if res["status"] == "error":
                self.notes.append("replay error: " + str(res["fails"])[-300:])
        self.notes.append(f"not reproduced: {f.label}: {f.detail}"[:300])
        return False

    def witness(self, eng, env, n=1):
        """Replay the path on the real code (validates the encoding, and the property concretely)."""
        for k in range(n):
            if self.concrete_runs >= self.unit.replay_cap:
                return False
            m = self.random_model(eng)
            if m is None:
                m = eng.quick_model()
            if m is None and eng.inputs:
                return False
            self.concrete_runs += 1
            inputs = self.model_inputs(eng, m) if m is not None else {}
            ch = dict(eng.choices)
            res = self.concrete(inputs, ch, seed=self.seed)
            if res["status"] == "fail":
                if self.robust(inputs, ch):
                    self.report(res, inputs, ch, res["fails"][0][0], "replay of a path witness")
                    return True
                self.notes.append("rounding-only difference: " + str(res["fails"][:1])[:200])
            elif res["status"] == "error":
                self.notes.append("replay error: " + str(res["fails"])[-400:])
            elif res["status"] == "pass":
                self.validate(eng, env, m, res["observed"])
            if len(self.samples) < 4 and res["status"] == "pass":
                self.samples.append({"choices": ch, "inputs": dict(list(inputs.items())[:6])})
        return False

    def robust(self, inputs, ch):
        for k in range(3):
            r = self.concrete(inputs, ch, seed=self.seed + 11 + k, jitter=1e-7)
            if r["status"] == "fail":
                return True
        return not inputs  # nothing to perturb

    def validate(self, eng, env, m, observed):
        ok = True
        uf = any(a.kind in ("uf", "round") for a in eng.atoms)
        if uf or m is None:
            self.validated += m is not None  # unknown functions: only the assertions were compared
            return
        for label, i, s in env.observed:
            vals = observed.get(label)
            if vals is None or i >= len(vals):
                continue
            try:
                v = float(eval_sym(s, m))
            except (Unsupported, ZeroDivisionError, OverflowError):
                continue
            if not abs(v - vals[i]) <= 1e-5 * max(1.0, abs(v)):
                ok = False
                self.notes.append(f"encoding differs at {label}[{i}]: {v} vs {vals[i]}"[:160])
                break
        self.validated += ok
        self.mismatch += not ok

    def degrade(self, eng, env, why):
        """The path left the encodable fragment: look at concrete runs only (inconclusive)."""
        self.notes.append(f"not encoded: {why}"[:200])
        eng.stats["unsupported"] = eng.stats.get("unsupported", 0) + 1
        for k in range(3):
            if self.concrete_runs >= self.unit.replay_cap:
                return False
            self.concrete_runs += 1
            m = self.random_model(eng)
            inputs = self.model_inputs(eng, m) if m is not None else {}
            ch = dict(eng.choices)
            res = self.concrete(inputs, ch, seed=self.seed + 101 * k + eng.stats["paths"])
            if res["status"] == "fail":
                full, fc = {q: repr(v) for q, v in res["inputs"].items()}, res["choices"]
                if self.robust(full, fc):
                    self.report(res, full, fc, res["fails"][0][0], "replay outside the encoded fragment")
                    return True
        return False

    def degrade_safe(self, eng, env, why):
        try:
            return self.degrade(eng, env, why)
        except BudgetExceeded:
            return False

    # ------------------------------------------------------------------ exploration
    def explore(self):
        u = self.unit
        stubs.STATE["identity"] = u.stub_symmetry
        eng = Engine(time_budget=u.budget, max_paths=u.max_paths, seed=self.seed)
        prefix = []
        complete = False
        t0 = time.time()
        unsupported = 0
        while True:
            if eng.stats["paths"] >= u.max_paths:
                self.notes.append("path limit reached")
                break
            eng.reset_path(prefix)
            eng._nmod = 0
            eng._nsh = 0
            stubs.STATE["equivalent"] = None
            env = SymEnv(eng, self)
            cwd = os.getcwd()
            try:
                os.chdir(env.scratch)
                try:
                    u.fn(env, **u.params)
                finally:
                    os.chdir(cwd)
                eng.stats["paths"] += 1
                if self.witness(eng, env):
                    break
            except Failure as f:
                eng.stats["paths"] += 1
                self.open_obligations.append(f"{f.label}: {f.detail} (not reproduced)"[:160])
                try:
                    if self.candidate(eng, f):
                        self.open_obligations.pop()
                        break
                    if self.degrade(eng, env, "unreproduced " + f.label):
                        break
                except BudgetExceeded:
                    self.notes.append("time budget reached")
                    break
            except PathAbort:
                eng.stats["aborted"] += 1
            except BudgetExceeded:
                self.notes.append("time budget reached")
                break
            except Unsupported as e:
                eng.stats["paths"] += 1
                unsupported += 1
                if os.environ.get("VSYM_DEBUG"):
                    traceback.print_exc()
                if self.degrade_safe(eng, env, str(e)):
                    break
            except z3.Z3Exception as e:
                eng.stats["paths"] += 1
                if self.degrade_safe(eng, env, f"z3: {e}"):
                    break
            except RecursionError as e:
                eng.stats["paths"] += 1
                if self.degrade_safe(eng, env, "recursion"):
                    break
            except Exception as e:  # noqa: BLE001
                eng.stats["paths"] += 1
                if os.environ.get("VSYM_DEBUG"):
                    traceback.print_exc()
                f = Failure("unexpected exception", f"{type(e).__name__}: {e}")
                try:
                    if self.candidate(eng, f):
                        break
                    if self.degrade(eng, env, f.detail):
                        break
                except BudgetExceeded:
                    break
            finally:
                env.close_env()
            try:
                prefix = eng.next_prefix()
            except BudgetExceeded:
                break
            if prefix is None:
                complete = True
                break
        if not complete and self.violation is None:
            self.sweep(eng)
        return {
            "unit": u.name, "bounds": u.bounds, "complete": complete, "stats": eng.stats, "open": self.open_obligations[:10], "n_open": len(self.open_obligations),
            "notes": self.notes[:8], "violation": self.violation, "replays": self.replays, "validated": self.validated, "mismatch": self.mismatch,
            "samples": self.samples, "seconds": round(time.time() - t0, 2),
        }  # fmt: skip

    def sweep(self, eng):
        """Budget exhausted: a few concrete runs over unexplored choices (reported as such, never as proof)."""
        for k in range(12):
            res = self.concrete({}, {}, seed=self.seed + 1000 + k)
            if res["status"] == "fail":
                full, fc = {q: repr(v) for q, v in res["inputs"].items()}, res["choices"]
                if self.robust(full, fc):
                    self.report(res, full, fc, res["fails"][0][0], "concrete run beyond the explored bound")
                    return


def hash_str(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h


# ------------------------------------------------------------------------------------ functions executed
class Coverage:
    """Functions of the project executed by the symbolic interpreter."""

    def __init__(self):
        self.seen = set()
        self.mon = sys.monitoring
        self.id = self.mon.PROFILER_ID
        self.mon.use_tool_id(self.id, "vsym")
        self.mon.register_callback(self.id, self.mon.events.PY_START, self._cb)
        self.mon.set_events(self.id, self.mon.events.PY_START)

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(REPO + "/ramannoodle") and code.co_name not in ("<module>", "<genexpr>", "<listcomp>", "<lambda>") and code.co_qualname.count("<") == 0:
            self.seen.add(f"{os.path.relpath(f, REPO)}:{code.co_qualname}")
        return self.mon.DISABLE


def slot_main():
    """One worker process: takes unit names on stdin, writes results on stdout."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    import warnings

    warnings.filterwarnings("ignore")
    sys.setrecursionlimit(20000)
    rp = Replayer()
    from vsym import harness, loader

    loader.install()
    cov = Coverage()
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        cov.seen.clear()
        cov.mon.restart_events()
        try:
            unit = harness.find_unit(job["property"], job["unit"], job["tier"])
            if unit.mode == "fp":
                from vsym import fpmode

                res = fpmode.run(job["property"], unit, job["tier"], job["seed"], rp)
            else:
                Engine(time_budget=1e9)  # module import may build constants
                res = Session(job["property"], unit, job["tier"], job["seed"], rp).explore()
        except BaseException as e:  # noqa: BLE001
            res = {"unit": job["unit"], "error": traceback.format_exc()[-2500:], "violation": None}
            if isinstance(e, (KeyboardInterrupt,)):
                raise
        res["functions"] = sorted(cov.seen)
        out.write(json.dumps(res) + "\n")
        out.flush()
    rp.stop()


if __name__ == "__main__":
    slot_main()
