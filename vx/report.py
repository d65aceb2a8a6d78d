"""Collects obligations, bounded checks and violations of one property; writes the evidence file; decides the exit."""

import json
import os
import signal
import sys
import time
import traceback

from . import core
from .core import Unsupported, HarnessGap, explore

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")


class UnitTimeout(BaseException):
    pass


# a quick run answers within 900 s: what the deductive units have not reached by then is reported as undecided
SYMBOLIC_S, CONCRETE_S = 480, 780


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obligations = []  # dicts
        self.refuted = []
        self.undecided = []
        self.bounded = []  # dicts: label, cases, bound
        self.failures = []  # concrete violations
        self.functions = set()
        self.assumptions = []
        self.trusted = []
        self.paths = 0
        self.samples = []
        self.solver_s = 0.0
        self.bounded_cases = 0
        self.known = load_known(pid)
        self.known_hit = {}
        self._unit = None
        self.notes = []

    thorough = property(lambda s: s.tier == "thorough")

    # ------------------------------------------------------------------------------------------------ declarations
    def under_contract(self, *names):
        self.functions.update(names)

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *texts):
        for t in texts:
            if t not in self.trusted:
                self.trusted.append(t)

    # -------------------------------------------------------------------------------------------------- obligations
    def obligation(self, c, label, cond, kind="post", backends=None, timeout_ms=None, info=None):
        if os.environ.get("VX_TRACE"):
            print("   ob", label, file=sys.stderr, flush=True)
        term = core.to_bool_term(cond)
        st, backend, dt, model = core.decide(c.pc, term, timeout_ms or c.timeout_ms, backends)
        self.solver_s += dt
        rec = {"unit": c.unit, "label": label, "status": st, "backend": backend, "s": round(dt, 4), "kind": kind}
        self.obligations.append(rec)
        if st == "refuted":
            rec["model"] = core.model_inputs(c, model)
            if info:
                rec["info"] = info
            if kind == "post":
                self.refuted.append(rec)
            else:
                self.undecided.append(f"{c.unit}: {label} (auxiliary obligation refuted)")
        elif st == "unknown":
            self.undecided.append(f"{c.unit}: {label} (solver gave no answer)")
        return st == "proved"

    def direct(self, unit, label, ok, backend="evaluation", detail=None):
        """An obligation with no free variable left: decided by evaluation of exact values."""
        rec = {"unit": unit, "label": label, "status": "proved" if ok else "refuted", "backend": backend, "s": 0.0, "kind": "post"}
        self.obligations.append(rec)
        if not ok:
            rec["model"] = detail or {}
            self.refuted.append(rec)
        return ok

    # -------------------------------------------------------------------------------------------------------- units
    def _budget(self, name, budget_s, share):
        if self.thorough:
            return budget_s
        left = self.t0 + share - time.time()
        if left < 1:
            self.undecided.append(f"{name}: not reached within the time of a quick run")
            return None
        return min(budget_s, left)

    def symbolic(self, name, fn, timeout_ms=8000, max_paths=4000, budget_s=None):
        """fn(ctx) executes the real code on symbolic inputs and calls ctx.prove."""
        budget_s = self._budget(name, budget_s or (600 if self.thorough else 150), SYMBOLIC_S)
        if budget_s is None:
            return
        n0 = len(self.obligations)
        t0 = time.time()
        try:
            with _Alarm(budget_s):
                explore(self, name, fn, max_paths=max_paths, timeout_ms=timeout_ms, budget_s=budget_s)
        except (Unsupported, HarnessGap, UnitTimeout) as e:
            self.undecided.append(f"{name}: not within reach on this tree ({type(e).__name__}: {e})")
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
        except (Exception, SystemExit) as e:  # the code or the harness raised something the contract does not speak of
            self.undecided.append(f"{name}: symbolic run ended with {type(e).__name__}: {e}")
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
        if len(self.obligations) == n0:
            self.undecided.append(f"{name}: no obligation was generated")
        if os.environ.get("VX_DEBUG"):
            print(f"  [{name}] {len(self.obligations) - n0} obligations {time.time() - t0:.1f}s", file=sys.stderr)

    def concrete(self, name, fn, bound="", budget_s=None):
        """fn(check) runs the real code on concrete inputs: the bounded stand-in / replay of the contracts."""
        budget_s = self._budget(name, budget_s or (900 if self.thorough else 150), CONCRETE_S)
        if budget_s is None:
            return
        ck = Checker(self, name)
        t0 = time.time()
        try:
            with _Alarm(budget_s):
                fn(ck)
        except (Unsupported, HarnessGap, UnitTimeout) as e:
            self.undecided.append(f"{name}: bounded check incomplete ({type(e).__name__}: {e})")
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
        except (Exception, SystemExit) as e:
            where, text = blame(e)
            if os.environ.get("VX_DEBUG"):
                traceback.print_exc()
            if where == "repo":
                ck.fail("unexpected exception", {"exception": f"{type(e).__name__}: {e}", "input": ck.current}, text)
            elif judged(e):
                ck.fail("a result has another shape than the contract says", {"exception": str(e), "input": ck.current}, text)
            else:
                self.undecided.append(f"{name}: harness does not fit this tree ({type(e).__name__}: {e})")
        self.bounded.append({"unit": name, "cases": ck.n, "bound": bound, "s": round(time.time() - t0, 2)})
        self.bounded_cases += ck.n
        if os.environ.get("VX_DEBUG"):
            print(f"  <{name}> {ck.n} cases {time.time() - t0:.1f}s", file=sys.stderr)

    def record_failure(self, unit, label, inputs, output):
        key = f"{unit}: {label}"
        for k in self.known:
            if k.get("unit") == unit and (k.get("label") is None or k["label"] == label):
                self.known_hit.setdefault(k["what"], 0)
                self.known_hit[k["what"]] += 1
                return
        if len([f for f in self.failures if f["obligation"] == key]) < 3:
            self.failures.append({"obligation": key, "input": inputs, "output": output})

    # ------------------------------------------------------------------------------------------------------- ending
    def finish(self):
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        disch = sum(1 for o in self.obligations if o["status"] == "proved")
        by = {}
        for o in self.obligations:
            if o["status"] == "proved":
                by[o["backend"]] = by.get(o["backend"], 0) + 1
        refuted = []
        for r in self.refuted:
            key = f'{r["unit"]}: {r["label"]}'
            k = next((k for k in self.known if k.get("unit") == r["unit"] and k.get("label") in (None, r["label"])), None)
            if k:
                self.known_hit[k["what"]] = self.known_hit.get(k["what"], 0) + 1
            else:
                refuted.append((key, r))
        viol = len(self.failures) + len(refuted)
        units = sorted({o["unit"] for o in self.obligations})
        cov = {
            "obligations": len(self.obligations),
            "discharged": disch,
            "checker_cmd": f"/verif/check {self.pid} --tier {self.tier}",
            "trusted_base": self.trusted
            + [
                "CPython and numpy execute the real functions of /repo; the vx proxies implement Python operator semantics",
                "z3 5.3, cvc5 1.1, sympy polynomial arithmetic",
            ],
            "functions_under_contract": sorted(self.functions),
            "backends": by,
            "solver_s": round(self.solver_s, 2),
            "paths": self.paths,
            "proof_units": units,
            "refuted": [k for k, _ in refuted],
            "undecided": self.undecided[:40],
            "bounded_stand_ins": self.bounded,
            "bounded_cases": self.bounded_cases,
            "samples": self.samples[:5] + [
                {k: o[k] for k in ("unit", "label", "backend")} for o in self.obligations[:3]
            ],
        }
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "proof" if self.obligations else "other",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": viol,
        }
        if not self.obligations:
            cov["explanation"] = "no obligation could be generated on this tree; only the bounded stand-ins ran"
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for what in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        for u in self.undecided[:20]:
            print(f"UNDECIDED: {u}")
        code = 0
        if self.failures or refuted:
            path = os.path.join(out, f"{self.pid}.replay.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": self.pid,
                        "failed_obligations": [f_["obligation"] for f_ in self.failures] + [k for k, _ in refuted],
                        "concrete": self.failures,
                        "verifier_output": [r for _, r in refuted][:20],
                        "replay": f"/verif/check {self.pid} --tier {self.tier} with VERIF_SEED={self.seed}",
                    },
                    f,
                    indent=1,
                    default=str,
                )
            for f_ in self.failures[:3]:
                print("  failing:", f_["obligation"], json.dumps(f_["input"], default=str)[:400], str(f_["output"])[:400])
            for k, r in refuted[:5]:
                print("  refuted:", k, json.dumps(r.get("model", {}), default=str)[:300])
            tail = "" if self.failures else " no-failing-input-found"
            print(f"VIOLATION property={self.pid} replay={path}{tail}")
            code = 1
        print(
            f"{self.pid} [{self.tier}] obligations={len(self.obligations)} discharged={disch} "
            f"bounded_cases={self.bounded_cases} undecided={len(self.undecided)} violations={viol} "
            f"wall={time.time() - self.t0:.1f}s"
        )
        sys.stdout.flush()
        return code


class Checker:
    """Concrete contract monitor of one unit."""

    def __init__(self, report, unit):
        self.report, self.unit, self.n, self.current = report, unit, 0, None

    def case(self, **inputs):
        self.current = inputs
        self.n += 1

    def fail(self, label, inputs=None, output=None):
        self.report.record_failure(self.unit, label, inputs if inputs is not None else self.current, output)

    def check(self, label, ok, output=None):
        if not bool(ok):
            self.fail(label, None, output() if callable(output) else output)
        return bool(ok)

    def call(self, fn, *a, **k):
        """Call repo code that must not raise."""
        return fn(*a, **k)


def judged(e):
    """Two shapes that do not go together, found while a check compares a result with what is expected."""
    if not isinstance(e, ValueError) or "broadcast" not in str(e):
        return False
    import ast

    here = os.path.dirname(os.path.abspath(__file__))
    spot = None
    tb = e.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(here + os.sep):
            spot = (f, tb.tb_lineno)
        tb = tb.tb_next
    if spot is None:
        return False
    with open(spot[0]) as h:
        tree = ast.parse(h.read())
    for node in ast.walk(tree):
        if isinstance(node, ast.Expr) and node.lineno <= spot[1] <= node.end_lineno:
            c = node.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "check":
                return True
        if isinstance(node, ast.Assign) and node.lineno <= spot[1] <= node.end_lineno:
            if any(isinstance(t, ast.Name) and t.id in ("err", "diff", "ok") for t in node.targets):
                return True
    return False


def blame(e):
    """Which side raised?  'repo' when the deepest frame that belongs to /repo or /verif lies in /repo."""
    where = "verif"
    tb = traceback.extract_tb(e.__traceback__)
    for fr in tb:
        if fr.filename.startswith(REPO + "/"):
            where = "repo"
        elif fr.filename.startswith(VERIF + "/") and not (type(e).__name__ == "MPIError" and fr.filename.endswith("/fakempi.py")):
            where = "verif"
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
    return where, text


class _Alarm:
    def __init__(self, s):
        self.s = max(1, int(s))

    def __enter__(self):
        waited = [0]

        def h(_, frame):
            # never inside the solver's bindings: an object between creation and its reference count would be freed twice
            f = frame
            while f is not None and waited[0] < 200:
                if "/z3/" in f.f_code.co_filename or "/cvc5/" in f.f_code.co_filename:
                    waited[0] += 1
                    signal.setitimer(signal.ITIMER_REAL, 0.03)
                    return
                f = f.f_back
            raise UnitTimeout(f"{self.s} s")

        try:
            self.old = signal.signal(signal.SIGALRM, h)
            left = signal.alarm(self.s)
            self.left, self.t = left, time.time()
        except ValueError:
            self.old = None

    def __exit__(self, *a):
        if self.old is not None:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, self.old)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "known"]
