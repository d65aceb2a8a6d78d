"""Small real simulations, built by the repo's own constructor, in this process."""

import contextlib
import io
import json
import os

import numpy as np

from . import fakempi, kernels
from .core import HarnessGap
from .load import imp

BASE = {
    "bubble": {
        "equations": "euler", "grid_type": "cartesian2d", "x0": 0, "x1": 1000, "z0": 0, "z1": 1500,
        "case_number": 2, "bubble_theta": 303.15, "bubble_rad": 250.0, "dt": 1.0, "t_end": 10.0, "time_integrator": "tvdrk3",
        "num_solpts": 2, "num_elements_horizontal": 3, "num_elements_vertical": 4,
        "tolerance": 1e-10, "stat_freq": 0, "output_freq": 0, "save_state_freq": 0, "store_solver_stats": 0,
    },
    "sw": {
        "equations": "shallow_water", "grid_type": "cubed_sphere", "lambda0": 0.1, "phi0": 0.3, "alpha0": 0.2,
        "case_number": 6, "dt": 100.0, "t_end": 1000.0, "time_integrator": "tvdrk3", "num_solpts": 2,
        "num_elements_horizontal": 2, "tolerance": 1e-8, "stat_freq": 0, "output_freq": 0, "save_state_freq": 0,
        "store_solver_stats": 0,
    },
    "euler3d": {
        "equations": "euler", "grid_type": "cubed_sphere", "lambda0": 0.0, "phi0": 0.0, "alpha0": 0.0, "ztop": 10000.0,
        "case_number": 31, "dt": 1.0, "t_end": 10.0, "time_integrator": "tvdrk3", "num_solpts": 2,
        "num_elements_horizontal": 2, "num_elements_vertical": 2, "tolerance": 1e-7, "stat_freq": 0, "output_freq": 0,
        "save_state_freq": 0, "store_solver_stats": 0,
    },
}


def fields():
    com = imp("common")
    js = json.loads(open(com.default_schema_path).read())
    return [dict(f, section=s["name"]) for s in js.get("sections", []) for f in s["fields"]]


def text(kind, over=None, flds=None):
    flds = flds or fields()
    vals = dict(BASE[kind])
    vals.update(over or {})
    by = {f["name"]: f for f in flds}
    sec = {}
    for n, v in vals.items():
        if n not in by:
            raise HarnessGap(f"option {n} is not in the schema")
        sec.setdefault(by[n]["section"], []).append(f"{n} = {v}")
    return "".join(f"[{s}]\n" + "\n".join(o) + "\n" for s, o in sec.items())


def config(kind, over=None):
    com = imp("common")
    return com.Configuration(text(kind, over), com.load_default_schema())


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def simulation(kind, over=None, comm=None):
    kernels.use_build()
    S = imp("simulation")
    cfg = config(kind, over)
    try:
        return S.Simulation(cfg, **({"comm": comm} if comm is not None else {}))
    except Exception as e:
        e.vx_constructor = (kind, over)
        raise
