"""Replay server: runs harnesses against the real project with the real libraries."""

import json
import os
import sys
import warnings

os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (HERE, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)


def setup():
    import spglib

    from vsym import stubs

    stubs.install_concrete(spglib)
    import torch

    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    import ramannoodle

    base = os.path.dirname(os.path.dirname(os.path.abspath(ramannoodle.__file__)))
    assert os.path.realpath(base) == os.path.realpath(REPO), f"wrong package: {base}"


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    from vsym import harness
    from vsym.env import run_concrete

    setup()
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        try:
            job = json.loads(line)
            unit = harness.find_unit(job["property"], job["unit"], job["tier"])
            from vsym import stubs

            stubs.STATE["identity"] = unit.stub_symmetry
            stubs.STATE["equivalent"] = None
            import numpy as np

            np.seterr(all="ignore")
            res = run_concrete(unit.fn, unit.params, job["inputs"], job["choices"], job.get("seed", 0), job.get("jitter", 0.0))
        except BaseException as e:  # noqa: BLE001
            import traceback

            res = {"status": "error", "fails": [("replay error", traceback.format_exc()[-1500:])], "observed": {}, "inputs": {}, "choices": {}}
            if isinstance(e, KeyboardInterrupt):
                raise
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
