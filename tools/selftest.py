"""Determinism of the simulator: the same seed gives the same event logs.

python tools/selftest.py [--props C01,C07] [--seeds 1,2] [--count 48]

Every property is run per seed with 8 workers, with 3 workers and another
PYTHONHASHSEED, and once more; all event-log digests must agree.
"""
import argparse
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--props", default=",".join(f"C{i:02d}" for i in range(1, 18)))
ap.add_argument("--seeds", default="1,2")
ap.add_argument("--count", type=int, default=48)
a = ap.parse_args()
bad = 0
for prop in a.props.split(","):
    for seed in a.seeds.split(","):
        logs = []
        for workers, hashseed in ((8, "0"), (3, "4711"), (8, "99")):
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "digests")
                subprocess.run(
                    ["/opt/venv/bin/python", "-m", "sim.check", prop, "--seed", seed, "--count",
                     str(a.count), "--workers", str(workers), "--digests", f, "--no-evidence"],
                    cwd=HERE, env={**os.environ, "PYTHONHASHSEED": hashseed},
                    stdout=subprocess.DEVNULL)
                with open(f) as g:
                    logs.append(g.read().splitlines())
        n = sum(len({z[i] for z in logs}) != 1 for i in range(len(logs[0]))) \
            if len({len(z) for z in logs}) == 1 else -1
        bad += n != 0
        print(prop, "seed", seed, "runs", len(logs[0]), "differing", n, flush=True)
sys.exit(bad != 0)
