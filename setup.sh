#!/bin/sh
# Nothing to build: the checks import /repo/src directly. Verifies that what they need is present.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
from sim import lane, sut
import sim.runner, sim.shrink, sim.hashphase
for k in range(1, 21):
    lane.make_plan(lane.get_world("C%02d" % k), "C%02d" % k, 1, 0, "quick")
sut.warm("text")
print("ready")
P
