"""A fresh interpreter (its own string hashing) that answers plans read from its standard input, one forked run each."""
import json
import os
import sys

from sim import lane


def main():
    world = lane.get_world(sys.argv[1])
    scratch = sys.argv[2]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    lane.prepare(world)
    for line in sys.stdin:
        plan = json.loads(line)

        result = lane.run_forked(_Wrap(world), lambda: plan, os.path.join(scratch, "h%d" % os.getpid()))
        out.write(json.dumps({"ok": result["ok"], "kind": result.get("kind"), "detail": result.get("detail"), "answer": result.get("answer")}) + "\n")
        out.flush()


class _Wrap:
    """Runs `world.answer` in place of the whole run and carries the answer in the result."""

    def __init__(self, world):
        self.world = world

    def execute(self, plan, ctx):
        ctx.answer = self.world.answer(plan, ctx)


if __name__ == "__main__":
    main()
