"""Writes sim/golden: sessions saved by the release at the base commit (VERIF_REPO points to an export of it) and what they contain."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import gen, sut
from sim.core import Rng, attempt
from sim.model import Ref, check_core

sut.warm("constraints")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim", "golden")
for k in range(24):
    rng = Rng("golden", k)
    pool = gen.id_pool(rng, rng.choice([1, 3, 5, 8, 14]) + 2)
    ids = pool[:-2]
    m, ref = sut.new_manager(ids), Ref(ids)
    for op in gen.history(rng, Ref(ids), rng.choice([0, 5, 15, 40]), pool):
        gen.apply_ref(ref, op)
        attempt(gen.call_manager, m, op)
    check_core(m, ref, "golden")
    assert m.get_list_of_managed_data_IDs() == ref.ids
    m.to_json(os.path.join(out, "g%02d.saved.json" % k))
    with open(os.path.join(out, "g%02d.expected.json" % k), "w") as f:
        json.dump({"ids": ref.ids, "constraints": [[a, b, t] for (a, b), t in ref.cons.items()]}, f)
