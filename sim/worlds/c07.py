import json
import os

from sim import gen, seams, sut
from sim.core import Violation, attempt, ensure, must
from sim.disk import SimDisk
from sim.model import CL, ML, Ref, check_core
from sim.worlds.base import World

ASCII = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ{}[]\":, \n\\_-."


def described(data):
    """What a file in the documented format describes: ("bad", why), ("session", Ref) or ("unspecified", why)."""
    try:
        doc = json.loads(data.decode("utf-8"))
    except (ValueError, RecursionError) as err:
        return "bad", "not JSON (%s)" % type(err).__name__
    if not isinstance(doc, dict) or "list_of_managed_data_IDs" not in doc or "list_of_added_constraints" not in doc:
        return "bad", "no session in it"
    ids, cons = doc["list_of_managed_data_IDs"], doc["list_of_added_constraints"]
    if ids is None or cons is None:
        return "bad", "no list"
    if not isinstance(ids, list) or not all(isinstance(x, str) for x in ids) or not isinstance(cons, list):
        return "unspecified", "other types"
    ref = Ref(ids)
    for c in cons:
        if not isinstance(c, dict):
            return "unspecified", "other types"
        if not all(k in c for k in ("data_ID1", "data_ID2", "constraint_type")):
            return "bad", "incomplete constraint"
        a, b, t = c["data_ID1"], c["data_ID2"], c["constraint_type"]
        if None in (a, b, t):
            return "bad", "incomplete constraint"
        if not all(isinstance(x, str) for x in (a, b, t)):
            return "unspecified", "other types"
        if ref.add_refused(a, b, t):
            return "bad", "constraint %r is contradictory, unknown or on unlisted data" % ([a, b, t],)
        ref.add(a, b, t)
    return "session", ref


class C07(World):
    quick_runs = 16000
    thorough_runs = 640000
    shrink_lists = ("episodes",)
    rule = ("a run is a series of loads from 1-2 paths of files saved by sessions and then cut, torn (head of one save, tail of another), zero-filled, overwritten with bytes that are not text, altered, emptied, removed or made contradictory, "
            "with read errors, short reads and interruptions injected while loading; non-trivial: at least one damaged file or failing read over a session with constraints")
    real = ("BinaryConstraintsManager.to_json and load_constraints_manager_from_json, Python's text and buffer layers, real scratch files",)
    stub = ("file descriptors' read/open (interposed, fault-injecting)", "damage to stored bytes (applied to the file between save and load)")
    probes_wanted = ("raised", "exact", "torn", "cut", "zeros", "binary", "contradictory", "read-error", "short-read", "abort", "other-valid-session")
    assumptions = ("the documented JSON format, with string identifiers; damage that turns identifiers into other JSON types is not judged",)

    def generate(self, rng, tier, i):
        n = gen.size(rng, (1, 6), (10, 24), 0.08, 0.02)
        pool = gen.id_pool(rng, n + 1)
        ref = Ref(pool[:n])
        episodes = []
        for _ in range(rng.randint(2, 6)):
            ops = gen.history(rng, ref, rng.randint(0, 6), pool, weights={"badtype": 0, "unknown": 0, "self": 0.2})
            damage = None
            if rng.chance(0.7):
                kind = rng.weighted([("cut", 3), ("torn", 3), ("zeros", 2), ("flip", 3), ("missing", 0.7), ("empty", 0.7), ("contradictory", 1.5), ("unlisted", 1), ("type", 1), ("drop-key", 1), ("null", 0.7),
                                     ("garbage-tail", 1), ("binary", 1.5), ("line-lost", 1.5), ("line-dup", 1)])
                damage = {"kind": kind, "u": rng.u(), "u2": rng.u(), "c": rng.choice(ASCII), "n": rng.choice([1, 1, 2, 5, 64])}
                if kind == "binary":
                    damage["byte"] = rng.choice([0x80, 0xC3, 0xED, 0xFE, 0xFF])
                if kind in ("contradictory", "unlisted"):
                    damage["a"], damage["b"] = rng.choice(pool), rng.choice(pool)
                if kind == "type":
                    damage["t"] = rng.choice(["", "must_link", "MUST_LINK ", "UNKNOWN", "MUST", "NO_LINK"])
            read = None
            x = rng.random()
            if x < 0.35:
                read = {"kind": rng.choice(["eio", "eacces", "emfile", "interrupt", "memory"]), "u": rng.u()}
            elif x < 0.5:
                read = {"short": rng.choice([1, 3, 17, 100])}
            elif x < 0.62:
                read = {"line": True, "u": rng.u(), "u2": rng.u(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            episodes.append({"ops": ops, "slot": rng.randrange(2), "writer": rng.choice(["session", "session", "format"]), "damage": damage, "read": read})
        return {"ids": pool[:n], "episodes": episodes, "buf": rng.choice([64, 512, 8192]), "chunk": rng.choice([64, 8192])}

    def _damage(self, data, old, d, ref):
        kind = d["kind"]
        at = min(int(d["u"] * len(data)), max(0, len(data) - 1))
        if kind == "cut":
            return data[:at]
        if kind == "torn":
            return data[:at] + (old or b"")[at:]
        if kind == "zeros":
            end = min(len(data), at + max(1, int(d["u2"] * 200)))
            return data[:at] + b"\0" * (end - at) + data[end:]
        if kind == "flip":
            out = bytearray(data)
            for k in range(d["n"]):
                if out:
                    out[(at + k * 37) % len(out)] = ord(d["c"])
            return bytes(out)
        if kind == "binary":
            if d["u2"] < 0.3:
                return data[:at] + bytes([d["byte"]]) * d["n"] + data[at:]
            return data[:at] + bytes([d["byte"]]) * min(d["n"], len(data) - at) + data[at + d["n"]:]
        if kind == "empty":
            return b""
        if kind == "garbage-tail":
            return data + (old or b"xx")[-max(1, d["n"]):]
        if kind in ("line-lost", "line-dup"):
            lines = data.split(b"\n")
            k = min(int(d["u"] * len(lines)), len(lines) - 1)
            lines[k : k + 1] = [] if kind == "line-lost" else [lines[k], lines[k]]
            return b"\n".join(lines)
        try:
            doc = json.loads(data)
            cons = doc["list_of_added_constraints"]
            ids = doc["list_of_managed_data_IDs"]
        except (ValueError, KeyError, TypeError):
            return data[:at]
        pos = int(d["u"] * (len(cons) + 1))
        if kind == "contradictory":
            a, b = d["a"], d["b"]
            if a not in ref.ids or b not in ref.ids:
                if not ref.ids:
                    return data[:at]
                a, b = ref.ids[int(d["u"] * len(ref.ids))], ref.ids[int(d["u2"] * len(ref.ids))]
            known = ref.inferred(a, b)
            t = CL if known == ML else ML
            if known is None:
                cons.insert(pos, {"data_ID1": a, "data_ID2": b, "constraint_type": CL, "constraints_value": 1.0})
            cons.insert(int(d["u2"] * (len(cons) + 1)), {"data_ID1": b, "data_ID2": a, "constraint_type": t, "constraints_value": 1.0})
        elif kind == "unlisted":
            if d["a"] in ids and d["u2"] < 0.6:
                ids.remove(d["a"])
            else:
                cons.insert(pos, {"data_ID1": d["a"], "data_ID2": "not listed", "constraint_type": ML, "constraints_value": 1.0})
        elif kind == "type":
            if cons:
                cons[pos % len(cons)]["constraint_type"] = d["t"]
        elif kind == "drop-key":
            if cons and d["u2"] < 0.6:
                c = cons[pos % len(cons)]
                c.pop(sorted(c)[int(d["u"] * len(c)) % len(c)])
            else:
                doc.pop(sorted(doc)[int(d["u"] * len(doc)) % len(doc)])
        elif kind == "null":
            if cons and d["u2"] < 0.6:
                cons[pos % len(cons)][("constraint_type", "data_ID1", "data_ID2")[int(d["u"] * 3) % 3]] = None
            else:
                doc[sorted(k for k in doc if k.startswith("list_"))[int(d["u"] * 2) % 2]] = None
        return json.dumps(doc, indent=1).encode()

    def execute(self, plan, ctx):
        root = os.path.join(ctx.scratch, "disk")
        os.makedirs(root)
        m = must("creating a manager", sut.new_manager, plan["ids"])
        ref = Ref(plan["ids"])
        disk = SimDisk(root, ctx, plan["buf"], plan["chunk"])
        previous = None
        with disk:
            for e, ep in enumerate(plan["episodes"]):
                where = "load %d" % e
                for op in ep["ops"]:
                    gen.apply_ref(ref, op)
                    attempt(gen.call_manager, m, op)
                path = os.path.join(root, "slot%d.json" % ep["slot"])
                disk.arm(None)
                if ep["writer"] == "session":
                    must(where + ": saving", m.to_json, path)
                    data = disk._content(path)
                else:
                    doc = {"list_of_managed_data_IDs": ref.ids, "list_of_added_constraints": [
                        {"data_ID1": a, "data_ID2": b, "constraint_type": t, "constraints_value": 1.0} for (a, b), t in ref.cons.items()]}
                    data = json.dumps(doc, indent=1).encode()
                    disk.put(path, data)
                d = ep["damage"]
                stored = data
                if d and d["kind"] == "missing":
                    if os.path.exists(path):
                        os.unlink(path)
                    stored = None
                elif d:
                    stored = self._damage(data, previous, d, ref)
                    disk.put(path, stored)
                if d and stored != data:
                    ctx.fault("damage:" + d["kind"])
                    ctx.probe(d["kind"])
                    ctx.nontrivial = ctx.nontrivial or len(ref.cons) > 0
                previous = data
                self._load(ctx, disk, path, data, stored, ref, ep["read"], where + (" of a file with damage %r" % (d,) if d else ""))
                check_core(m, ref, where + ", the other session in memory")
                # the next load of an intact file is not affected
                disk.arm(None)
                disk.put(path, data)
                again = must(where + ", then of the intact file", sut.load, path)
                check_core(again, ref, where + ", then of the intact file")
                ctx.state(ref.shape())

    def _load(self, ctx, disk, path, data, stored, ref, read, where):
        err, got, fired = None, None, None
        disk.arm_read(None)
        try:
            if read is None:
                got = sut.load(path)
            elif read.get("line"):
                with seams.Profile() as prof:
                    attempt(sut.load, path)
                k = prof.pick(read["u"], read["u2"])
                abort = seams.Abort(k, {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[read["exc"]])
                try:
                    with abort:
                        got = sut.load(path)
                finally:
                    if abort.fired:
                        fired = "abort"
                        ctx.fault("interrupt@line" if read["exc"] == "KeyboardInterrupt" else "memory@line")
                        ctx.probe("abort")
            elif read.get("short"):
                disk.arm_read({"short": read["short"]})
                ctx.probe("short-read")
                got = sut.load(path)
            else:
                disk.arm_read({"kind": None, "at": -1})
                attempt(sut.load, path)
                reads = disk.read_no
                disk.arm_read({"kind": read["kind"], "at": min(int(read["u"] * reads), max(0, reads - 1))})
                try:
                    got = sut.load(path)
                finally:
                    fired = disk.fired
                    if fired:
                        ctx.probe("read-error")
        except (Violation,):
            raise
        except Exception as e2:
            err = e2
        except KeyboardInterrupt as e2:
            if not fired:
                raise
            err = e2
        finally:
            disk.arm(None)
        ctx.event(where, type(err).__name__ if err else "loaded")
        ensure(disk._content(path) == stored, "file-changed", lambda: "%s changed the file" % where)
        if stored == data:
            if err is not None and not fired:
                raise Violation("intact-refused", "%s raised %s: %s although the file is intact" % (where, type(err).__name__, err))
            if got is not None:
                check_core(got, ref, where)
                ensure(list(got.get_list_of_managed_data_IDs()) == ref.ids, "wrong-data", lambda: "%s: data in another order" % where)
                ctx.probe("exact")
            return
        if err is not None:
            ctx.probe("raised")
            return
        if stored is None:
            raise Violation("loaded-from-nothing", "%s gave a session although the file is missing" % where)
        verdict, what = described(stored)
        if verdict == "bad":
            raise Violation("bad-file-accepted", "%s gave a session with data %r although it has %s" % (where, got.get_list_of_managed_data_IDs(), what))
        if verdict == "session":
            check_core(got, what, where + " (compared with what the file says)")
            ctx.probe("other-valid-session")

    def simplify(self, plan):
        for k, ep in enumerate(plan["episodes"]):
            for key in ("read", "damage"):
                if ep[key]:
                    eps = [dict(x) for x in plan["episodes"]]
                    eps[k][key] = None
                    yield dict(plan, episodes=eps)
            for j in range(len(ep["ops"])):
                eps = [dict(x) for x in plan["episodes"]]
                eps[k]["ops"] = ep["ops"][:j] + ep["ops"][j + 1 :]
                yield dict(plan, episodes=eps)


WORLD = C07()
