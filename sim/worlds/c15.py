import copy
import json

from sim import gen, seams, text
from sim.core import Violation, attempt, ensure
from sim.proc import Fresh
from sim.worlds.base import World

EXC = {"OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class C15(World):
    warm = "text"
    quick_runs = 4500
    thorough_runs = 112000
    shrink_lists = ("steps",)
    rule = ("a run is a series of preprocess and vectorize calls with changing models and options, models missing then installed, loads and applications that fail or are interrupted; every completed call is "
            "compared with the same call made alone in a pristine process; non-trivial: a call after another one with a different model or options, or after a failed one")
    real = ("preprocess, vectorize, scikit-learn's TfidfVectorizer (real code)",)
    stub = ("spaCy language models (none is installed here): model-specific tokens, stop words, lemmas, dependency depths and vectors, honouring disabled components, with injected load and application faults",
            "new process (forked from the pristine state)")
    probes_wanted = ("preprocess", "spacy", "tfidf", "missing", "installed-later", "load-fault", "apply-fault", "abort", "default-model")
    assumptions = ("spaCy's interface as used: load by name with disabled components, call or pipe, tokens and vectors",)

    def generate(self, rng, tier, i):
        installed = sorted(m for m in text.MODELS if rng.chance(0.75))
        corpora = []
        for _ in range(rng.randint(1, 2)):
            corpora.append(text.corpus(rng, gen.id_pool(rng, rng.randint(1, 6))))
        steps = []
        for _ in range(rng.randint(2, 6)):
            if rng.chance(0.15):
                steps.append({"install": rng.choice(sorted(text.MODELS))})
                continue
            s = {"call": text.call_config(rng), "corpus": rng.randrange(len(corpora)), "fault": None}
            x = rng.random()
            if x < 0.15:
                s["fault"] = {"on": "load", "at": 0, "exc": rng.choice(sorted(EXC))}
            elif x < 0.25:
                s["fault"] = {"on": "apply", "at": rng.randrange(4), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            elif x < 0.37:
                s["fault"] = {"on": "line", "u": rng.u(), "u2": rng.u(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])}
            steps.append(s)
        return {"installed": installed, "corpora": corpora, "steps": steps}

    def execute(self, plan, ctx):
        text.REG.installed = set(plan["installed"])
        steps = plan["steps"]
        corpora = plan["corpora"]

        def alone(arg):
            cfg, fault, installed, k = arg
            text.REG.installed = set(installed)
            lines = None
            if fault and fault["on"] == "line":
                with seams.Profile() as prof:
                    attempt(text.call, cfg, dict(corpora[k]))
                return prof.pick(fault["u"], fault["u2"])
            tag, value = attempt(text.call, cfg, dict(corpora[k]))
            return [tag, text.plain(value)] if tag == "ok" else [tag, type(value).__name__, str(value)[:300]]

        helpers = [(Fresh(alone), Fresh(alone) if s.get("fault") and s["fault"]["on"] == "line" else None) if "call" in s else None for s in steps]
        previous, failed = None, set()
        for k, s in enumerate(steps):
            if "install" in s:
                text.REG.installed.add(s["install"])
                ctx.event("install", s["install"])
                continue
            cfg, fault = s["call"], s["fault"]
            where = "call %d: %r" % (k, cfg)
            texts = dict(corpora[s["corpus"]])
            before = copy.deepcopy(texts)
            model = cfg.get("model") or "fr_core_news_md"
            ctx.probe(cfg["fn"])
            if cfg["fn"] != "tfidf" and not cfg.get("model"):
                ctx.probe("default-model")
            want = helpers[k][0].call([cfg, None, sorted(text.REG.installed), s["corpus"]])
            if previous not in (None, cfg):
                ctx.nontrivial = True
            previous = cfg
            err, value, fired = None, None, False
            try:
                if fault and fault["on"] == "line":
                    at = helpers[k][1].call([cfg, fault, sorted(text.REG.installed), s["corpus"]])
                    abort = seams.Abort(at, EXC[fault["exc"]])
                    try:
                        with abort:
                            value = text.call(cfg, texts)
                    finally:
                        fired = abort.fired
                        if fired:
                            ctx.probe("abort")
                            ctx.fault("interrupt@line" if fault["exc"] == "KeyboardInterrupt" else "memory@line")
                else:
                    text.REG.arm(dict(fault, exc=EXC[fault["exc"]]) if fault else None)
                    try:
                        value = text.call(cfg, texts)
                    finally:
                        fired = bool(text.REG.fired)
                        if fired:
                            ctx.probe(fault["on"] + "-fault")
                            ctx.fault("model-%s:%s" % (fault["on"], fault["exc"]))
                        text.REG.arm(None)
            except (Violation,):
                raise
            except BaseException as e2:
                if not isinstance(e2, Exception) and not fired:
                    raise
                err = e2
            ensure(texts == before and list(texts) == list(before), "input-changed", lambda: "%s changed the given texts" % where)
            if err is not None:
                ctx.event(cfg, type(err).__name__, fired)
                ctx.nontrivial = True
                if fired and not (fault["on"] == "load" and fault["exc"] == "OSError"):
                    continue
                missing = fired or model not in text.REG.installed
                if cfg["fn"] != "tfidf" and missing:
                    ctx.probe("missing")
                    ensure(isinstance(err, ValueError) and model in str(err), "wrong-error", lambda: "%s with a model that cannot be loaded raised %s: %s" % (where, type(err).__name__, err))
                    failed.add(model)
                    continue
                ensure(want[0] == "err" and want[1] == type(err).__name__, "depends-on-earlier", lambda: "%s raised %s: %s; alone in a new process it gives %s" % (where, type(err).__name__, err, str(want)[:300]))
                continue
            got = json.loads(json.dumps(["ok", text.plain(value)]))
            ctx.event(cfg, got)
            ctx.state([cfg, got])
            ensure([x[0] for x in got[1]] == list(before), "wrong-entries", lambda: "%s returned entries %r for texts %r" % (where, [x[0] for x in got[1]], list(before)))
            ensure(got == want, "depends-on-earlier", lambda: "%s gives %s; alone in a new process it gives %s" % (where, str(got)[:500], str(want)[:500]))
            if model in failed and cfg["fn"] != "tfidf":
                ctx.probe("installed-later")

    def simplify(self, plan):
        for k, s in enumerate(plan["steps"]):
            if s.get("fault"):
                yield dict(plan, steps=plan["steps"][:k] + [dict(s, fault=None)] + plan["steps"][k + 1 :])
        for c, corpus in enumerate(plan["corpora"]):
            for x in corpus:
                if len(corpus) > 1:
                    yield dict(plan, corpora=plan["corpora"][:c] + [{y: t for y, t in corpus.items() if y != x}] + plan["corpora"][c + 1 :])


WORLD = C15()
