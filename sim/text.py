"""Stand-in for installed spaCy language models: each has its own tokens, stop words, lemmas and vectors, honours `disable`,
and can be missing, fail or be interrupted while it is loaded or applied."""
import contextlib
import hashlib
import re

MODELS = {
    "fr_core_news_md": {"stop": {"de", "la", "le", "un", "une", "est"}, "dim": 4, "split": r"\s+|\w+|[^\w\s]"},
    "en_core_web_sm": {"stop": {"the", "a", "is", "of", "un"}, "dim": 3, "split": r"\s+|[a-z]+|\d+|[^\sa-z\d]+"},
    "de_core_news_lg": {"stop": {"der", "die", "ist"}, "dim": 5, "split": r"\s+|\S+"},
    "fr_core_news_lg": {"stop": {"de", "la", "carte"}, "dim": 4, "split": r"\s+|\w+|[^\w\s]"},
}
NEEDED = {"lemma": ("lemmatizer",), "tree": ("parser",), "pos": ("morphologizer", "attribute_ruler")}


class Registry:
    def __init__(self):
        self.installed = set(MODELS)
        self.faults = []  # [{"on": "load"|"apply", "at": k, "exc": class}]
        self.calls = {"load": 0, "apply": 0}
        self.fired = []

    def arm(self, fault):
        self.calls = {"load": 0, "apply": 0}
        self.faults = [fault] if fault else []
        self.fired = []

    def step(self, what):
        k = self.calls[what]
        self.calls[what] += 1
        for f in self.faults:
            if f["on"] == what and f["at"] == k:
                self.fired.append(what)
                raise f["exc"]("[injected] %s" % what)


REG = Registry()


class Vocab:
    def __init__(self, name):
        self.name = name


class Token:
    def __init__(self, doc, i, text):
        self.doc, self.i, self.text, self.orth_ = doc, i, text, text
        self.lower_ = text.lower()

    @property
    def is_space(self):
        return self.text.isspace()

    @property
    def is_punct(self):
        return all(not c.isalnum() for c in self.text) and not self.text.isspace()

    @property
    def is_quote(self):
        return self.text in ('"', "'", "«", "»", "“", "”", "‘", "’")

    @property
    def is_alpha(self):
        return self.text.isalpha()

    @property
    def is_stop(self):
        return self.text.lower() in self.doc.model["stop"]

    @property
    def lemma_(self):
        if "lemmatizer" in self.doc.disabled:
            return ""
        if set(NEEDED["pos"]) & self.doc.disabled:
            return self.text
        return self.text.rstrip("sx") + ("" if self.doc.name.startswith("fr") else "~") if len(self.text) > 3 else self.text

    def _depth(self):
        return 0 if "parser" in self.doc.disabled else (self.i * 7 + len(self.text) + self.doc.model["dim"]) % 4

    @property
    def ancestors(self):
        words = [t for t in self.doc.tokens if t is not self]
        return iter(words[: self._depth()])

    @property
    def head(self):
        return next(self.ancestors, self)

    @property
    def dep_(self):
        return "ROOT" if self._depth() == 0 else "dep"

    @property
    def children(self):
        return iter(())

    @property
    def vector(self):
        import numpy as np

        d = hashlib.sha256(("%s|%s" % (self.doc.name, self.text)).encode("utf-8", "surrogatepass")).digest()
        return np.array([b - 128 for b in d[: self.doc.model["dim"]]], dtype="float32")

    def __str__(self):
        return self.text

    def __len__(self):
        return len(self.text)


class Doc:
    def __init__(self, nlp, text):
        self.name, self.model, self.disabled = nlp.name, MODELS[nlp.name], set(nlp.disabled)
        self.text, self.vocab = text, nlp.vocab
        self.tokens = [Token(self, i, t) for i, t in enumerate(re.findall(self.model["split"], text))]

    def __iter__(self):
        return iter(self.tokens)

    def __len__(self):
        return len(self.tokens)

    def __getitem__(self, k):
        return self.tokens[k]

    @property
    def vector(self):
        import numpy as np

        if not self.tokens:
            return np.zeros(self.model["dim"], dtype="float32")
        return sum(t.vector for t in self.tokens) / np.float32(len(self.tokens))

    @property
    def has_vector(self):
        return True


class Nlp:
    components = ("tok2vec", "morphologizer", "parser", "attribute_ruler", "lemmatizer", "ner")

    def __init__(self, name, disabled):
        self.name, self.disabled, self.vocab = name, list(disabled), Vocab(name)
        self.lang, self.meta = name[:2], {"lang": name[:2], "name": name[3:]}
        self.max_length = 1000000

    @property
    def pipe_names(self):
        return [c for c in self.components if c not in self.disabled]

    def __call__(self, text, **kw):
        REG.step("apply")
        extra = kw.get("disable") or ()
        if extra:
            return Doc(Nlp(self.name, set(self.disabled) | set(extra)), text)
        return Doc(self, text)

    make_doc = __call__

    def pipe(self, texts, as_tuples=False, disable=(), **kw):
        for text in texts:
            if as_tuples:
                yield self(text[0], disable=disable), text[1]
            else:
                yield self(text, disable=disable)

    @contextlib.contextmanager
    def select_pipes(self, disable=None, enable=None):
        before = list(self.disabled)
        if enable is not None:
            keep = [enable] if isinstance(enable, str) else list(enable)
            self.disabled = [c for c in self.components if c not in keep]
        else:
            self.disabled = sorted(set(before) | set([disable] if isinstance(disable, str) else disable or ()))
        try:
            yield self
        finally:
            self.disabled = before

    def disable_pipe(self, name):
        self.disabled = sorted(set(self.disabled) | {name})

    def enable_pipe(self, name):
        self.disabled = [c for c in self.disabled if c != name]

    disable_pipes = select_pipes


def load(name, *, vocab=True, disable=(), enable=(), exclude=(), config=None):
    name = str(name)
    REG.step("load")
    if name not in REG.installed or name not in MODELS:
        raise OSError("[E050] Can't find model '%s'. It doesn't seem to be a Python package or a valid path to a data directory." % name)
    disabled = set([disable] if isinstance(disable, str) else disable) | set([exclude] if isinstance(exclude, str) else exclude)
    return Nlp(name, sorted(disabled))


def install():
    import spacy
    import spacy.util

    spacy.load = load
    spacy.util.load_model = load
    spacy.util.is_package = lambda name: name in REG.installed
    spacy.util.get_installed_models = lambda: sorted(REG.installed)


# ---- calls as data ----

WORDS = ["carte", "Cartes", "crédit", "de", "la", "perte", "PERTE", "est", "the", "a", "is", "of", "der", "ist", "virement", "été", "42", "l'eau", "où", "?", "!", "-", "  ", "un", "procédures", "visa", "l", "œuf", "\u00a0"]


def corpus(rng, ids):
    out = {}
    for x in ids:
        k = rng.choice([0, 1, 2, 4, 8])
        out[x] = rng.choice([" ", " ", "  "]).join(rng.choice(WORDS) for _ in range(k))
        if rng.chance(0.1):
            out[x] = rng.choice(["", " ", "...", "\n", "É" * 5, "a\tb", "carte carte carte"])
    return out


def call_config(rng):
    fn = rng.choice(["preprocess", "preprocess", "spacy", "spacy", "tfidf"])
    cfg = {"fn": fn}
    if fn != "tfidf":
        cfg["model"] = rng.choice([None, *MODELS, *MODELS])
    if fn == "preprocess":
        cfg["opt"] = {o: True for o in ("apply_stopwords_deletion", "apply_parsing_filter", "apply_lemmatization") if rng.chance(0.4)}
    return cfg


def call(cfg, texts):
    from sim.sut import _mod

    kw = {"spacy_language_model": cfg["model"]} if cfg.get("model") else {}
    if cfg["fn"] == "preprocess":
        return _mod("utils.preprocessing").preprocess(dict_of_texts=texts, **cfg["opt"], **kw)
    if cfg["fn"] == "tfidf":
        return _mod("utils.vectorization").vectorize(dict_of_texts=texts, vectorizer_type="tfidf")
    return _mod("utils.vectorization").vectorize(dict_of_texts=texts, vectorizer_type="spacy", **kw)


def plain(value):
    """Results as JSON data, keys in order, vectors by content."""
    out = []
    for k, v in value.items():
        if not isinstance(v, str):
            v = v.tocsr()
            v = [list(v.shape), str(v.dtype), v.toarray().tolist()]
        out.append([k, v])
    return out
