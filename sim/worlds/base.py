class World:
    """One simulated world: how its plans are generated from a seed, and how a plan is executed and judged."""

    warm = "constraints"  # what to import before forking
    shrink_lists = ("ops",)
    quick_runs = 4000
    thorough_runs = 60000
    rule = ""
    real = ()
    stub = ()
    assumptions = ()
    probes_wanted = ()

    def prepare(self):
        pass

    def generate(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def simplify(self, plan):
        return ()

    def extra_phase(self, runner):
        """A world may add a phase that needs several processes (see C08). Returns a list of violations."""
        return []
