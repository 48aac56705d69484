class H:
    """A harness: fn(env) run on every config of the tier."""

    def __init__(self, name, fn, quick, thorough=None, bounds="", expect=(),
                 time_limit=None, exceptions_are_violations=True, max_decisions=6000,
                 conc_limit=600, functions=()):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.bounds = bounds
        self.expect = expect            # labels that must be reached
        self.time_limit = time_limit
        self.max_decisions = max_decisions
        self.conc_limit = conc_limit
