class Part:
    """A generator and the oracle that judges each of its cases.

    run(case, rec) raises Violation (or lets an exception of the code under test
    through), returns a truthy label for a non-trivial case, False for a trivial
    one and "skip" for one outside the property's domain.
    """

    def __init__(
        self,
        name,
        strategy,
        run,
        rule,
        quick=200,
        thorough=None,
        cap=60,
        cap_thorough=1500,
        shrink_s=30,
    ):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.cap = cap
        self.cap_thorough = cap_thorough
        self.shrink_s = shrink_s
