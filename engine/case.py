class Case:
    """One bounded universally quantified statement."""

    def __init__(self, name, fn, bounds="", must_reach=(), opts=None,
                 **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.bounds = bounds
        self.must_reach = tuple(must_reach)
        self.opts = opts or {}
