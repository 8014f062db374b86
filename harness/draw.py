"""Stand-ins for matplotlib and plotly that record what is drawn."""
import contextlib


class Any:
    """accepts every call and attribute"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return Any()

    def __getitem__(self, k):
        return Any()

    def __iter__(self):
        return iter(())


class Axes:
    """records points and lines as (kind, x, y, options)"""

    def __init__(self):
        self.drawn = []
        self.texts = {}

    def _line(self, kind, a, k):
        a = list(a)
        while a and isinstance(a[-1], str):
            a.pop()
        if len(a) == 1:
            x, y = list(range(len(a[0]))), a[0]
        else:
            x, y = a[0], a[1]
        self.drawn.append((kind, list(x), list(y), k))
        return [Any()]

    def plot(self, *a, **k):
        return self._line("line", a, k)

    def loglog(self, *a, **k):
        return self._line("line", a, k)

    def semilogx(self, *a, **k):
        return self._line("line", a, k)

    def semilogy(self, *a, **k):
        return self._line("line", a, k)

    def scatter(self, x, y, s=None, c=None, **k):
        k = dict(k, c=c, s=s)
        self.drawn.append(("points", list(x), list(y), k))
        return Any()

    def set_xlabel(self, t, *a, **k):
        self.texts["x"] = t

    def set_ylabel(self, t, *a, **k):
        self.texts["y"] = t

    def set(self, **k):
        if "xlabel" in k:
            self.texts["x"] = k["xlabel"]
        if "ylabel" in k:
            self.texts["y"] = k["ylabel"]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()


def figure():
    """a real figure whose axes and colour bars are stand-ins"""
    import matplotlib.figure

    class Figure(matplotlib.figure.Figure):
        def __init__(self):
            super().__init__()
            self.pen = Axes()

        def gca(self, *a, **k):
            return self.pen

        def add_subplot(self, *a, **k):
            return self.pen

        def subplots(self, *a, **k):
            return self.pen

        def colorbar(self, *a, **k):
            return Any()

    return Figure()


@contextlib.contextmanager
def pyplot():
    """pyplot draws on a stand-in figure"""
    import matplotlib.pyplot as plt

    fig = figure()
    new = {"subplots": lambda *a, **k: (fig, fig.pen),
           "figure": lambda *a, **k: fig, "gcf": lambda: fig,
           "gca": lambda *a, **k: fig.pen}
    for n in ("colorbar", "grid", "show", "legend", "title", "xlabel",
              "ylabel", "tight_layout", "draw", "sca"):
        new[n] = lambda *a, **k: Any()
    old = {n: getattr(plt, n) for n in new}
    try:
        for n, f in new.items():
            setattr(plt, n, f)
        yield fig
    finally:
        for n, f in old.items():
            setattr(plt, n, f)


def where(ctx, how, call):
    """draws by call(fig=, ax=) and gives the axes drawn on"""
    with pyplot() as std:
        if how == "none":
            fig, ax = call()
            ctx.check("figure", fig is std and ax is std.pen)
            return ax
        mine = figure()
        if how == "figure":
            fig, ax = call(fig=mine)
            ctx.check("figure", fig is mine and ax is mine.pen)
            return ax
        pen = Axes()
        fig, ax = call(fig=mine, ax=pen)
        ctx.check("figure", fig is mine and ax is pen)
        ctx.check("only there", not mine.pen.drawn and not std.pen.drawn)
        return ax
