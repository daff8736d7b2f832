import numpy as np

calls = []  # (what, x, y, text, integers); x and y as bytes of doubles


def _b(v):
    return np.array(v, dtype=np.float64).ravel().tobytes()


def _rec(what, x=(), y=(), s="", n=()):
    calls.append((what, _b(x), _b(y), s, tuple(int(i) for i in n)))


def _style(a, k):
    s = "".join(str(i) for i in a)
    s += str(k.get("c", k.get("color", ""))) + str(k.get("marker", "")) + str(k.get("ls", k.get("linestyle", "")))
    return s


def plot(x, y=None, *a, **k):
    if y is None or isinstance(y, str):
        a = ((y,) if y is not None else ()) + a
        x, y = range(len(x)), x
    _rec("plot", x, y, _style(a, k))


def text(x, y, s, *a, **k):
    _rec("text", (x,), (y,), s)


def annotate(s, *a, **k):
    xy = k.get("xy", a[0] if a else (0, 0))
    _rec("text", (xy[0],), (xy[1],), s)


class _Figure:
    number = 1


def figure(*a, **k):
    _rec("figure")
    return _Figure()


def subplot(*a, **k):
    if len(a) == 1:
        a = (a[0] // 100, a[0] // 10 % 10, a[0] % 10)
    _rec("subplot", n=a)


def xlim(*a, **k):
    if a:
        _rec("xlim", a[0] if len(a) == 1 else a)
    return (0.0, 1.0)


def ylim(*a, **k):
    if a:
        _rec("ylim", a[0] if len(a) == 1 else a)
    return (0.0, 1.0)


def axis(*a, **k):
    v = a[0] if a else ""
    if isinstance(v, (list, tuple)) and len(v) == 4:
        _rec("xlim", v[:2])
        _rec("ylim", v[2:])
    else:
        _rec("axis", s=str(v))


def show(*a, **k):
    _rec("show")


def close(*a, **k):
    _rec("close")


def savefig(name, *a, **k):
    _rec("save", s=str(name))


def clf(*a, **k):
    _rec("clf")


def _shape(what):
    def f(*a, **k):
        _rec(what, a[0] if a else (), a[1] if len(a) > 1 else ())
    return f


scatter, fill, fill_between, hist, quiver, semilogx, semilogy, loglog, errorbar, stem, bar = (_shape(w) for w in ("scatter", "fill", "fill_between", "hist", "quiver", "semilogx", "semilogy", "loglog", "errorbar", "stem", "bar"))


# what changes no curve and no mark
def fignum_exists(*a, **k):
    return True


def draw(*a, **k): pass
def pause(*a, **k): pass
def legend(*a, **k): pass
def title(*a, **k): pass
def suptitle(*a, **k): pass
def xlabel(*a, **k): pass
def ylabel(*a, **k): pass
def xticks(*a, **k): pass
def yticks(*a, **k): pass
def grid(*a, **k): pass
def ion(*a, **k): pass
def ginput(*a, **k): return []
def tight_layout(*a, **k): pass
def xkcd(*a, **k): pass
def subplots_adjust(*a, **k): pass
