"""matplotlib is not installed here: a stand-in good enough to import pybinding. Nothing which
the monitors look at draws."""
import sys
import types


class _Class:
    def __init__(self, *args, **kwargs):
        pass


class _Anything:
    """Whatever is not spelled out below: callable, iterable, and otherwise empty"""
    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, key):
        if key.startswith("__"):
            raise AttributeError(key)
        return _Anything()

    def __call__(self, *args, **kwargs):
        return _Anything()

    def __iter__(self):
        return iter(())

    def __getitem__(self, key):
        return _Anything()

    def __setitem__(self, key, value):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def _getattr(key):
    if key.startswith("__"):
        raise AttributeError(key)
    return _Anything()


def install():
    names = ["matplotlib", "matplotlib.pyplot", "matplotlib.style", "matplotlib.collections",
             "matplotlib.artist", "matplotlib.colors", "matplotlib.path", "matplotlib.transforms",
             "matplotlib.style.core", "matplotlib.units", "matplotlib.ticker", "matplotlib.patches",
             "matplotlib.cm", "matplotlib.axes", "matplotlib.figure", "matplotlib.lines",
             "matplotlib.testing", "matplotlib.testing.compare", "matplotlib.testing.exceptions",
             "mpl_toolkits", "mpl_toolkits.mplot3d", "mpl_toolkits.mplot3d.art3d",
             "mpl_toolkits.mplot3d.proj3d", "mpl_toolkits.mplot3d.axes3d"]
    for name in names:
        module = types.ModuleType(name)
        module.__getattr__ = _getattr
        module.__path__ = []
        sys.modules[name] = module
        if "." in name:
            parent, child = name.rsplit(".", 1)
            setattr(sys.modules[parent], child, module)
    for name in ("Collection", "LineCollection", "PathCollection", "CircleCollection",
                 "PolyCollection", "PatchCollection"):
        setattr(sys.modules["matplotlib.collections"], name, type(name, (_Class,), {}))
    import numpy as np
    sys.modules["matplotlib.pyplot"].get_cmap = lambda name=None: (
        lambda bins: np.stack([np.asarray(bins)] * 4, axis=-1))
    sys.modules["matplotlib.artist"].allow_rasterization = lambda f: f


install()
