"""One entry per property: id -> function(conf)."""
import importlib
RUN = {}


def _load():
    import os, sys
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("p_") and f.endswith(".py"):
            m = importlib.import_module(f[:-3])
            RUN.update(m.RUN)


_load()
