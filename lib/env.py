"""Process environment of the checks: import paths, hypothesis, /repo's kasa."""
from __future__ import annotations

import importlib.abc
import importlib.machinery
import logging
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
FIXTURES = os.path.join(REPO, "tests", "fixtures")

warnings.simplefilter("ignore")

if sys.path[0:1] != [os.path.join(VERIF, "lib")]:
    sys.path.insert(0, os.path.join(VERIF, "lib"))
if os.path.join(VERIF, "checks") not in sys.path:
    sys.path.insert(1, os.path.join(VERIF, "checks"))
if REPO not in sys.path:
    sys.path.insert(2, REPO)


class _OnlyHypothesis(importlib.abc.MetaPathFinder):
    """Expose only hypothesis and its dependencies from the tools' venv, so the library under
    test sees exactly the optional dependencies of its own environment."""

    names = {"hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector"}

    def find_spec(self, fullname, path=None, target=None):
        if fullname.partition(".")[0] not in self.names:
            return None
        if path is not None:
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, [PYVENV])


sys.meta_path.append(_OnlyHypothesis())


#: modules made unimportable for a check, before anything is loaded
WITHOUT = {"P39": ("orjson", "kasa_crypt", "mashumaro.mixins.orjson")}


def import_kasa(pid=None):
    """Import kasa from /repo (with the virtual clock already installed)."""
    import vtime

    for name in WITHOUT.get(pid, ()):
        sys.modules[name] = None

    vtime.install()
    logging.disable(logging.NOTSET)
    import kasa

    path = os.path.realpath(kasa.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"kasa imported from {path}, not {REPO}")
    logging.getLogger("kasa").propagate = False
    logging.getLogger("kasa").addHandler(logging.NullHandler())
    logging.getLogger("kasa").setLevel(logging.CRITICAL)
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 1)
    return kasa
