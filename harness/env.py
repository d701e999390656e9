"""Process set-up shared by every check: environment, import paths, Hypothesis."""
import os, sys, importlib.machinery, warnings

REPO = os.environ.get("VERIF_REPO", "/repo")  # the override is for trying seeded changes in a scratch worktree
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOW = ("hypothesis", "_hypothesis_globals", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
          "sortedcontainers", "attr", "attrs")


class _ToolFinder:
    """Finds Hypothesis (and what it needs) in the tool environment without putting the whole
    of that environment on the path of the code under test."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _ALLOW:
            return importlib.machinery.PathFinder.find_spec(name, [PYENV_SITE])
        return None


def setup():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.setrecursionlimit(5000)
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not any(f is _ToolFinder for f in sys.meta_path):
        sys.meta_path.insert(0, _ToolFinder)
    import verse  # noqa
    if not os.path.abspath(verse.__file__).startswith(REPO + "/"):
        raise SystemExit("verse imported from %s, not /repo" % verse.__file__)
