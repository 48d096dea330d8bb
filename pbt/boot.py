"""Make the code under test (/repo) and Hypothesis importable; deterministic environment."""

import os
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


def _import_hypothesis():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(PYVENV_SITE, "hypothesis")):
        # appended (never shadows the repository's own dependencies) and removed again
        sys.path.append(PYVENV_SITE)
        try:
            import hypothesis
            import hypothesis.strategies
            import hypothesis.stateful  # noqa: F401

            return
        except ImportError:
            pass
        finally:
            sys.path.remove(PYVENV_SITE)
    # last resort: install from the offline wheelhouse into a scratch directory
    import subprocess

    target = tempfile.mkdtemp(prefix="verif_hyp_")
    subprocess.check_call(
        [sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links", WHEELS,
         "--target", target, "hypothesis"],
        stdout=subprocess.DEVNULL,
    )
    sys.path.append(target)
    import hypothesis  # noqa: F401


sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_import_hypothesis()
os.environ.setdefault(
    "HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif_hypothesis")
)


def load_sut():
    """Import every module of the code under test; verify that it is the tree we mean."""
    import abcvoting
    from abcvoting import (  # noqa: F401
        abcrules, fileio, generate, misc, output, preferences, properties, scores,
    )

    paths = [os.path.realpath(p) for p in abcvoting.__path__]
    want = os.path.realpath(os.path.join(REPO, "abcvoting"))
    if paths != [want]:
        raise RuntimeError(f"abcvoting imported from {paths}, expected {want}")
