"""Puts the code under test on the import path and installs the seams.

Import this module before anything from `fluent`.  It
 * loads fluent.* from the working tree (VERIF_REPO, default /repo), always from
   source: byte code caches of the tree are neither read nor written;
 * replaces the lock factories of `threading` by ones that know the simulator's
   scheduler (dst.sched) and behave like the real ones outside of it.
"""
import gc
import importlib.machinery
import os
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PACKAGES = ("fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs")
SRC_PREFIX = {p: os.path.join(REPO, p) + os.sep for p in PACKAGES}

sys.dont_write_bytecode = True


def _install():
    # The editable installs map fluent.* to /repo; take them out, so that VERIF_REPO decides.
    sys.meta_path[:] = [
        f for f in sys.meta_path if not getattr(f, "__module__", "").startswith("__editable__")
    ]
    sys.path_hooks[:] = [
        h for h in sys.path_hooks
        if not getattr(h, "__module__", "").startswith("__editable__")
        and not getattr(getattr(h, "__self__", None), "__module__", "").startswith("__editable__")
    ]
    sys.path[:] = [p for p in sys.path if "__editable__" not in p]
    for p in reversed(PACKAGES):
        sys.path.insert(0, os.path.join(REPO, p))

    loader = importlib.machinery.SourceFileLoader
    orig = loader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(REPO + os.sep):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    loader.get_code = get_code


_install()

from . import sched  # noqa: E402

sched.install_locks()


def preload():
    """Import everything the simulations use, before any run is forked."""
    import babel.dates  # noqa
    import babel.localedata
    import babel.numbers  # noqa
    import fluent.docs.build  # noqa
    import fluent.pygments.cli  # noqa
    import fluent.pygments.lexer  # noqa
    import fluent.runtime
    import fluent.syntax
    import pygments.formatters.terminal256  # noqa
    import pytz  # noqa
    import tempfile  # noqa
    import zoneinfo  # noqa

    len(pytz.all_timezones_set)  # pytz remembers failures while it builds this list
    for mod in (fluent.runtime, fluent.syntax, fluent.docs.build):
        assert mod.__file__.startswith(REPO + os.sep), mod.__file__
    for name in ("en", "en_US", "de", "fr", "pl", "ar", "en_GB", "cs", "ja"):
        babel.localedata.load(name)
    gc.collect()
    gc.freeze()
