"""Loaded by every interpreter a check starts (joblib workers included).

Serves glum's compiled extension modules from GLUM_SO_DIR (built by the check
from /repo's current .pyx files) while the Python sources are imported from
/repo/src itself, unmodified."""
import os
import sys

_d = os.environ.get("GLUM_SO_DIR")
if _d:
    import importlib.abc
    import importlib.machinery
    import importlib.util

    class _GlumExtFinder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name.startswith("glum._"):
                p = os.path.join(_d, name.split(".", 1)[1] + ".so")
                if os.path.exists(p):
                    return importlib.util.spec_from_file_location(
                        name, p,
                        loader=importlib.machinery.ExtensionFileLoader(name, p))
            return None

    sys.meta_path.insert(0, _GlumExtFinder())
