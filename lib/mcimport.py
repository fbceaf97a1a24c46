"""Make `import aihwkit` use the extension modules that lib/build.py made from the working tree."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

_MAP = {
    "aihwkit.simulator.rpu_base": os.environ["MC_RPU_BASE"],
    "aihwkit.extension.aihwkit_extension": os.environ["MC_EXT"],
}


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        so = _MAP.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


sys.meta_path.insert(0, _Finder())
import torch  # noqa: E402,F401  (its libraries have to be loaded before the extensions)

torch.set_num_threads(1)
