# minimal stand-in: only the namespace-package declaration is used
import sys
import pkgutil


def declare_namespace(name):
    mod = sys.modules[name]
    mod.__path__ = pkgutil.extend_path(mod.__path__, name)
