"""Takes the native part of the Python package from the file given first."""
import importlib.machinery, importlib.util, sys
def load():
    import hugr  # noqa: the package itself comes from PYTHONPATH
    loader = importlib.machinery.ExtensionFileLoader('hugr._hugr', sys.argv[1])
    spec = importlib.util.spec_from_file_location('hugr._hugr', sys.argv[1], loader=loader)
    m = importlib.util.module_from_spec(spec)
    sys.modules['hugr._hugr'] = m
    loader.exec_module(m)
