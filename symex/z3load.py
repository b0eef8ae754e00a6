"""Make the pre-installed z3 package importable from the interpreter that runs ocgis.

ocgis only runs in /opt/venv (numpy 1.22, shapely 1.8, ...), z3 is installed in the tooling environment.  Both are
Python 3.12, so only the ``z3`` package is borrowed: nothing else of the tooling environment becomes importable.
"""
import glob
import importlib.util
import os
import sys


class _Z3Finder(object):
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'z3':
            return None
        for base in sorted(glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages')):
            pkg = os.path.join(base, 'z3')
            if os.path.exists(os.path.join(pkg, '__init__.py')):
                return importlib.util.spec_from_file_location('z3', os.path.join(pkg, '__init__.py'),
                                                              submodule_search_locations=[pkg])
        return None


def load():
    try:
        import z3
    except ImportError:
        sys.meta_path.append(_Z3Finder())
        import z3
    return z3


z3 = load()
