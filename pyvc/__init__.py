"""Contract verifier for numerical Python."""

import importlib.machinery as _m

_get_code = _m.SourceFileLoader.get_code


def _fresh(self, name):
    """code under verification is always compiled from its current text"""
    if name.partition(".")[0] == "skfolio":
        path = self.get_filename(name)
        return self.source_to_code(self.get_data(path), path)
    return _get_code(self, name)


_m.SourceFileLoader.get_code = _fresh
