"""The standard logging and JSON modules in the presence of symbolic data.

logging caches level tests and level names in dicts keyed by the level, which would split a
symbolic level into its values; the cache is bypassed for those.  JSON encoders get symbolic
characters as characters that they write as escapes (private use area), which decoding gives
back, so that the text of the JSON document need not be decided.
"""

import json
import logging

import z3

from . import engine, rt
from .engine import SymInt

_name = logging.getLevelName
_enabled = logging.Logger.isEnabledFor


def digits(n):
    """The decimal digits of an integer from 0 to 99 as symbolic characters."""
    if n < 0 or n > 99:
        return str(n.concrete())
    one = [lambda e: e % 10 + 48] if n < 10 else [lambda e: e / 10 + 48, lambda e: e % 10 + 48]
    eng = engine.ENGINE
    return "".join(eng.derived_char(z3.simplify(f(n.e)), range(48, 58), "digit") for f in one)


def get_level_name(level):
    if isinstance(level, SymInt):
        for k, v in list(logging._levelToName.items()):
            if level == k:
                return v
        return "Level " + digits(level)
    return _name(level)


def is_enabled_for(self, level):
    own = self.getEffectiveLevel()
    if isinstance(level, SymInt) or isinstance(own, SymInt):
        if self.disabled or self.manager.disable >= level:
            return False
        return level >= own
    return _enabled(self, level)


def _dumps(f):
    def g(*a, **k):
        if a and rt.has_sym(a[0], 5):
            k["ensure_ascii"] = True
        return f(*a, **k)

    return g


def install():
    logging.getLevelName = get_level_name
    logging.Logger.isEnabledFor = is_enabled_for
    rt.HANDLERS[json.dumps] = _dumps(json.dumps)
    try:
        import ujson

        rt.HANDLERS[ujson.dumps] = _dumps(ujson.dumps)
    except ImportError:
        pass
