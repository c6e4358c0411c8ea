"""Structural view of cwl_utils object models."""

import itertools
import uuid

from schema_salad.runtime import Saveable

_real = uuid.uuid4
_count = itertools.count()


def deterministic_uuid():
    """Blank ids become a function of the loading order (reset before each load)."""
    global _count
    _count = itertools.count()
    uuid.uuid4 = lambda: uuid.UUID(int=0xABCDEF0123456789ABCDEF0100000000 + next(_count))


def real_uuid():
    uuid.uuid4 = _real


def dump(o, ext=True):
    """Plain structure of an object model, without loading options."""
    if isinstance(o, Saveable):
        out = {"@": type(o).__module__.rsplit(".", 1)[-1] + "." + type(o).__name__}
        for k, v in vars(o).items():
            if k == "loadingOptions" or (k == "extension_fields" and not ext):
                continue
            out[k] = dump(v, ext)
        return out
    if isinstance(o, dict):
        return {str(k): dump(v, ext) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [dump(v, ext) for v in o]
    if isinstance(o, bool) or o is None:
        return o
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        return float(o)
    return str(o)


def classes(o, out):
    """(class, field) pairs that are set."""
    if isinstance(o, Saveable):
        n = type(o).__name__
        for k, v in vars(o).items():
            if k == "loadingOptions" or v is None:
                continue
            if k == "extension_fields":
                if v:
                    out.add(n + ".extension_fields")
                continue
            out.add(n + "." + k)
            classes(v, out)
    elif isinstance(o, dict):
        for v in o.values():
            classes(v, out)
    elif isinstance(o, list):
        for v in o:
            classes(v, out)
    return out
