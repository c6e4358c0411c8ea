"""The reference reading of CWL documents: schema-salad interpreting the CWL schemas (independent of cwl_utils)."""

import functools
import logging
import os
import tempfile

logging.getLogger("salad").setLevel(logging.CRITICAL)
logging.getLogger("cwltool").setLevel(logging.CRITICAL)
logging.getLogger("cwl_utils").setLevel(logging.CRITICAL)

import cwltool.process as cp  # noqa: E402
import schema_salad.avro.schema as av  # noqa: E402
from ruamel.yaml.comments import CommentedMap, CommentedSeq  # noqa: E402
from schema_salad.exceptions import SchemaSaladException, ValidationException  # noqa: E402,F401
from schema_salad.schema import validate_doc  # noqa: E402
from schema_salad.sourceline import cmap  # noqa: E402
from schema_salad.utils import yaml_no_ts  # noqa: E402

VERSIONS = ("v1.0", "v1.1", "v1.2")
EXT = {"v1.0": "extensions.yml", "v1.1": "extensions-v1.1.yml", "v1.2": "extensions-v1.2.yml"}


@functools.cache
def schema(version):
    d = os.path.dirname(cp.__file__)
    with open(os.path.join(d, EXT[version])) as f:
        cp.use_custom_schema(version, "http://commonwl.org/cwltool", f.read())
    loader, names, _, _ = cp.get_schema(version)
    if isinstance(names, Exception):
        raise names
    return loader, names


@functools.cache
def records(version):
    """Short name -> avro record schema."""
    _, names = schema(version)
    out = {}
    for n, s in names.names.items():
        if isinstance(s, av.RecordSchema):
            out[n.rsplit(".", 1)[-1]] = s
    return out


class SubLoader:
    """A loader that shares the vocabulary of a version but nothing else (fresh indexes)."""

    @staticmethod
    def make(version, namespaces=None):
        from schema_salad.ref_resolver import Loader

        base, _ = schema(version)
        ctx = dict(base.ctx)
        ld = Loader(ctx, foreign_properties=set(base.foreign_properties), schemagraph=base.graph,
                    idx=None, cache={}, skip_schemas=True)
        ld.identifiers = base.identifiers
        if namespaces:
            ld.add_namespaces(namespaces)
        return ld


def to_commented(doc):
    return cmap(doc) if not isinstance(doc, (CommentedMap, CommentedSeq)) else doc


def resolve(doc, uri, version, checklinks=False):
    """Resolved document (identifiers absolute, maps as lists, DSLs expanded) as plain JSON."""
    import copy

    d = copy.deepcopy(doc)
    if isinstance(d, dict):
        ns = dict(d.get("$namespaces") or {})
    else:
        ns = {}
    ld = SubLoader.make(version, ns)
    c = cmap(d)
    meta = {}
    if isinstance(c, dict):
        for k in ("$namespaces", "$schemas", "$base"):
            if k in c:
                meta[k] = c.pop(k)
    if isinstance(c, dict) and "$graph" in c:
        body = c["$graph"]
    else:
        body = c
    res, _ = ld.resolve_all(body, uri, checklinks=checklinks)
    return res, ld


def validate(resolved, ld, version):
    _, names = schema(version)
    validate_doc(names, resolved, ld, strict=True)


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    return str(x)
