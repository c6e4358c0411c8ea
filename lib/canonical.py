"""One canonical form per document content: reference resolution of schema-salad plus CWL's scoped references."""

import json
import re
from urllib.parse import urldefrag, urljoin, urlsplit

from lib import salad

SCOPED = {"source": 2, "outputSource": 1, "scatter": 0, "secrets": 0, "loopSource": 1}
KEYED = {"inputs": "id", "outputs": "id", "steps": "id", "in": "id", "out": "id", "requirements": "class", "hints": "class",
         "fields": "name", "packages": "package", "envDef": "envName", "loop": "id", "types": "name"}
BLANK = re.compile(r"^_:[0-9a-f]{8}-[0-9a-f]{4}-")

# required fields with a default in the CWL schemas
DEFAULTS = {"WorkReuse": {"enableReuse": True}, "Loop": {"outputMethod": "last"}}


def scoped(ref, base, n):
    """Absolute URI of a reference written in the scope of `base` with refScope n."""
    if not isinstance(ref, str) or ref.startswith(("$(", "${")):
        return ref
    if urlsplit(ref).scheme in ("file", "http", "https", "_"):
        return ref
    doc, frag = urldefrag(base)
    if ref.startswith("#"):
        return doc + ref
    sp = frag.split("/") if frag else []
    if n:
        sp = sp[:-n] if n <= len(sp) else []
    return doc + "#" + "/".join(sp + [ref])


def blank(v):
    return isinstance(v, str) and bool(BLANK.match(v))


def walk(x, base, key=None, sub=True):
    if isinstance(x, dict):
        ident = x.get("id") or x.get("name")
        b = ident if isinstance(ident, str) and key not in ("default",) and not blank(ident) and ":" in ident else base
        out = {}
        cls = str(x.get("class")).rsplit("#", 1)[-1]
        if cls in DEFAULTS and key not in ("default", "opaque"):
            out.update({k: v for k, v in DEFAULTS[cls].items() if k not in x})
        for k, v in x.items():
            if k in ("id", "name") and blank(v):
                continue
            if k == "secondaryFiles" and isinstance(v, dict) and key not in ("default", "opaque"):
                v = [v]
            if k == "required" and v is None and "pattern" in x:
                continue
            if k == "specs" and "package" in x:
                out[k] = [urljoin(base, i) for i in v]
                continue
            if k == "listing" and x.get("class") == "InitialWorkDirRequirement" and isinstance(v, list):
                v = [j for i in v for j in (i if isinstance(i, list) else [i])]
            if k in SCOPED and key not in ("default", "opaque"):
                out[k] = [scoped(i, b, SCOPED[k]) for i in v] if isinstance(v, list) else scoped(v, b, SCOPED[k])
            else:
                nb = b
                if sub and k == "run" and isinstance(v, dict):
                    nb = b + ("/run" if "#" in b else "#run")
                out[k] = walk(v, nb, "opaque" if key in ("default", "opaque") or ":" in k else k, sub)
        return out
    if isinstance(x, list):
        out = [walk(v, base, key, sub) for v in x]
        if key in KEYED and all(isinstance(v, dict) for v in out):
            out.sort(key=lambda v: json.dumps([str(v.get(KEYED[key])), v], sort_keys=True, default=repr))
        return out
    return x


def canonical(doc, uri, version):
    res, _ = salad.resolve(doc, uri, version)
    out = walk(salad.plain(res), uri, sub=version != "v1.0")
    if isinstance(doc, dict) and "$graph" in doc:
        ids = {}
        for p in out:
            ids[p.get("id")] = p
        assert len(ids) == len(out)
        out = {"$graph": ids}
    return out


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                yield "%s/%s added: %s" % (path, k, json.dumps(b[k])[:200])
            elif k not in b:
                yield "%s/%s lost: %s" % (path, k, json.dumps(a[k])[:200])
            else:
                yield from diff(a[k], b[k], "%s/%s" % (path, k))
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from diff(x, y, "%s/%d" % (path, i))
    elif type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b) or a != b:
        yield "%s changed: %s -> %s" % (path, json.dumps(a)[:300], json.dumps(b)[:300])
