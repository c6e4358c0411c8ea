"""A small directory of files that generated documents refer to."""

import os

DATA = {"doc.cwl": "", "other.cwl": "class: Operation\n", "sub/other2.cwl": "class: Operation\n", "data.txt": "data\n",
        "ont.ttl": "@prefix ex: <http://example.com/ns#> .\nex:a ex:b ex:c .\n"}


def docs_dir():
    d = os.path.join(os.environ["TMPDIR"], "docs")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "sub"))
        for n, t in DATA.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
    return d


def doc_uri(name="doc.cwl"):
    return "file://" + os.path.join(docs_dir(), name)
