"""Run CWL documents with cwltool, in this process, and describe the results without locations."""

import io
import itertools
import json
import logging
import os
import shutil

COUNT = itertools.count()


def run(path, job, cwd):
    """Give ("ok", outputs) or ("error", message)."""
    import cwltool.main

    n = next(COUNT)
    base = os.path.join(cwd, "run%d" % n)
    os.makedirs(base)
    jobfile = os.path.join(base, "job.json")
    with open(jobfile, "w") as f:
        json.dump(job, f)
    out, err = io.StringIO(), io.StringIO()
    levels = {k: logging.getLogger(k).level for k in ("cwltool", "salad", "rdflib.term")}
    disabled = logging.root.manager.disable
    old = os.getcwd()
    os.chdir(base)
    logging.disable(logging.NOTSET)
    try:
        rc = cwltool.main.main(
            ["--no-container", "--outdir", os.path.join(base, "out"), "--quiet", "--disable-js-validation", "--skip-schemas", "--no-compute-checksum", "--eval-timeout", "60",
             "--disable-color", "--tmpdir-prefix", base + "/tmp/", "--tmp-outdir-prefix", base + "/tmpo/", path, jobfile],
            stdout=out, stderr=err)
        if rc != 0:
            return "error", err.getvalue()
        return "ok", content(json.loads(out.getvalue() or "null"))
    except SystemExit as e:
        return "error", "exit %s" % e.code
    finally:
        logging.disable(disabled)
        os.chdir(old)
        for k, v in levels.items():
            logging.getLogger(k).setLevel(v)
        shutil.rmtree(base, ignore_errors=True)


def content(x):
    """Files by name and content."""
    if isinstance(x, list):
        return [content(v) for v in x]
    if not isinstance(x, dict):
        return x
    if x.get("class") == "File":
        p = x["location"][len("file://"):] if x.get("location", "").startswith("file://") else x.get("path")
        from urllib.parse import unquote
        try:
            with open(unquote(p), errors="replace") as f:
                data = f.read()
        except (OSError, TypeError):
            data = None
        r = {"class": "File", "basename": x.get("basename"), "data": data}
        for k in ("format", "secondaryFiles"):
            if x.get(k):
                r[k] = content(x[k])
        return r
    if x.get("class") == "Directory":
        return {"class": "Directory", "basename": x.get("basename"), "listing": sorted((content(v) for v in x.get("listing", [])), key=lambda d: d["basename"])}
    return {k: content(v) for k, v in x.items()}
