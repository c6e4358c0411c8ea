"""C17: containers and software packages of a process."""

import contextlib
import io
import json
import os
import shutil
import sys
from pathlib import Path

from hypothesis import strategies as st

from lib.pbt import Prop, Violation

import cwl_utils.parser as cwlparser
from cwl_utils import cite_extract, docker_extract

RULE = ("A case is a tree of workflows, steps and tools, in one or more files, with container and software requirements and hints; "
        "non-trivial when something is declared below the top process.")
ASSUMPTIONS = ["the same declaration met along several ways may be reported once or each time", "workflows do not contain themselves",
               "a hint of a step is not imported from another file (the parser keeps it as it is)"]

REGISTRY = ["", "", "quay.io/", "localhost:5000/", "reg.example.com:443/ns/", "a/b/c/"]
NAMES = ["debian", "bio-tool", "x_y", "tool.sub", "library"]
TAGS = ["", "", ":1.0", ":latest", "@sha256:" + "ab" * 32, ":v2@sha256:" + "cd" * 32]
OTHER = [{"class": "ResourceRequirement", "coresMin": 2}, {"class": "InlineJavascriptRequirement"}, {"class": "ShellCommandRequirement"}]


@st.composite
def requirement(draw):
    k = draw(st.integers(0, 6))
    if k <= 2:
        r = {"class": "DockerRequirement"}
        if draw(st.integers(0, 5)):
            r["dockerPull"] = draw(st.sampled_from(REGISTRY)) + draw(st.sampled_from(NAMES)) + str(draw(st.integers(0, 30))) + draw(st.sampled_from(TAGS))
        for f in ("dockerImageId", "dockerLoad", "dockerFile", "dockerOutputDirectory"):
            if draw(st.integers(0, 5)) == 5:
                r[f] = {"dockerImageId": "image%d" % draw(st.integers(0, 9)), "dockerLoad": "https://example.com/i.tar", "dockerFile": "FROM debian\nRUN true\n", "dockerOutputDirectory": "/out"}[f]
        return r
    if k <= 5:
        ps = []
        for n in draw(st.lists(st.integers(0, 30), min_size=0, max_size=3, unique=True)):
            p = {"package": "pkg%d" % n}
            if draw(st.booleans()):
                p["version"] = draw(st.lists(st.sampled_from(["1", "1.0", "2.3-beta"]), min_size=1, max_size=2))
            if draw(st.booleans()):
                p["specs"] = draw(st.lists(st.sampled_from(["https://bio.tools/x", "http://example.com/r#1"]), min_size=1, max_size=2, unique=True))
            ps.append(p)
        return {"class": "SoftwareRequirement", "packages": ps, "form": draw(st.sampled_from(["list", "map"]))}
    return draw(st.sampled_from(OTHER))


def reqs():
    return st.lists(requirement(), max_size=3, unique_by=lambda r: r["class"])


@st.composite
def process(draw, depth, version):
    p = {"class": draw(st.sampled_from(["Workflow"] * 5 + ["CommandLineTool", "ExpressionTool"] + (["Operation"] if version == "v1.2" else []))) if depth else
         draw(st.sampled_from(["CommandLineTool", "CommandLineTool", "ExpressionTool"] + (["Operation"] if version == "v1.2" else [])))}
    p["requirements"] = draw(reqs())
    p["hints"] = draw(reqs())
    p["forms"] = draw(st.lists(st.sampled_from(["list", "map"]), min_size=2, max_size=2))
    p["import"] = draw(st.integers(0, 5)) == 5
    if p["class"] == "Workflow":
        p["steps"] = []
        for _ in range(draw(st.sampled_from([1, 2, 3, 0]))):
            p["steps"].append({"requirements": draw(reqs()), "hints": draw(reqs()), "run": draw(process(depth - 1, version)), "forms": draw(st.lists(st.sampled_from(["list", "map"]), min_size=2, max_size=2)),
                               "how": draw(st.sampled_from(["inline", "inline", "file", "file", "graph", "import", "library"])), "again": draw(st.integers(0, 4)) == 4})
    return p


@st.composite
def cases(draw):
    v = draw(st.sampled_from(["v1.0", "v1.1", "v1.2"]))
    return {"version": v, "process": draw(process(draw(st.sampled_from([2, 1, 3, 0])), v)), "graph": draw(st.booleans()), "style": draw(st.sampled_from(["yaml", "json"]))}


class Writer:
    def __init__(self, case):
        self.case, self.files, self.n, self.main = case, {}, 0, []
        self.library = []

    def fresh(self):
        self.n += 1
        return self.n

    def reqlist(self, rs, form, path=None):
        out = []
        for r in rs:
            r = dict(r)
            if r.pop("form", "list") == "map":
                r["packages"] = {p["package"]: {k: v for k, v in p.items() if k != "package"} for p in r["packages"]}
            out.append(r)
        if path is not None and out:
            f = "req%d.yml" % self.fresh()
            self.files[os.path.join(os.path.dirname(path), f)] = out[0]
            return [{"$import": f}] + out[1:]
        if form == "map":
            return {r["class"]: {k: v for k, v in r.items() if k != "class"} for r in out}
        return out

    def process(self, p, path, top=False):
        d = {"class": p["class"], "inputs": [], "outputs": []}
        if top:
            d["cwlVersion"] = self.case["version"]
        for k, f in zip(("requirements", "hints"), p["forms"]):
            if p[k] or f == "map":
                d[k] = self.reqlist(p[k], f, path if p["import"] and k == "requirements" else None)
        if p["class"] == "CommandLineTool":
            d["baseCommand"] = "true"
        elif p["class"] == "ExpressionTool":
            d["expression"] = "$({})"
        elif p["class"] == "Workflow":
            d["steps"] = []
            for s in p["steps"]:
                e = {"id": "s%d" % self.fresh(), "in": [], "out": [], "run": self.run(s, path)}
                for k, f in zip(("requirements", "hints"), s["forms"]):
                    if s[k] or f == "map":
                        e[k] = self.reqlist(s[k], f)
                d["steps"].append(e)
                if s["again"] and not isinstance(e["run"], dict):
                    d["steps"].append({"id": "s%d" % self.fresh(), "in": [], "out": [], "run": e["run"]})
        return d

    def run(self, s, path):
        how, here = s["how"], os.path.dirname(path)
        if how == "graph" and not (self.case["graph"] and path == "main.cwl"):
            how = "file"
        if how == "inline":
            return self.process(s["run"], path)
        if how == "graph":
            n = "p%d" % self.fresh()
            self.main.append(dict(self.process(s["run"], path), id=n))
            return "#" + n
        if how == "library":
            n = "l%d" % self.fresh()
            f = "library.cwl"
            self.library.append(dict(self.process(s["run"], f), id=n))
            return os.path.relpath(f, here or ".") + "#" + n
        f = os.path.join(here, ["", "sub", "a b"][self.n % 3], "f%d.cwl" % self.fresh())
        self.files[f] = None
        self.files[f] = self.process(s["run"], f, True)
        rel = os.path.relpath(f, here or ".").replace(" ", "%20")
        return {"$import": rel} if how == "import" else rel

    def write(self, base):
        main = self.process(self.case["process"], "main.cwl", not self.case["graph"])
        if self.case["graph"]:
            main = {"cwlVersion": self.case["version"], "$graph": self.main + [dict(main, id="main")]}
        self.files["main.cwl"] = main
        if self.library:
            self.files["library.cwl"] = {"cwlVersion": self.case["version"], "$graph": self.library}
        for f, d in self.files.items():
            q = Path(base, f)
            q.parent.mkdir(parents=True, exist_ok=True)
            q.write_text(json.dumps(d, indent=1 if self.case["style"] == "json" else None))
        return Path(base, "main.cwl")


def declared(p, depth=0):
    """(requirement, depth) of each declaration."""
    for r in p["requirements"] + p["hints"]:
        yield r, depth
    for s in p.get("steps", ()):
        for r in s["requirements"] + s["hints"]:
            yield r, depth + 1
        yield from declared(s["run"], depth + 1)


DOCKER = ("dockerPull", "dockerImageId", "dockerLoad", "dockerFile", "dockerOutputDirectory")


def complete(image):
    last = image.split("/")[-1]
    return image if ":" in last or "@" in last else image + ":latest"


def frozen(x):
    return tuple(frozen(y) for y in x) if isinstance(x, list) else x


def check(case, ctx):
    base = os.path.join(os.environ["TMPDIR"], "extract")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    with contextlib.redirect_stderr(io.StringIO()):
        path = Writer(case).write(base)
        found = list(declared(case["process"]))
        images = {tuple(complete(r[f]) if f == "dockerPull" and f in r else r.get(f) for f in DOCKER) for r, _ in found if r["class"] == "DockerRequirement"}
        packages = {(p["package"], frozen(p.get("version")), frozen(p.get("specs"))) for r, _ in found if r["class"] == "SoftwareRequirement" for p in r["packages"]}
        uri = path.as_uri()
        got = {tuple(getattr(r, f) for f in DOCKER) for r in docker_extract.traverse(cwlparser.load_document_by_uri(uri))}
        if got != images:
            raise Violation("containers: missing %s, not declared %s" % (sorted(images - got, key=str), sorted(got - images, key=str)))
        reqs = list(cite_extract.traverse(cwlparser.load_document_by_uri(uri)))
        got = {(p.package, frozen(p.version), frozen(p.specs)) for r in reqs for p in r.packages}
        if got != packages:
            raise Violation("packages: missing %s, not declared %s" % (sorted(packages - got, key=str), sorted(got - packages, key=str)))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            code = command(cite_extract, [uri])
    want = {"Package: %s, version: %s, specs: %s" % (n, None if v is None else list(v), None if s is None else list(s)) for n, v, s in packages}
    if code or set(out.getvalue().splitlines()) != want:
        raise Violation("cwl-cite-extract (%r) prints\n%sinstead of\n%s" % (code, out.getvalue(), "\n".join(sorted(want))))
    pulls(case, ctx, base, path, images)
    if any(d for r, d in found if r["class"] in ("DockerRequirement", "SoftwareRequirement")):
        ctx.nontrivial()
    ctx.label("version:" + case["version"], "images:%d" % min(len(images), 3), "packages:%d" % min(len(packages), 3), "depth:%d" % max([d for _, d in found] or [0]))


def command(module, args):
    """The exit code of the console command."""
    argv = sys.argv
    sys.argv = [module.__name__] + args
    try:
        return module.main()
    except SystemExit as e:
        return e.code
    finally:
        sys.argv = argv


def pulls(case, ctx, base, path, images):
    """The command asks the engine for every image, whatever else is declared."""
    engine, log = os.path.join(base, "engine"), os.path.join(base, "log")
    with open(engine, "w") as f:
        f.write("#!/bin/sh\necho \"$@\" >> '%s'\n" % log)
    os.chmod(engine, 0o755)
    err = io.StringIO()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
        args, code, got = [str(path), "--container-engine", engine], 0, images
        if case["graph"]:
            code = command(docker_extract, args)
        else:
            got = {tuple(getattr(r, f) for f in DOCKER) for r in docker_extract.run(docker_extract.arg_parser().parse_args(args))}
    if code:
        raise Violation("cwl-docker-extract ends with %r" % code)
    if got != images:
        raise Violation("cwl-docker-extract: missing %s, not declared %s" % (sorted(images - got, key=str), sorted(got - images, key=str)))
    asked = Path(log).read_text().splitlines() if os.path.exists(log) else []
    want = {"pull " + i[0] for i in images if i[0]}
    if set(asked) != want:
        raise Violation("cwl-docker-extract asks for %s instead of %s" % (asked, sorted(want)))
    if ("Unable to save image" in err.getvalue()) != any(not i[0] for i in images):
        raise Violation("cwl-docker-extract says %r" % err.getvalue())
    if want and any(not i[0] for i in images):
        ctx.label("some images cannot be pulled")


PROPS = [Prop("extract", cases(), check, quick=1800, thorough=60000)]
