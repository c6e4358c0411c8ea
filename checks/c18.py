"""C18: pulling images, with stand-ins for the container engines."""

import contextlib
import importlib
import io
import json
import logging
import os
import shutil
import subprocess
from pathlib import Path

from hypothesis import strategies as st

from lib.pbt import Prop, Violation

from checks.c17 import command, complete

from cwl_utils import docker_extract, image_puller, singularity, utils

RULE = ("A case is a history of pulls with engines that may fail, a pair of image references, or what an installed engine reports; "
        "non-trivial when an image is already there, forced or fails, or the pair is similar, or the version is near a limit.")
ASSUMPTIONS = ["the engines are stand-ins on the PATH that record their arguments: docker, podman and nerdctl (pull IMAGE; save -o FILE IMAGE, which podman refuses when the file exists), "
               "singularity and apptainer (pull [--force] --name FILE docker://IMAGE, which refuses an existing file without --force; exec; --version)",
               "the version is the one of the command named singularity", "apptainer has versions from 1.0", "one process at a time uses the target directory"]

ENGINES = {"docker": ["docker", "podman", "nerdctl"], "singularity": ["singularity", "apptainer"]}
# no two of these differ in separators only
IMAGES = ["debian", "debian:latest", "debian:stable-slim", "quay.io/bio/tool:1.0", "quay.io/bio/tool:1.1", "localhost:5000/tool", "localhost:5000/tool:v1", "a/b/c@sha256:" + "ab" * 32,
          "x-y.z", "debian:12", "debia"]
VERSIONS = {"singularity": ["2.5", "2.5.2", "2.6", "2.6.0", "2.6.1", "2.7", "3.0", "3.0.3", "3.1", "3.1.0", "3.3.9", "3.4", "3.4.2", "3.6", "3.6.4", "4.6.1", "3.10.0", "3.11.4", "4.0", "4.0.1", "10.2.6"],
            "apptainer": ["1.0.0", "1.1", "1.2.5", "2.6", "2.6.1", "3.0.0", "3.4", "10.0"]}
VERSIONS["singularity-ce"] = VERSIONS["singularity"]

SCRIPT = r"""#!/bin/sh
# a stand-in for a container engine
S='@STATE@'
ENGINE="${0##*/}"
{ printf '%s\n' "$ENGINE"; for a; do printf '%s\n' "$a"; done; echo '=='; } >> "$S/log"
for a; do last="$a"; done
fails() { [ -e "$S/fail-$1" ]; }
case "$ENGINE:$1" in
*:--version) cat "$S/version"; exit 0;;
*:exec) cat "$S/exec" >&2; exit 255;;
singularity:pull|apptainer:pull)
  force=; name=; prev=
  for a; do case "$a" in --force|-F) force=1;; esac; [ "$prev" = --name ] && name="$a"; prev="$a"; done
  if [ -e "$name" ] && [ -z "$force" ]; then echo "FATAL: Image file already exists: $name"; exit 255; fi
  if fails pull; then [ -e "$S/quiet" ] || echo "FATAL: no such $last, sorry" >&2; exit 255; fi
  printf '%s\n' "${last#docker://}" > "$name"; exit 0;;
*:pull)
  if fails pull; then [ -e "$S/quiet" ] || echo "Error: no such $last, sorry" >&2; exit 1; fi
  printf '%s\n' "$last" >> "$S/store"; exit 0;;
*:save)
  name=; prev=
  for a; do case "$prev" in -o|--output) name="$a";; esac; prev="$a"; done
  if [ "$ENGINE" = podman ] && [ -e "$name" ]; then echo "Error: docker-archive doesn't support modifying existing images" >&2; exit 125; fi
  grep -qxF -e "$last" "$S/store" || { echo "Error: $last: image not known" >&2; exit 125; }
  if fails save; then [ -e "$S/quiet" ] || echo part > "$name"; exit 1; fi
  printf '%s\n' "$last" > "$name"; exit 0;;
esac
echo "unknown command $*" >&2
exit 64
"""


class Fakes:
    def __init__(self):
        self.base = os.path.join(os.environ["TMPDIR"], "pull")
        shutil.rmtree(self.base, ignore_errors=True)
        self.state, self.dir, bin_ = (os.path.join(self.base, d) for d in ("state", "new/images", "bin"))
        for d in (self.state, bin_):
            os.makedirs(d)
        for e in ENGINES["docker"] + ENGINES["singularity"]:
            with open(os.path.join(bin_, e), "w") as f:
                f.write(SCRIPT.replace("@STATE@", self.state))
            os.chmod(os.path.join(bin_, e), 0o755)
        self.put("store", "")
        self.path = bin_ + ":/usr/bin:/bin"
        self.cwd = os.path.join(self.base, "cwd")
        os.makedirs(self.cwd)

    def put(self, name, text):
        with open(os.path.join(self.state, name), "w") as f:
            f.write(text)

    def flag(self, name, on):
        p = os.path.join(self.state, name)
        if on:
            self.put(name, "")
        elif os.path.exists(p):
            os.unlink(p)

    def calls(self):
        p = os.path.join(self.state, "log")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            out = [c.split("\n") for c in f.read().split("\n==\n") if c]
        os.unlink(p)
        return out

    def files(self, d=None):
        out = {}
        for r, _, fs in os.walk(d or self.dir):
            for f in fs:
                p = os.path.join(r, f)
                with open(p) as h:
                    out[os.path.relpath(p, d or self.dir)] = h.read().rstrip("\n")
        return out


@contextlib.contextmanager
def environment(fakes):
    old, cwd = os.environ["PATH"], os.getcwd()
    os.environ["PATH"] = fakes.path
    os.chdir(fakes.cwd)
    forget()
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        logging.disable(logging.NOTSET)
        os.environ["PATH"] = old
        os.chdir(cwd)
        forget()


def forget():
    """Start anew: what earlier cases found out about the engine may be kept anywhere in these modules."""
    for m in (singularity, image_puller, docker_extract, utils):
        importlib.reload(m)


@st.composite
def histories(draw):
    images = draw(st.lists(st.sampled_from(IMAGES), min_size=1, max_size=3, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["docker", "singularity"]))
        ops.append({"kind": kind, "engine": draw(st.sampled_from(ENGINES[kind])), "images": [draw(st.sampled_from(images)) for _ in range(draw(st.sampled_from([1, 1, 2])))],
                    "force": draw(st.integers(0, 2)) == 2, "fail": draw(st.sampled_from([None, None, None, None, "pull", "quiet pull", "save", "quiet save"])),
                    "how": draw(st.sampled_from(["api", "api", "cli", "cli", "no directory"])), "default": draw(st.booleans())})
        if ops[-1]["default"]:
            ops[-1]["engine"] = ENGINES[kind][0]
    return {"ops": ops, "version": draw(st.sampled_from(["singularity version 3.8.0", "singularity-ce version 4.1.0-jammy", "apptainer version 1.2.5", "singularity version 2.6.1-dist"]))}


def pulled(call):
    """The image that this call of an engine asks for."""
    if call[1] != "pull":
        return None
    last = call[-1]
    if call[0] in ENGINES["singularity"]:
        return last[len("docker://"):] if last.startswith("docker://") else "?" + last
    return last


def document(fakes, images):
    tool = {"class": "CommandLineTool", "baseCommand": "true", "inputs": [], "outputs": []}
    doc = {"cwlVersion": "v1.2", "class": "Workflow", "inputs": [], "outputs": [],
           "steps": [{"id": "s%d" % k, "in": [], "out": [], "run": dict(tool, requirements=[dict(i, **{"class": "DockerRequirement"})])}
                     for k, i in enumerate([{"dockerImageId": "built"}] + [{"dockerPull": i} for i in images] + [{"dockerFile": "FROM debian"}])]}
    p = os.path.join(fakes.base, "doc.cwl")
    with open(p, "w") as f:
        json.dump(doc, f)
    return p


def call(fakes, op, image):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        if op["how"] == "cli":
            args = [document(fakes, [image]), "--dir", fakes.dir]
            args += [] if op["default"] else ["--container-engine", op["engine"]]
            args += ["-s"] if op["kind"] == "singularity" else []
            args += ["--force-download"] if op["force"] else []
            code = command(docker_extract, args)
            if code:
                raise Violation("cwl-docker-extract %s ends with %r" % (" ".join(args[1:]), code))
        else:
            cls = {"docker": image_puller.DockerImagePuller, "singularity": image_puller.SingularityImagePuller}[op["kind"]]
            directory = None if op["how"] == "no directory" else fakes.dir
            if directory:
                os.makedirs(directory, exist_ok=True)
            p = cls(image, directory if len(image) % 2 else directory and Path(directory), op["engine"], op["force"])
            p.save_docker_image()
    return out.getvalue()


def check_history(case, ctx):
    fakes = Fakes()
    fakes.put("version", case["version"] + "\n")
    have = {}  # (directory, kind, image): file name
    with environment(fakes):
        for op in case["ops"]:
            for image in op["images"]:
                want = complete(image) if op["how"] == "cli" else image
                directory = fakes.cwd if op["how"] == "no directory" else fakes.dir
                no_file = op["how"] == "no directory" and op["kind"] == "docker"
                key = (directory, op["kind"], want)
                fakes.flag("fail-pull", (op["fail"] or "").endswith("pull"))
                fakes.flag("fail-save", (op["fail"] or "").endswith("save"))
                fakes.flag("quiet", (op["fail"] or "").startswith("quiet"))
                before = fakes.files(directory)
                error, out = None, ""
                try:
                    out = call(fakes, op, image)
                except subprocess.SubprocessError as e:
                    error = e
                except Exception as e:
                    raise Violation("%s of %s: %s: %s" % (op["engine"], image, type(e).__name__, e)) from e
                after = fakes.files(directory)
                calls = [c for c in fakes.calls() if c[1] != "--version"]
                asked = [(c[0], pulled(c)) for c in calls if c[1] == "pull"]
                cached = key in have and not op["force"] and not no_file
                fails = not cached and ((op["fail"] or "").endswith("pull") or ((op["fail"] or "").endswith("save") and op["kind"] == "docker" and not no_file))
                what = "%s of %s by %s%s" % ("forced pull" if op["force"] else "pull", image, op["engine"], " when there" if key in have else "")
                if cached or op["force"] or fails:
                    ctx.nontrivial()
                ctx.label("engine:" + op["engine"], "cached" if cached else "forced" if op["force"] and key in have else "new", *(["fails:" + op["fail"]] if fails else []))
                if fails != (error is not None):
                    raise Violation("%s: %s" % (what, "the failure is not reported" if fails else "error %s %s" % (error, getattr(error, "stderr", ""))))
                others = {k: v for k, v in before.items() if k != have.get(key)}
                if {k: v for k, v in after.items() if k in others} != others:
                    raise Violation("%s: other files change: %s, then %s" % (what, before, after))
                if cached:
                    if asked or after != before:
                        raise Violation("%s: it is pulled again: %s" % (what, calls))
                    continue
                if asked != [(op["engine"], want)]:
                    raise Violation("%s: %s is asked for %s" % (what, op["engine"], asked))
                if fails:
                    if op["fail"] == "pull" and "no such" not in str(error):
                        raise Violation("%s: the message of the engine is lost: %s" % (what, error))
                    left = {k: v for k, v in after.items() if k not in others}
                    if left and (key not in have or left != {have[key]: want}):
                        raise Violation("%s fails and leaves %s" % (what, left))
                    if not left:
                        have.pop(key, None)
                    continue
                new = {k: v for k, v in after.items() if k not in others}
                if no_file:
                    if new:
                        raise Violation("%s leaves %s" % (what, new))
                    continue
                if list(new.values()) != [want]:
                    raise Violation("%s leaves %s" % (what, new))
                name = list(new)[0]
                if have.get(key, name) != name:
                    raise Violation("%s: the file is called %s, then %s" % (what, have[key], name))
                suffix = ".tar" if op["kind"] == "docker" else ".img" if "2.6" in case["version"] else ".sif"
                if not name.endswith(suffix) or "/" in name or ":" in name:
                    raise Violation("%s: the file is called %s" % (what, name))
                if op["kind"] == "singularity" and name != want.replace("/", "_").replace(":", "_") + suffix:
                    raise Violation("%s: the file is called %s, where CWL runners do not find it" % (what, name))
                if op["kind"] == "docker" and name not in out.split():
                    raise Violation("%s: the file is not the one that is printed: %s" % (what, out))
                have[key] = name
            if op["how"] == "cli" and op["kind"] == "singularity":
                before = fakes.files(fakes.cwd)
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    code = command(docker_extract, [document(fakes, op["images"]), "-s"])
                if not code or fakes.calls() or fakes.files(fakes.cwd) != before:
                    raise Violation("cwl-docker-extract -s without a directory gives %r" % code)


PART = st.sampled_from(["a", "b", "ab", "debian", "x-y", "x.y", "x_y", "v1", "1", "latest", "quay.io", "localhost"])


@st.composite
def pairs(draw):
    def image():
        s = "/".join(draw(st.lists(PART, min_size=1, max_size=3)))
        if draw(st.booleans()):
            s += ":" + draw(PART)
        if draw(st.integers(0, 5)) == 5:
            s += "@sha256:" + draw(st.sampled_from(["ab", "cd"])) * 32
        return s

    a = image()
    k = draw(st.integers(0, 5))
    if k == 0 and len(a) > 1:
        i = draw(st.integers(0, len(a) - 1))
        b = a[:i] + draw(st.sampled_from(["", "x", "-", "."])) + a[i + 1:]
    elif k == 1:
        i = draw(st.integers(0, len(a)))
        b = a[:i] + draw(st.sampled_from(["a", "-", "1"])) + a[i:]
    elif k == 2:
        b = a[::-1] if a.strip("/:") == a else image()
    elif k == 3:
        b = a.replace("_", "/") if draw(st.booleans()) else a.replace("/", "_")
    else:
        b = image()
    return {"images": [a, b], "kind": draw(st.sampled_from(["docker", "singularity"]))}


# The recorded findings: the references that the names in use do not tell apart.
NAMES = {"docker": lambda i: i.replace("/", "").replace(":", "_"), "singularity": lambda i: i.replace("/", "_").replace(":", "_")}


def plain(image):
    return "".join(c for c in image if c not in "/:_")


def installed():
    """For all of the pairs."""
    fakes = Fakes()
    fakes.put("version", "singularity version 3.8.0\n")
    os.environ["PATH"] = fakes.path
    forget()
    image_puller.SingularityImagePuller("a", "/nowhere", "engine", False).get_image_name()


def check_pair(case, ctx):
    a, b = case["images"]
    cls = {"docker": image_puller.DockerImagePuller, "singularity": image_puller.SingularityImagePuller}[case["kind"]]
    na, nb = (cls(i, "/nowhere", "engine", False).get_image_name() for i in (a, b))
    if a == b and na != nb:
        raise Violation("the name of %s changes: %s, %s" % (a, na, nb))
    if a != b and na == nb:
        same = NAMES[case["kind"]]
        if same(a) == same(b):
            raise Violation("%s and %s are both called %s" % (a, b, na), finding="same-name-" + case["kind"])
        raise Violation("%s and %s are both called %s" % (a, b, na))
    if a != b and (plain(a) == plain(b) or abs(len(a) - len(b)) < 2):
        ctx.nontrivial()
    ctx.label("kind:" + case["kind"])


@st.composite
def reports(draw):
    flavor = draw(st.sampled_from(["singularity", "singularity-ce", "apptainer"]))
    return {"flavor": flavor, "version": draw(st.one_of(st.sampled_from(VERSIONS[flavor]), st.tuples(st.integers(2 if flavor != "apptainer" else 1, 5), st.integers(0, 12), st.integers(0, 12)).map(lambda t: "%d.%d.%d" % t))),
            "suffix": draw(st.sampled_from(["", "", "-dist", "-1.el8", "+12-gabcdef", "-rc.1", "~rc2"])), "garbage": draw(st.integers(0, 15)) == 15,
            "exec": draw(st.sampled_from(["FATAL: kernel too old", "", "FATAL: \"No valid /bin/sh\"", "ERROR: /bin/sh doesn't exist in container", "FATAL: executable file not found in $PATH", "ERROR: Failed invoking the NEWUSER namespace runtime"]))}


def check_report(case, ctx):
    fakes = Fakes()
    fakes.put("version", ("no idea" if case["garbage"] else "%s version %s%s" % (case["flavor"], case["version"], case["suffix"])) + "\n")
    fakes.put("exec", case["exec"] + "\n")
    v = [int(x) for x in case["version"].split(".")]
    apptainer = case["flavor"] == "apptainer"
    want = {"is_apptainer_1_or_newer": apptainer, "is_version_2_6": not apptainer and v[:2] == [2, 6], "is_version_3_or_newer": apptainer or v >= [3],
            "is_version_3_1_or_newer": apptainer or v >= [3, 1], "is_version_3_4_or_newer": apptainer or v >= [3, 4]}
    with environment(fakes):
        for n, w in want.items():
            try:
                got = getattr(singularity, n)()
            except RuntimeError:
                if case["garbage"]:
                    continue
                raise
            if case["garbage"]:
                raise Violation("a version is understood in 'no idea'")
            if got is not w:
                raise Violation("%s is %r for %s %s" % (n, got, case["flavor"], case["version"]))
        if not case["garbage"]:
            got, name = singularity.get_version()
            if list(got) != v or name != case["flavor"]:
                raise Violation("get_version: %s %s for %s %s" % (name, got, case["flavor"], case["version"]))
            try:
                image = image_puller.SingularityImagePuller("a/b:1", ".", "singularity", False).get_image_name()
            except Exception as e:
                image = None
                if v >= [3] or v[:2] == [2, 6] or apptainer:
                    raise Violation("no image name: %s" % e) from e
            expect = "a_b_1.img" if want["is_version_2_6"] else "a_b_1.sif" if want["is_version_3_or_newer"] else None
            if image != expect:
                raise Violation("the image is called %s with %s %s" % (image, case["flavor"], case["version"]))
            if not want["is_version_2_6"] and v[0] in (2, 3):
                ctx.nontrivial()
        userns = utils.singularity_supports_userns()
        if userns != any(m in case["exec"] for m in ("No valid /bin/sh", "/bin/sh doesn't exist in container", "executable file not found in")):
            raise Violation("singularity_supports_userns is %r when the engine says %r" % (userns, case["exec"]))
    ctx.label("flavor:" + case["flavor"])


PROPS = [Prop("pulls", histories(), check_history, quick=1600, thorough=40000), Prop("names", pairs(), check_pair, quick=3000, thorough=60000, setup=installed),
         Prop("versions", reports(), check_report, quick=1000, thorough=20000)]
