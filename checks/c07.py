"""C07: JavaScript evaluation histories."""

import concurrent.futures
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from hypothesis import strategies as st

from lib.jsgen import js_value_expr
from lib.pbt import Prop, Violation
from lib.util import same

import cwl_utils
from cwl_utils.errors import JavascriptException, WorkflowException
from cwl_utils.expression import do_eval
from cwl_utils.sandboxjs import get_js_engine

RULE = ("A case is a history of 1-10 evaluations (values of any size, errors, global pollution, libraries, console, "
        "non-termination, engine crash or kill) assigned to threads, started with no engine process; non-trivial when "
        "an evaluation follows a failure, a pollution, a large transfer, or another thread's evaluation. A discovery case is "
        "a set of installed Node.js commands (of any version, broken or missing) and container engines (stand-ins with or "
        "without the image or a registry) and evaluations of one fresh interpreter; non-trivial when the first command "
        "tried is not the one that works. A long case is 12-30 failures of one thread, each followed by an evaluation; "
        "non-trivial when 8 or more engine processes end.")
ASSUMPTIONS = ["node is in /usr/bin", "container engines are stand-ins that accept what the real command lines do", "the vm sandbox is not a security boundary: code that escapes it on purpose is only "
               "used to crash the engine", "a time limit is judged with 30 s of slack"]

POLLUTE = [
    "globalThis.leak = 1;", "Object.prototype.leak = 1;", "(0, eval)('var leak = 1');", "Array.prototype.map = null;",
    "JSON.stringify = null;", "Object.defineProperty(globalThis, 'leak', {value: 1});", "String.prototype.leak = 'x';",
    "delete globalThis.Math;", "Function('return this')().leak = 2;",
]
PROBE = ("{return [typeof leak, ({}).leak === undefined, [1, 2].map(function(x){return x + 1}), JSON.stringify([1]), "
         "typeof Math, 'a'.leak === undefined, typeof lib_a, typeof lib_b];}")
PROBE_VAL = ["undefined", True, [2, 3], "[1]", "object", True, "undefined", "undefined"]
ERRORS = ["{throw new Error('boom é');}", "(nope)", "{return undefined;}", "{var a = {}; a.a = a; return a;}", "(1 +)", "{{}",
          "(null.x)", "{throw 'text';}", "{throw undefined;}", "{return 10n;}", "(function(){})", "{x = 1; return x;}",
          "{throw new Error('" + "é" * 5000 + "');}"]

thread = st.sampled_from([0, 0, 0, 1, 2])


@st.composite
def one(draw):
    kind = draw(st.sampled_from(["val"] * 5 + ["big"] * 3 + ["bigin", "lib", "lib", "probe", "probe", "pollute", "pollute", "err",
                                                           "err", "loop", "exit", "kill", "console", "slow", "ctx", "doeval"]))
    if kind == "val":
        src, v = draw(js_value_expr())
        return [kind, src, v, draw(st.booleans())]
    if kind == "big":
        return [kind, draw(st.sampled_from(["a", "é", "漢", "😀", "\"", "\\"])), draw(st.sampled_from([1, 100, 1364, 1365, 2047, 2048, 4000, 4090, 4094, 4096, 5000, 8190, 33000, 70000])),
                draw(st.integers(0, 5))]
    if kind == "bigin":
        return [kind, draw(st.sampled_from(["a", "é", "😀", "\n"])), draw(st.sampled_from([4000, 4096, 10000, 66000, 140000]))]
    if kind == "lib":
        return [kind, draw(st.sampled_from(["lib_a", "lib_b"])), draw(st.integers(0, 99)), draw(st.integers(0, 9))]
    if kind == "pollute":
        return [kind, draw(st.sampled_from(POLLUTE))]
    if kind == "err":
        return [kind, draw(st.sampled_from(ERRORS)), draw(st.booleans())]
    if kind == "exit":
        return [kind, draw(st.sampled_from([0, 1, 3]))]
    if kind == "console":
        return [kind, draw(st.sampled_from(["x", "two\nlines", "é" * 3000])), draw(st.integers(0, 9))]
    if kind == "ctx":
        return [kind, draw(st.integers(0, 2)), draw(st.integers(0, 9))]
    if kind == "doeval":
        return [kind, draw(st.integers(0, 99)), draw(st.integers(0, 99))]
    if kind == "loop":
        return [kind, draw(st.booleans())]
    return [kind]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 10))
    ops = []
    for _ in range(n):
        o = draw(one())
        ops.append({"op": o, "thread": draw(thread), "with": draw(st.booleans()) and draw(st.booleans())})
    return ops


def children():
    out = []
    for d in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % d) as f:
                out += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return out


def state(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            st = f.read().rsplit(")", 1)[1].split()[0]
        # a process can be reaped once its leader is a zombie and its other threads are gone
        return "z" if st == "Z" and len(os.listdir("/proc/%d/task" % pid)) > 1 else st
    except OSError:
        return "X"


def kill_engines():
    """End this process's own node children."""
    pids = [p for p in children() if state(p) not in "ZX"]
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
    end = time.monotonic() + 20
    while any(state(p) not in "ZX" for p in pids) and time.monotonic() < end:
        time.sleep(0.002)


LIMIT = 30


def run_op(op):
    """None, or a description of what is wrong."""
    eng = get_js_engine()
    k = op[0]

    def expect(src, val, **kw):
        try:
            got = eng.eval(src, **kw)
        except JavascriptException as e:
            return "%s raised %s, expected %r" % (src[:200], str(e)[:300], str(val)[:200])
        if not same(got, val):
            return "%s gave %r, expected %r" % (src[:200], str(got)[:200], str(val)[:200])
        return None

    def fails(src, **kw):
        t0 = time.monotonic()
        try:
            got = eng.eval(src, **kw)
        except JavascriptException:
            dt = time.monotonic() - t0
            if dt > kw.get("timeout", 20) + LIMIT:
                return "%s with timeout %s ended after %.0f s" % (src[:100], kw.get("timeout"), dt)
            return None
        return "%s gave %r instead of raising" % (src[:200], got)

    if k == "val":
        return expect("{return %s;}" % op[1] if op[3] else "(%s)" % op[1], op[2])
    if k == "big":
        s = "x" * op[3] + op[1] * op[2]
        lit = {"\"": "'\"'", "\\": "'\\\\'"}.get(op[1], "'%s'" % op[1])
        return expect("('%s' + %s.repeat(%d))" % ("x" * op[3], lit, op[2]), s)
    if k == "bigin":
        return expect("(s.length)", len((op[1] * op[2]).encode("utf-16-le")) // 2,
                      jslib="var s = '%s';" % (op[1] if op[1] != "\n" else "\\n" * op[2]) if op[1] == "\n" else "var s = '%s';" % (op[1] * op[2]))
    if k == "lib":
        lib = "function %s(x) { return x + %d; }\nvar shared = %d;" % (op[1], op[2], op[2])
        return expect("[%s(%d), shared]" % (op[1], op[3]), [op[2] + op[3], op[2]], jslib=lib)
    if k == "probe":
        return expect(PROBE, PROBE_VAL)
    if k == "pollute":
        return expect("{%s return 1;}" % op[1], 1)
    if k == "err":
        return fails(op[1], debug=op[2])
    if k == "loop":
        if op[1]:
            t0 = time.monotonic()
            try:
                got = do_eval("${while(true){}}", {}, [{"class": "InlineJavascriptRequirement"}], None, None, {}, timeout=0.3)
            except WorkflowException:
                return None if time.monotonic() - t0 < LIMIT else "time limit of 0.3 s took %.0f s" % (time.monotonic() - t0)
            return "an endless loop gave %r" % (got,)
        return fails("{while(true){}}", timeout=0.3)
    if k == "exit":
        return fails("(globalThis.constructor.constructor('return process')().exit(%d))" % op[1], timeout=1)
    if k == "kill":
        kill_engines()
        return None
    if k == "console":
        return expect("{console.log(%s); console.error('e'); return %d;}" % (__import__("json").dumps(op[1]), op[2]), op[2], js_console=True)
    if k == "slow":
        return expect("{var t = Date.now(); while (Date.now() - t < 400) {} return 'done';}", "done", timeout=60)
    if k == "ctx":
        rc, out, err = eng.exec_js_process("base * 10 + %d" % op[2], context="({base: %d})" % op[1], timeout=60)
        if rc != 0 or out != str(op[1] * 10 + op[2]):
            return "context base=%d, expression base*10+%d gave %r" % (op[1], op[2], (rc, out, err[:200]))
        return None
    if k == "doeval":
        got = do_eval("$(inputs.a + self + runtime.cores)", {"a": op[1]}, [{"class": "InlineJavascriptRequirement"}], None, None,
                      {"cores": 5}, context=op[2])
        return None if got == op[1] + op[2] + 5 else "inputs.a=%d self=%d cores=5 gave %r" % (op[1], op[2], got)
    raise AssertionError(k)


POOLS = []


def check(case, ctx):
    if not POOLS:
        for _ in range(3):
            POOLS.append(concurrent.futures.ThreadPoolExecutor(1))
    kill_engines()
    groups = []  # operations marked "with" run at the same time as the preceding one, in another thread
    for o in case:
        if o["with"] and groups and all(o["thread"] != x["thread"] for x in groups[-1]) and o["op"][0] != "kill" and \
                all(x["op"][0] != "kill" for x in groups[-1]):
            groups[-1].append(o)
        else:
            groups.append([o])
    disturbed = False
    for i, g in enumerate(groups):
        futs = [POOLS[o["thread"]].submit(run_op, o["op"]) for o in g]
        for o, f in zip(g, futs):
            why = f.result()
            ctx.label(o["op"][0])
            if why:
                raise Violation("step %d of %s: %s" % (i, [[x["op"][0], x["thread"]] for gg in groups for x in gg], why))
        if disturbed or len(g) > 1:
            ctx.nontrivial()
        if len(g) > 1:
            ctx.label("concurrent")
        if any(o["op"][0] in ("err", "loop", "exit", "kill", "pollute", "big", "bigin", "lib") for o in g):
            disturbed = True


# ---- long histories of failures

@st.composite
def long_histories(draw):
    kinds = st.sampled_from(["kill"] * 12 + ["exit", "loop", "loop", "err", "err"])
    return {"faults": draw(st.lists(kinds, min_size=12, max_size=30)), "console": draw(st.booleans()), "thread": draw(st.integers(0, 2))}


def held():
    """Open files, and children that ended but were not waited for."""
    return len(os.listdir("/proc/self/fd")), sum(state(p) in "Zz" for p in children())


def check_long(case, ctx):
    if not POOLS:
        for _ in range(3):
            POOLS.append(concurrent.futures.ThreadPoolExecutor(1))

    def run():
        kinds = [["console", "x", 1]] if case["console"] else []
        for i, f in enumerate(["kill", "kill"] + case["faults"]):
            why = run_op(["kill"] if f == "kill" else ["exit", 1] if f == "exit" else ["loop", i % 2 == 0] if f == "loop" else ["err", ERRORS[i % len(ERRORS)], False])
            for op in kinds + [["val", "%d" % i, i, True]]:
                why = why or run_op(op)
            if why:
                return "after %d failures: %s" % (i, why)
            if i == 1:
                before = held()
        after = held()
        ends = sum(f != "err" for f in case["faults"])
        if ends >= 8:
            ctx.nontrivial()
        if after[0] - before[0] > 6:
            return "%d more files are open after %d more engine processes ended" % (after[0] - before[0], ends)
        if after[1] - before[1] > 3:
            return "%d more ended engine processes are not waited for" % (after[1] - before[1])
        return None

    why = POOLS[case["thread"]].submit(run).result()
    if why:
        raise Violation(why)


# ---- which engine is used

NODE = "/usr/bin/node"
OLD = ["v0.10.25", "v0.8.28", "v0.9.12", "v0.10.3", "v0.10.9"]
RECENT = ["v0.10.26", "v0.12.0", "v0.11.0", "v4.2.6", "v10.0.0", "v22.22.2", "v1.0.0"]
PRE = ["v23.0.0-nightly20241010abcdef", "v18.0.0-pre", "v22.0.0-rc.1"]

SH_NODE = """#!/bin/sh
if [ "$1" = -v ] || [ "$1" = --version ]; then echo %s; exit 0; fi
exec %s "$@"
"""
SH_DOCKER = """#!/bin/sh
D=%s
okimg() { case "$1" in node:alpine|docker.io/library/node:alpine|docker.io/node:alpine) ;; *) echo "no such image $1" >&2; exit 125;; esac; }
pull() { if [ -f $D/offline ]; then echo "no route to host" >&2; exit 1; fi; : > $D/have; }
case "$1" in
images)
  if [ %s = udocker ]; then
    [ $# = 1 ] || exit 1
    echo REPOSITORY; [ -f $D/have ] && echo "docker.io/library/node:alpine    ."
  else
    okimg "$3"; [ -f $D/have ] && echo 0123456789ab
  fi
  exit 0;;
pull)
  echo "pull" >> $D/log
  case "$2" in -*) echo "unknown flag: $2" >&2; exit 125;; esac
  okimg "$2"; pull; echo pulled; exit 0;;
run)
  shift
  while true; do case "$1" in
    --attach=*|--sig-proxy=*|--interactive|--rm|--device=*|-i) shift;;
    -*) echo "unknown flag: $1" >&2; exit 125;;
    *) break;;
  esac; done
  okimg "$1"
  [ -f $D/have ] || pull
  echo "run" >> $D/log
  shift; [ "$1" = node ] || exit 127
  shift; exec %s "$@";;
esac
exit 1
"""
SH_SING = """#!/bin/sh
D=%s
case "$1" in
--version|version) echo "singularity-ce version 4.1.0";;
pull)
  shift; echo "pull" >> $D/log
  F=no; [ "$1" = --force ] && { F=yes; shift; }
  [ "$1" = docker://docker.io/node:alpine ] || [ "$1" = docker://docker.io/library/node:alpine ] || [ "$1" = docker://node:alpine ] || { echo "bad image $1" >&2; exit 255; }
  [ -f $D/offline ] && { echo "no route to host" >&2; exit 255; }
  [ -f node_alpine.sif ] && [ $F = no ] && { echo "Image file already exists" >&2; exit 255; }
  echo sif > node_alpine.sif; exit 0;;
exec)
  shift
  while true; do case "$1" in
    --userns) [ -f $D/nouserns ] && { echo "user namespaces are not supported" >&2; exit 255; }; shift;;
    --pid) [ -f $D/nopid ] && { echo "the PID namespace needs privileges" >&2; exit 255; }; shift;;
    --contain|--ipc|--cleanenv) shift;;
    -*) echo "unknown flag: $1" >&2; exit 255;;
    *) break;;
  esac; done
  case "$1" in
    *hello.simg) /bin/cat $D/message >&2; exit 255;;
    docker://*node:alpine) [ -f $D/offline ] && { echo "no route to host" >&2; exit 255; };;
    *node_alpine.sif) [ -f "$1" ] || { echo "no such file $1" >&2; exit 255; };;
    *) echo "bad image $1" >&2; exit 255;;
  esac
  echo "run" >> $D/log
  shift; [ "$1" = node ] || exit 127
  shift; exec %s "$@";;
esac
exit 1
"""
CHILD = """
import json, sys, threading
sys.path[:0] = [%r]
from cwl_utils.errors import JavascriptException
from cwl_utils.sandboxjs import get_js_engine
out = []
def one(i, force):
    try:
        out.append(["value", get_js_engine().eval("{return [%%d, 'é'].concat([1]);}" %% i, timeout=60, container_engine=%r, force_docker_pull=force)])
    except JavascriptException as e:
        out.append(["refused", str(e)[:300]])
    except BaseException as e:
        out.append(["error", "%%s: %%s" %% (type(e).__name__, str(e)[:300])])
for i, (force, other) in enumerate(%r):
    t = threading.Thread(target=one, args=(i, force)) if other else None
    if t:
        t.start(); t.join()
    else:
        one(i, force)
print("RESULT" + json.dumps(out))
"""


@st.composite
def installs(draw):
    node = st.sampled_from(["missing"] * 5 + ["old"] * 3 + ["recent", "recent", "pre", "broken", "garbage", "silent", "plain"])
    kinds = [draw(node), draw(node)]
    return {
        "commands": [[k, draw(st.sampled_from({"old": OLD, "recent": RECENT, "pre": PRE}.get(k, [""])))] for k in kinds],
        "engine": draw(st.sampled_from(["docker", "podman", "udocker", "singularity", "singularity"])),
        "installed": draw(st.sampled_from([True, True, True, False])),
        "have": draw(st.booleans()), "offline": draw(st.booleans()), "nouserns": draw(st.booleans()), "nopid": draw(st.booleans()),
        "message": draw(st.sampled_from(["FATAL: \"true\": executable file not found in $PATH", "ERROR  : No valid /bin/sh in container", "FATAL:   container creation failed: /bin/sh doesn't exist in container"])),
        "cache": draw(st.booleans()),
        # [force the pull, in another thread]
        "evals": draw(st.lists(st.tuples(st.sampled_from([False, False, True]), st.booleans()).map(list), min_size=1, max_size=3)),
    }


def executable(path, text):
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)


def check_install(case, ctx):
    d = tempfile.mkdtemp(prefix="c07.")
    try:
        for sub in ("bin", "work", "cache", "state"):
            os.mkdir(os.path.join(d, sub))
        eng, state_dir = case["engine"], os.path.join(d, "state")
        usable = []
        for name, (kind, version) in zip(("nodejs", "node"), case["commands"]):
            p = os.path.join(d, "bin", name)
            if kind in ("old", "recent", "pre"):
                executable(p, SH_NODE % (version, NODE))
            elif kind == "broken":
                executable(p, "#!/bin/sh\nexit 1\n")
            elif kind == "garbage":
                executable(p, "#!/bin/sh\necho this is another program\n")
            elif kind == "silent":
                executable(p, "#!/bin/sh\nexit 0\n")
            elif kind == "plain":
                with open(p, "w") as f:
                    f.write("not a program")
            usable.append(kind in ("recent", "pre"))
        if case["installed"]:
            executable(os.path.join(d, "bin", eng),
                       SH_SING % (state_dir, NODE) if eng == "singularity" else SH_DOCKER % (state_dir, eng, NODE))
        with open(os.path.join(state_dir, "message"), "w") as f:
            f.write("WARNING: one\n" + case["message"] + "\n")
        for flag in ("offline", "nouserns", "nopid"):
            if case[flag] and not (flag == "nopid" and case["nouserns"]):
                open(os.path.join(state_dir, flag), "w").close()
        env = {"PATH": os.path.join(d, "bin"), "HOME": d, "LANG": "C.UTF-8"}
        work = os.path.join(d, "work")
        if eng == "singularity":
            where = work
            if case["cache"]:
                where = env["CWL_SINGULARITY_CACHE"] = os.path.join(d, "cache")
            if case["have"]:
                with open(os.path.join(where, "node_alpine.sif"), "w") as f:
                    f.write("sif")
        elif case["have"]:
            open(os.path.join(state_dir, "have"), "w").close()
        src = os.path.dirname(os.path.dirname(os.path.abspath(cwl_utils.__file__)))
        r = subprocess.run([sys.executable, "-c", CHILD % (src, eng, case["evals"])], cwd=work, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        lines = [x for x in r.stdout.decode().splitlines() if x.startswith("RESULT")]
        if not lines:
            raise Violation("the interpreter ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-600:]))
        got = json.loads(lines[0][6:])
        try:
            with open(os.path.join(state_dir, "log")) as f:
                log = f.read().split()
        except FileNotFoundError:
            log = []
        if any(usable):
            expect = "value"
            if log:
                raise Violation("a recent Node.js is installed, but %s was used: %r" % (eng, log))
        elif not case["installed"]:
            expect = "refused"
        elif not case["offline"]:
            expect = "value"
        elif not case["have"]:
            expect = "refused"
        else:  # an image but no registry: only a forced pull fails
            expect = None
            if not any(f for f, _ in case["evals"]):
                expect = "value"
        for i, (kind, v) in enumerate(got):
            want = expect or ("refused" if case["evals"][i][0] and i == 0 else None)
            if kind == "error":
                raise Violation("evaluation %d: %s" % (i, v))
            if want and kind != want:
                raise Violation("evaluation %d: expected %s, got %s %r (container log %r)" % (i, want, kind, v, log))
            if kind == "value" and v != [i, "é", 1]:
                raise Violation("evaluation %d gave %r" % (i, v))
        if expect == "value" and not any(usable):
            if case["evals"][0][0] and "pull" not in log:
                raise Violation("the image was not pulled although that was asked for: %r" % (log,))
            if case["have"] and not any(f for f, _ in case["evals"]) and "pull" in log:
                raise Violation("the image is there, but was pulled again: %r" % (log,))
            ctx.label("container " + eng)
        ctx.label("expect %s" % expect)
        if not usable[0]:
            ctx.nontrivial()
    finally:
        shutil.rmtree(d)


PROPS = [Prop("history", cases(), check, 360, 12000), Prop("discovery", installs(), check_install, 100, 2500),
         Prop("long", long_histories(), check_long, 24, 400)]
