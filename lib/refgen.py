"""Workflows with expressions, to be refactored and run.

A case has the features that it uses; the rest is plain.  All the values are small, and every original runs.
"""

from hypothesis import strategies as st

VERSIONS = ["v1.0", "v1.1", "v1.2"]
WF = {"i": ("int", [3, 0, 12]), "j": ("int", [1, 7]), "s": ("string", ["hello", "a b", "q\"u'o", "x$y\\z", "é", ""]), "u": ("string", ["there", "1"]), "l": ("int[]", [[1, 2, 3], [5]]),
      "m": ("string[]", [["a", "b"], ["c"]]), "f": ("File", ["one\ntwo\n", "f"]), "n": ("int?", [None, 4]), "b": ("boolean", [True, False])}

FEATURES = ["valueFrom", "valueFrom no source", "valueFrom other", "valueFrom list", "scatter", "scatter valueFrom", "when", "pickValue", "etool", "etool lib", "argument", "argument binding", "input binding",
            "stdout", "glob", "outputEval", "env", "resource", "workdir text", "workdir name", "workdir file", "wf env", "wf resource", "wf workdir", "interpolation", "nested", "file", "record", "optional", "js text",
            "hint env", "limits", "workdir list", "js hint", "load contents", "step default", "shared tool", "deep", "step env", "step resource", "step workdir"]
ONLY12 = {"when", "pickValue"}
NOT10 = {"limits"}


class G:
    def __init__(self, draw):
        self.draw = draw

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def chance(self, n):
        return self.draw(st.integers(0, n - 1)) == n - 1


def wrap(g, js):
    """One of the spellings of an expression."""
    k = g.draw(st.integers(0, 6))
    if k <= 1:
        return "$(%s)" % js
    if k == 2:
        return "${return %s;}" % js
    if k == 3:
        return "${return %s}" % js
    if k == 4:
        return "${\n  // a comment\n  var r = %s;\n  return r;\n}" % js
    if k == 5:
        return "${ var r = [%s]; for (var k = 0; k < 2; k++) { if (k == 1) { return r[0]; } } return null; }" % js
    return "$( %s )" % js


def int_js(g, *terms):
    t = g.pick(terms)
    o = g.pick(terms)
    return g.pick(["%s + 1" % t, "%s * 2" % t, "(%s > 2) ? 9 : 4" % t, "Math.max(%s, %s)" % (t, o), "%s - %s + 3" % (t, o), "parseInt('1' + Math.abs(%s))" % t, "[%s, %s].length" % (t, o)])


def str_js(g, *terms, text=False):
    t, o = g.pick(terms), g.pick(terms)
    plain = ["%s + '-x'" % t, "%s + %s" % (t, o), "'n' + %s.length" % t, "%s.toUpperCase()" % t, "[%s, \"z\"].join(\"_\")" % t, "(%s ? 'yes' : 'no')" % t]
    odd = ["%s + \"\\\"\"" % t, "%s.split('\\n').join('/')" % t, "%s + 'a\\tb'" % t, "%s.replace(/[a-h]/g, '$&$&')" % t, "'$' + '(' + %s + ')'" % t, "%s + '\\\\'" % t, "'}' + %s + '{'" % t, "%s + ')('" % t, "%s + '$(inputs.q)'" % t, "'${' + %s + '}'" % t]
    return g.pick(odd if text else plain)


@st.composite
def cases(draw, features=None, max_features=3, version=None):
    g = G(draw)
    version = version or g.pick(VERSIONS)
    pool = [f for f in (features or FEATURES) if (version == "v1.2" or f not in ONLY12) and (version != "v1.0" or f not in NOT10)]
    feats = draw(st.lists(st.sampled_from(pool), min_size=0 if g.chance(12) else 1, max_size=max_features, unique=True))
    text = "js text" in feats
    used = set()
    steps, files = [], {}
    avail = {"int": [], "string": [], "File": []}

    def wf(name):
        used.add(name)
        return name

    def source(t):
        own = {"int": ["i", "j"], "string": ["s", "u"], "File": ["f"]}[t]
        if avail[t] and g.chance(2):
            return g.pick(avail[t])
        return wf(g.pick(own))

    def spec(src):
        return src if g.chance(2) else {"source": src}

    def tool_step(kind):
        """A step and the type of its output o."""
        sid = "s%d" % (len(steps) + 1)
        step = {"id": sid, "in": {"x": spec(source("int")), "y": spec(source("string"))}, "out": ["o"]}
        x, y = "inputs.x", "inputs.y"
        reqs = {}
        js = False
        if kind == "etool":
            t = g.pick(["int", "string"])
            e = int_js(g, x) if t == "int" else str_js(g, y, text=text)
            lib = None
            if "etool lib" in feats:
                e = g.pick(["twice(%s)" % x, "twice(twice(%s))" % x])
                t = "int"
                lib = "function twice(x) { return 2 * x; }"
            js = lib or True
            form = g.pick(["${return {\"o\": %s};}", "$({\"o\": %s})", "${\n  var r = {};\n  r['o'] = %s;\n  return r; }", "${return {'o': %s}}"])
            run = {"class": "ExpressionTool", "inputs": {"x": "int", "y": "string"}, "outputs": {"o": t}, "expression": form % e}
            if g.chance(4):
                run["inputs"]["k"] = {"type": "int", "default": 5}
                run["expression"] = form % ("inputs.k + " + e)
            if "file" in feats:
                step["in"]["f"] = source("File")
                run["inputs"]["f"] = "File"
                run["outputs"]["o"], t = "string", "string"
                run["expression"] = form % g.pick(["inputs.f.basename", "inputs.f['class'] + inputs.f.size"])
            if "optional" in feats:
                step["in"]["n"] = wf("n")
                run["inputs"]["n"] = "int?"
                run["outputs"]["o"], t = "int", "int"
                run["expression"] = form % "inputs.n === null ? 1 : inputs.n"
        else:
            run = {"class": "CommandLineTool", "baseCommand": ["printf", "%s;"], "inputs": {"x": "int", "y": "string"}, "outputs": {"o": "File"}, "stdout": "out.txt"}
            args = []
            outs = "glob"
            t = "File"
            if "argument" in feats:
                args.append(wrap(g, int_js(g, x) if g.chance(2) else str_js(g, y, text=text)))
                js = True
            if "argument binding" in feats:
                args.append({"valueFrom": wrap(g, int_js(g, x)), "position": g.pick([0, 2]), "prefix": g.pick(["-n", "--n="])} if g.chance(2) else {"valueFrom": wrap(g, str_js(g, y, text=text)), "shellQuote": True})
                js = True
            if "interpolation" in feats:
                args.append(g.pick(["a$(inputs.x + 1)b", "$(inputs.x)-$(inputs.y)", "$(inputs.y.length) and $(inputs.x)", "q\"$(inputs.x * 2)\"", "$(inputs.x)$(inputs.x+2)", " $(inputs.x+1) ", "\\$(no) $(inputs.x+1)", "it's $(inputs.y)!"]))
                js = True
            if "input binding" in feats:
                b = {"valueFrom": wrap(g, int_js(g, "self", x))} if g.chance(2) else {"valueFrom": wrap(g, int_js(g, "self")), "prefix": "-x", "position": 1}
                run["inputs"]["x"] = {"type": "int", "inputBinding": b}
                if g.chance(2):
                    run["inputs"]["y"] = {"type": "string", "inputBinding": {"valueFrom": wrap(g, str_js(g, "self", y, text=text))}}
                js = True
            if "file" in feats:
                step["in"]["f"] = source("File")
                run["inputs"]["f"] = g.pick(["File", {"type": "File", "inputBinding": {"valueFrom": g.pick(["$(self.basename)", "$(self.nameroot + '!')", "$(inputs.f.basename)"])}}])
                if isinstance(run["inputs"]["f"], str):
                    args.append({"valueFrom": g.pick(["$(inputs.f.basename)", "$(inputs.f.nameroot.toUpperCase())", "$(inputs.f.size + 1)"])})
                js = True
            if "optional" in feats:
                step["in"]["n"] = wf("n")
                run["inputs"]["n"] = "int?"
                if g.chance(3):
                    run["inputs"]["n"] = {"type": "int?", "inputBinding": {"valueFrom": wrap(g, g.pick(["'n' + self", "self + 1", "inputs.n === null ? 'none' : self"])), "prefix": "-n"}}
                if g.chance(3):
                    step["in"]["n"] = {"source": wf("n"), "default": 4, "valueFrom": wrap(g, g.pick(["self === 4 ? null : self", "null", "inputs.x > 3 ? null : self", "self * 2"]))}
                args.append(g.pick(["$(inputs.n)", "$(inputs.n === null ? 'none' : inputs.n)"]) if g.chance(3) else {"valueFrom": "$(inputs.n === null ? 'none' : 'n' + inputs.n)"})
                js = True
            if "record" in feats:
                run["inputs"]["r"] = {"type": {"type": "record", "name": "rec", "fields": {"a": "int", "c": "string"}}, "default": {"a": 4, "c": "cc"}}
                args.append({"valueFrom": g.pick(["$(inputs.r.a + 1)", "$(inputs.r.c)", "$(inputs.r.c + inputs.r.a)"])})
                js = True
            if "stdout" in feats:
                run["stdout"] = wrap(g, g.pick(["'n' + inputs.x", "inputs.x + '.txt'"]))
                outs = "stdout"
                js = True
            if "glob" in feats:
                run["stdout"] = "out$(inputs.x)"
                outs = {"type": "File", "outputBinding": {"glob": wrap(g, g.pick(["'out' + inputs.x", "['out' + inputs.x]"]))}}
                if g.chance(2):
                    found = wrap(g, "'out' + inputs.x")
                    outs["outputBinding"]["glob"] = g.pick([["none*", found], [wrap(g, "'none' + inputs.x"), found], [found, wrap(g, "'no' + inputs.y.length")], [found, "none"]])
                js = True
            if "env" in feats:
                reqs["EnvVarRequirement"] = {"envDef": {"V": wrap(g, str_js(g, y, text=text))}} if g.chance(2) else {"envDef": [{"envName": "W", "envValue": g.pick(["w", "$(inputs.y)", wrap(g, "'w' + inputs.x")])}, {"envName": "V", "envValue": wrap(g, "'v' + inputs.x")}]}
                run["baseCommand"] = ["sh", "-c", "printf '%s;' \"$V\" \"$W\" \"$@\"", "sh"]
                js = True
            hints = {}
            js = js or "load contents" in feats
            if "hint env" in feats:
                hints["EnvVarRequirement"] = {"envDef": {"V": wrap(g, str_js(g, y, text=text))}}
                if "env" not in feats:
                    run["baseCommand"] = ["sh", "-c", "printf '%s;' \"$V\" \"$@\"", "sh"]
                js = True
            if "limits" in feats:
                name, attr, e = g.pick([("ToolTimeLimit", "timelimit", "600 + inputs.x"), ("NetworkAccess", "networkAccess", "inputs.x > 2"), ("WorkReuse", "enableReuse", "inputs.y == 'a'")])
                (reqs if g.chance(2) else hints)[name] = {attr: wrap(g, e)}
                js = True
            if hints:
                run["hints"] = hints if g.chance(2) else [dict(v, **{"class": k}) for k, v in hints.items()]
            sreqs = {}
            if "step env" in feats:
                sreqs["EnvVarRequirement"] = {"envDef": {g.pick("VE"): wrap(g, str_js(g, y, text=text)), "W": g.pick(["w", wrap(g, "'w' + inputs.x")])}}
                run["baseCommand"] = ["sh", "-c", "printf '%s;' \"$V\" \"$W\" \"$E\" \"$@\"", "sh"]
                js = True
            if "step resource" in feats:
                sreqs["ResourceRequirement"] = g.pick([{"ramMin": wrap(g, "100 + inputs.x")}, {"ramMin": wrap(g, "200 + 1"), "coresMin": 1}, {"coresMin": wrap(g, "inputs.x > 100 ? 2 : 1"), "ramMin": 64}])
                args.append("$(runtime.ram)")
                js = True
            if "wf env" in feats and "step env" not in feats:
                run["baseCommand"] = ["sh", "-c", "printf '%s;' \"$V\" \"$E\" \"$@\"", "sh"]
            if "resource" in feats:
                reqs["ResourceRequirement"] = g.pick([{"coresMin": wrap(g, "1 + (inputs.x > 2 ? 1 : 0)")}, {"ramMin": wrap(g, "100 + inputs.x"), "coresMin": 1}, {"coresMin": 1, "coresMax": wrap(g, "inputs.x > 100 ? 2 : 1")}])
                args += ["$(runtime.cores)"] + ([{"valueFrom": "$(runtime.ram)"}] if "ramMin" in reqs["ResourceRequirement"] else [])
                js = True
            if "wf resource" in feats:
                args.append("$(runtime.ram)")
            entries = []
            if "workdir text" in feats:
                entries.append({"entryname": "w1", "entry": wrap(g, str_js(g, y, text=text)) if g.chance(3) else g.pick(["x: $(inputs.x + 1)\nline\n", "$(inputs.y)", "plain $(inputs.x)"])})
                js = True
            if "workdir name" in feats:
                entries.append({"entryname": wrap(g, "'w2' + ''"), "entry": g.pick(["plain\n", "$(inputs.y)", "$(inputs.y + 1)"])})
                js = True
            if "workdir file" in feats:
                step["in"]["f"] = source("File")
                run["inputs"]["f"] = "File"
                entries.append({"entryname": "w3", "entry": wrap(g, "inputs.f")})
                js = True
            if "workdir list" in feats and "workdir file" not in feats:  # cwltool stages a file once
                step["in"]["f"] = source("File")
                run["inputs"]["f"] = "File"
                if not entries and g.chance(2):
                    entries = wrap(g, g.pick(["[inputs.f]", "[{entryname: 'w5', entry: 'e' + inputs.x}]", "[inputs.f, {entryname: 'w6', entry: inputs.y}]"]))
                    run["baseCommand"] = ["sh", "-c", "cat w*; ls; printf '%s;' \"$@\"", "sh"]
                else:
                    entries.append(wrap(g, g.pick(["inputs.f", "[inputs.f]"])))
                js = True
            if entries:
                reqs["InitialWorkDirRequirement"] = {"listing": entries}
                run["baseCommand"] = ["sh", "-c", "cat w* data.txt 2>/dev/null; printf '%s;' \"$@\"", "sh"]
            if "step workdir" in feats:
                sreqs["InitialWorkDirRequirement"] = {"listing": [{"entryname": "w8", "entry": wrap(g, str_js(g, y, text=text))}]}
                js = True
                if not entries:
                    run["baseCommand"] = ["sh", "-c", "cat w*; printf '%s;' \"$@\"", "sh"]
            if sreqs:
                step["requirements"] = sreqs if g.chance(2) else [dict(v, **{"class": k}) for k, v in sreqs.items()]
            if "wf workdir" in feats and not entries:
                run["baseCommand"] = ["sh", "-c", "cat w*; printf '%s;' \"$@\"", "sh"]
            if "outputEval" in feats:
                t, ev = g.pick([("int", "self[0].contents.length"), ("string", "self[0].contents"), ("string", "self[0].contents + inputs.y"), ("string", "'b' + self.length"), ("File", "self[0]")])
                outs = {"type": t, "outputBinding": {"glob": run["stdout"] if outs != "stdout" else "*.txt", "loadContents": True, "outputEval": wrap(g, ev)}}
                if outs["outputBinding"]["glob"] == "*.txt":
                    run["stdout"] = "o.txt"
                js = True
            if outs == "stdout" and g.chance(3):
                outs = "stderr"
                run["stderr"] = run.pop("stdout")
                run["baseCommand"] = ["sh", "-c", "{ %s; } >&2" % (run["baseCommand"][2] if run["baseCommand"][0] == "sh" else "printf '%s;' \"$@\""), "sh"]
            run["outputs"] = {"o": outs if outs in ("stdout", "stderr") else outs if outs != "glob" else {"type": "File", "outputBinding": {"glob": "out.txt"}}}
            if g.chance(3) and "input binding" not in feats:
                run["inputs"]["y"] = {"type": "string", "inputBinding": {"position": 5}}
            args = args or ["lit"]
            run["arguments"] = args
        if js and (g.chance(2) or "etool lib" in feats):
            reqs["InlineJavascriptRequirement"] = {"expressionLib": [js]} if isinstance(js, str) and not g.chance(3) else {}
            if isinstance(js, str) and not reqs["InlineJavascriptRequirement"]:
                del reqs["InlineJavascriptRequirement"]
                top["InlineJavascriptRequirement"] = {"expressionLib": [js]}
        if js and "js hint" in feats and "InlineJavascriptRequirement" in reqs and kind != "etool":
            h = reqs.pop("InlineJavascriptRequirement")
            h = dict(h, expressionLib=h.get("expressionLib", ["var unused = 1;"]))
            if isinstance(run.get("hints"), list):
                run["hints"].append(dict(h, **{"class": "InlineJavascriptRequirement"}))
            else:
                run.setdefault("hints", {})["InlineJavascriptRequirement"] = h
        if reqs:
            run["requirements"] = reqs if g.chance(2) else [dict(v, **{"class": k}) for k, v in reqs.items()]
        # the links of the step
        ins = step["in"]
        if "valueFrom" in feats:
            src = source("int")
            ins["x"] = {"source": src, "valueFrom": wrap(g, int_js(g, "self"))}
            if g.chance(2):
                ins["y"] = {"source": source("string"), "valueFrom": wrap(g, str_js(g, "self", text=text))}
        if "valueFrom no source" in feats:
            ins["y"] = {"valueFrom": g.pick([wrap(g, "'t' + 1"), "plain text", wrap(g, "'v' + inputs.x") if "valueFrom" not in feats else "$('z')"])}
        if "valueFrom other" in feats:
            ins["y"] = {"source": source("string"), "valueFrom": wrap(g, "self + inputs.x")}
            ins["x"] = source("int")
        if "valueFrom list" in feats:
            a, c = source("int"), source("int")
            ins["x"] = {"source": [a, c], "valueFrom": wrap(g, g.pick(["self[0] + self[1]", "self.length"])), "linkMerge": "merge_flattened"}
            top["MultipleInputFeatureRequirement"] = {}
        if "load contents" in feats and kind != "etool":
            ins["f"] = source("File")
            if version == "v1.0":
                run["inputs"]["f"] = {"type": "File", "inputBinding": {"loadContents": True, "valueFrom": wrap(g, "self.contents.length")}}
            elif g.chance(2):
                run["inputs"]["f"] = {"type": "File", "loadContents": True}
                run["arguments"].append({"valueFrom": wrap(g, "inputs.f.contents.length")})
            else:
                ins["f"] = {"source": ins["f"], "loadContents": True, "valueFrom": wrap(g, "self.contents")}
                run["inputs"]["f"] = {"type": "string", "inputBinding": {}}
        if "step default" in feats:
            ins["x"] = g.pick([{"default": 6}, {"default": 6, "source": wf("n")}, {"source": wf("n"), "default": 4, "valueFrom": wrap(g, "self + 1")}, {"default": 5, "valueFrom": wrap(g, "self * 2")}])
        if "scatter" in feats or "scatter valueFrom" in feats:
            step["scatter"] = "x"
            ins["x"] = wf("l")
            top["ScatterFeatureRequirement"] = {}
            if "scatter valueFrom" in feats:
                ins["x"] = {"source": "l", "valueFrom": wrap(g, int_js(g, "self"))}
            if g.chance(3):
                step["scatter"] = ["x", "y"]
                ins["y"] = wf("m")
                step["scatterMethod"] = g.pick(["flat_crossproduct", "nested_crossproduct"])
        if "when" in feats:
            step["when"] = wrap(g, g.pick(["inputs.x > 2", "inputs.y === 'hello'", "true", "inputs.b"]))
            ins["b"] = wf("b")
        steps.append(step)
        if not g.chance(2):
            name = "tool%d.cwl" % len(steps)
            files[name] = dict({"cwlVersion": version}, **run)
            if js and "InlineJavascriptRequirement" not in reqs:
                r = files[name].get("requirements", {})
                if isinstance(r, list):
                    files[name]["requirements"] = r + [{"class": "InlineJavascriptRequirement"}]
                else:
                    files[name]["requirements"] = dict(r, InlineJavascriptRequirement={})
            if "etool lib" in feats and kind == "etool":
                files[name]["requirements"] = {"InlineJavascriptRequirement": {"expressionLib": ["function twice(x) { return 2 * x; }"]}}
            step["run"] = name
            if "shared tool" in feats and len(steps) == 1:
                steps.append(dict(step, id="s9", **{"in": dict(step["in"], y={"default": "second"} if step.get("scatter") != ["x", "y"] else step["in"]["y"])}))
                shared.append((("s9"), t))
        else:
            step["run"] = run
        out_t = t
        if "scatter" in step:
            out_t = {"type": "array", "items": t}
            if step.get("scatterMethod") == "nested_crossproduct":
                out_t = {"type": "array", "items": out_t}
        elif "when" in step:
            pass
        else:
            avail[t].append("%s/o" % sid)
        return sid, out_t

    top = {}
    wf_out = {}
    shared = []
    nsteps = g.pick([1, 1, 2])
    for k in range(nsteps):
        kind = "etool" if ("etool" in feats or "etool lib" in feats) and (k == 0 or g.chance(2)) else "tool"
        sid, t = tool_step(kind)
        if "when" in steps[-1]:
            wrapped = t
            if "scatter" in steps[-1]:
                if version == "v1.2":
                    inner = t
                    while isinstance(inner["items"], dict):
                        inner = inner["items"]
                    inner["items"] = ["null", inner["items"]]
                wf_out["o_" + sid] = {"type": wrapped, "outputSource": sid + "/o"}
                if "pickValue" in feats and steps[-1].get("scatterMethod") != "nested_crossproduct":
                    wf_out["o_" + sid] = {"type": {"type": "array", "items": inner["items"][1]}, "outputSource": sid + "/o", "pickValue": "all_non_null"}
            elif "pickValue" in feats:
                top["MultipleInputFeatureRequirement"] = {}
                other = {"int": "i", "string": "s", "File": "f"}[t]
                pv = g.pick(["first_non_null", "all_non_null"])
                wf_out["o_" + sid] = {"type": t if pv == "first_non_null" else {"type": "array", "items": t}, "outputSource": [sid + "/o", wf(other)], "pickValue": pv}
            else:
                wf_out["o_" + sid] = {"type": ["null", t], "outputSource": sid + "/o"}
        else:
            wf_out["o_" + sid] = {"type": t, "outputSource": sid + "/o"}
            if "pickValue" in feats and isinstance(t, str):
                top["MultipleInputFeatureRequirement"] = {}
                pv = g.pick(["first_non_null", "all_non_null", "the_only_non_null"])
                if pv == "the_only_non_null" and t == "int":
                    wf_out["o_" + sid] = {"type": "int", "outputSource": [wf("n"), sid + "/o"], "pickValue": pv}
                elif pv != "the_only_non_null":
                    other = {"int": "n", "string": "s", "File": "f"}[t]
                    wf_out["o_" + sid] = {"type": t if pv == "first_non_null" else {"type": "array", "items": t}, "outputSource": [wf(other), sid + "/o"], "pickValue": pv}
    for sid, t in shared:
        like = wf_out["o_s1"]
        wf_out["o_s9"] = dict(like, outputSource="s9/o") if isinstance(like["outputSource"], str) else {"type": like["type"], "outputSource": ["s9/o" if x == "s1/o" else x for x in like["outputSource"]], "pickValue": like["pickValue"]}
    if "wf env" in feats:
        top["EnvVarRequirement"] = {"envDef": {"E": wrap(g, g.pick(["'e' + 1", "'k'.toUpperCase()"]))}}
    if "wf resource" in feats:
        top["ResourceRequirement"] = {"ramMin": wrap(g, "100 + 28"), "ramMax": 200}
    if "wf workdir" in feats:
        top["InitialWorkDirRequirement"] = {"listing": [{"entryname": "w9", "entry": wrap(g, "'text' + 1")}]}
    exprs = [s for s in steps if any(isinstance(v, dict) and "valueFrom" in v for v in s["in"].values())]
    if exprs:
        top["StepInputExpressionRequirement"] = {}
    top.setdefault("InlineJavascriptRequirement", {})
    doc = {"cwlVersion": version, "class": "Workflow", "requirements": top,
           "inputs": {n: WF[n][0] for n in WF if n in used}, "outputs": wf_out, "steps": {s["id"]: {k: v for k, v in s.items() if k != "id"} for s in steps}}
    entry = "wf.cwl"
    if "nested" in feats or "deep" in feats:
        sub = {k: v for k, v in doc.items()}
        files["sub.cwl"] = sub
        doc = {"cwlVersion": version, "class": "Workflow", "requirements": {"SubworkflowFeatureRequirement": {}}, "inputs": dict(doc["inputs"]),
               "outputs": {n: {"type": o["type"], "outputSource": "nest/" + n} for n, o in wf_out.items()},
               "steps": {"nest": {"in": {n: n for n in doc["inputs"]}, "out": list(wf_out), "run": "sub.cwl"}}}
        if g.chance(2):
            doc["steps"]["nest"]["run"] = {k: v for k, v in sub.items() if k != "cwlVersion"}
            del files["sub.cwl"]
        if "deep" in feats:
            inner = doc
            name = "nest"
            doc = {"cwlVersion": version, "class": "Workflow", "requirements": {"SubworkflowFeatureRequirement": {}}, "inputs": dict(inner["inputs"]),
                   "outputs": {n: {"type": o["type"], "outputSource": "outer/" + n} for n, o in wf_out.items()},
                   "steps": {"outer": {"in": {n: n for n in inner["inputs"]}, "out": list(wf_out), "run": {k: v for k, v in inner.items() if k != "cwlVersion"}}}}
            if g.chance(2):
                files["mid.cwl"] = inner
                doc["steps"]["outer"]["run"] = "mid.cwl"
    files["wf.cwl"] = doc
    if len(steps) == 1 and "tool1.cwl" in files and not exprs and not g.chance(3) and not {"scatter", "when", "wf env", "wf workdir", "wf resource", "nested", "step default"} & set(feats):
        entry = "tool1.cwl"
    job = {n: g.pick(WF[n][1]) for n in sorted(used)}
    if entry != "wf.cwl":
        src = steps[0]["in"]
        job = {k: {"x": 3, "y": "hello", "n": None, "f": "one\n"}[k] for k in files[entry]["inputs"] if k in src and k in "xynf"}
        job["y"] = g.pick(WF["s"][1])
    return {"version": version, "features": feats, "files": files, "entry": entry, "job": job,
            "options": draw(st.lists(st.sampled_from(["--etools", "--etools", "--skip-some1", "--skip-some2"]), max_size=2, unique=True))}
