import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/cwl_utils/"
p("C01","Loading then saving a CWL document preserves its content",
"For every valid CWL v1.0, v1.1 or v1.2 document, loading it and saving it gives a document that contains every field of the original with the same meaning (including requirements, hints, defaults, docs and namespaced extension fields) and nothing else. Loading the saved document again gives an equal object model, and saving that gives the identical text, with relative as well as absolute identifiers.",
["inputs"],"every schema-valid document of the three CWL versions: each process class, parameter, type, requirement and binding record with any subset of its optional fields",
"The tests load and save about ten fixed sample files; the ~80k lines of per-class field code are reached only for the fields those samples use.",
[S+"parser/__init__.py",S+"parser/cwl_v1_0.py",S+"parser/cwl_v1_1.py",S+"parser/cwl_v1_2.py"],
[("per-class fromDoc / save","src/cwl_utils/parser/cwl_v1_2.py"),("save of single and multiple processes","src/cwl_utils/parser/__init__.py:save")])
p("C02","The parser accepts exactly the valid documents and resolves references",
"A document is accepted by the loader exactly when it is valid for the CWL version it declares; an invalid one (missing required field, unknown field, wrong value type or enum symbol, wrong class, missing or repeated identifier, import or run of a file that does not exist) is rejected with a ValidationException, never with another exception and never silently. In an accepted document every identifier, source, scatter target, run and format reference is the absolute URI that the CWL identifier and link resolution rules give.",
["inputs"],"every CWL document and every small corruption of it",
"Tests contain a handful of valid files and one or two invalid ones; acceptance is a statement about all documents.",
[S+"parser/cwl_v1_0.py",S+"parser/cwl_v1_1.py",S+"parser/cwl_v1_2.py",S+"parser/__init__.py"],
[("typed loaders (record, union, enum, array, URI)","src/cwl_utils/parser/cwl_v1_2.py"),("_document_load","src/cwl_utils/parser/cwl_v1_2.py"),("version dispatch","src/cwl_utils/parser/__init__.py:load_document_by_yaml")])
p("C03","Equivalent spellings of a document load to the same object model",
"The CWL spellings that are defined to be equivalent load to the same object model: identifier maps and lists with explicit ids, requirement/hint maps and lists, the type shorthands (`T?`, `T[]`) and their expanded forms, secondaryFiles shorthand (string, list, `?` suffix) and expanded form, and `$import`/`$include` and the inlined content. The result also does not depend on whether the document was given as a path, a file URI, a string or parsed YAML.",
["inputs"],"every document and every combination of equivalent spellings and entry points",
"The tests compare two or three hand-written map/list pairs.",
[S+"parser/cwl_v1_0.py",S+"parser/cwl_v1_1.py",S+"parser/cwl_v1_2.py",S+"parser/__init__.py"],
[("IdMap, TypeDSL and SecondaryDSL loaders","src/cwl_utils/parser/cwl_v1_2.py"),("load_document, load_document_by_uri, load_document_by_string, load_document_by_yaml","src/cwl_utils/parser/__init__.py")])
p("C04","Process selection in $graph documents and version dispatch are exact",
"Loading a document with a fragment gives exactly the process with that id; without one it gives the process called main, all processes when asked for all, and an error naming the available processes otherwise. The declared cwlVersion decides which versioned object model is produced and is reported back unchanged, an unknown or missing version is refused, and saving several processes gives one $graph with all of them and a version that is at least each of theirs.",
["inputs"],"every $graph document, requested fragment, entry point, CWL version and list of processes to save",
"Tests use two fixed graph files and one missing-main case.",
[S+"parser/__init__.py"],
[("_get_id_from_graph, load_document_by_yaml, cwl_version, save","src/cwl_utils/parser/__init__.py")])
p("C05","String interpolation and escaping follow the CWL specification",
"Evaluating a field replaces each `$(...)` and (with JavaScript enabled) `${...}` by its value and keeps every other character unchanged and in order; a string that is exactly one expression yields the value itself, and a mixed string yields text with non-string values written as JSON. Backslash escapes are handled as the declared CWL version prescribes (v1.0/v1.1: the backslash protects the next character; v1.2: only `\\$(`, `\\${` and `\\\\` are special), bracket and quote nesting is respected, and malformed or failing expressions raise a WorkflowException. Text with expressions that is converted into one expression gives the same text when evaluated.",
["inputs"],"every string mixing literal text, escapes, parameter references and JavaScript, in every CWL version, with any inputs object",
"Tests evaluate a dozen fixed strings.",
[S+"expression.py"],
[("scanner","src/cwl_utils/expression.py:scanner"),("interpolate","src/cwl_utils/expression.py:interpolate"),("do_eval","src/cwl_utils/expression.py:do_eval")])
p("C06","Parameter references select exactly the addressed value",
"A parameter reference (`a.b`, `['k']`, `[\"k\"]`, `[n]`, `.length` of arrays, `null`, in any combination) evaluates to the value at that path of the context, the same one JavaScript would give, with the type preserved. A reference to a missing key, an index out of range or an index on a non-array raises a WorkflowException, and text that is not a parameter reference is refused unless JavaScript is enabled.",
["inputs"],"every JSON context and every reference path over it, valid or not",
"Tests use a few fixed references.",
[S+"sandboxjs.py",S+"expression.py"],
[("regex_eval","src/cwl_utils/sandboxjs.py:regex_eval"),("evaluator","src/cwl_utils/expression.py:evaluator")])
p("C07","JavaScript evaluations are correct, isolated and bounded in every history",
"Whatever evaluations ran before, in this or another thread, an evaluation returns the JSON value of its own expression or body, sees its own context and expression library only, and leaves nothing behind for later ones. A JavaScript error raises a JavascriptException, an evaluation exceeding its timeout is stopped and raises within a bounded time, and the engine keeps working correctly afterwards. An installed Node.js that is recent enough is used (whichever of its commands is), else one in a container of the chosen engine, whose image is pulled only if it is missing or that is asked for; without either, a JavascriptException is raised.",
["histories","inputs","fault_sequences","configurations"],"every installation of Node.js commands and container engines, and every sequence of successful, failing, crashing, global-mutating and non-terminating evaluations, of any result size, with interleaved contexts, libraries, timeouts and threads",
"Tests run single evaluations; they never look at what follows a failure, a timeout or a pollution attempt.",
[S+"sandboxjs.py",S+"expression.py",S+"cwlNodeEngine.js",S+"cwlNodeEngineWithContext.js",S+"cwlNodeEngineJSConsole.js"],
[("NodeJSEngine.exec_js_process","src/cwl_utils/sandboxjs.py:NodeJSEngine"),("NodeJSEngine.new_js_proc","src/cwl_utils/sandboxjs.py:NodeJSEngine"),("code_fragment_to_js","src/cwl_utils/sandboxjs.py"),("process cache","src/cwl_utils/sandboxjs.py")])
p("C08","Type compatibility between sources and sinks is decided correctly",
"A source type may be linked to a sink type exactly when a value of the source can be a value of the sink under the CWL rules: same or Any type, array item and record field compatibility, enums by their symbols, unions (every member must fit for a clean pass, at least one for a warning), merge_flatten and merge_nested wrapping, and optionality. The verdict (pass, warning or exception) does not depend on the spelling or order of union members, and is the same for all three CWL versions.",
["inputs"],"every pair of CWL types (primitives, File, Directory, Any, null, nested arrays, records, enums, unions) with every linkMerge and valueFrom",
"Tests check a few fixed pairs of types.",
[S+"parser/utils.py",S+"parser/cwl_v1_2_utils.py"],
[("can_assign_src_to_sink, check_types, _compare_records","src/cwl_utils/parser/utils.py")])
p("C09","The workflow static checker reports exactly the incompatible links",
"For a workflow whose every link is type compatible the static checker passes silently; if any step input or workflow output is linked to a source of incompatible type it raises a ValidationException that names that link; a required step parameter that is left unconnected is an error too, and a link that is only partially compatible gives a warning. The outcome is the same in all three CWL versions and is independent of the order of steps, links and parameters.",
["inputs","programs"],"every workflow: any steps, links, scatter, merging, value transformation and nesting",
"Tests run the checker on about ten fixed workflows.",
[S+"parser/utils.py",S+"parser/cwl_v1_0_utils.py",S+"parser/cwl_v1_1_utils.py",S+"parser/cwl_v1_2_utils.py"],
[("static_checker","src/cwl_utils/parser/utils.py:static_checker"),("check_all_types","src/cwl_utils/parser/cwl_v1_2_utils.py:check_all_types")])
p("C10","Types of sources, step inputs and step outputs are inferred correctly",
"The type reported for a source, a step input or a step output is the declared type of the parameter it addresses (workflow input, step input, or output of the step's process, in the same or another file), wrapped in one array level per scattered dimension for nested_crossproduct and one level otherwise, with linkMerge and pickValue applied for multiple sources. Looking up a source or step that does not exist raises an error rather than giving another parameter's type.",
["inputs","programs"],"every workflow, source id (single or list), scatter method, linkMerge and pickValue value, in each CWL version",
"Tests use a fixed workflow per scatter method.",
[S+"parser/utils.py",S+"parser/cwl_v1_0_utils.py",S+"parser/cwl_v1_1_utils.py",S+"parser/cwl_v1_2_utils.py"],
[("type_for_source, type_for_step_input, type_for_step_output, param_for_source_id","src/cwl_utils/parser/cwl_v1_2_utils.py")])
p("C11","Stream shortcuts become equivalent explicit redirections",
"Converting a CommandLineTool that uses the stdin, stdout or stderr type shortcuts gives one in which those parameters are Files and the stream is redirected explicitly: the output glob is exactly the file the stream is written to (the declared name, or a generated one that is unique per stream and the same every time), and the stdin field refers to that input's path. Everything else is unchanged, a tool without shortcuts is untouched, and contradictory or unsupported uses are rejected.",
["inputs"],"every CommandLineTool of the three versions with any mix of stream shortcuts and explicit stdin/stdout/stderr",
"Tests convert seven fixed tools per version.",
[S+"parser/utils.py",S+"parser/cwl_v1_0_utils.py",S+"parser/cwl_v1_1_utils.py",S+"parser/cwl_v1_2_utils.py"],
[("convert_stdstreams_to_files","src/cwl_utils/parser/cwl_v1_2_utils.py")])
p("C12","Input objects and file contents are loaded faithfully and within limits",
"Loading a job input object gives typed Files, Directories, lists, maps and scalars with the values in the document, and the same data when saved. Reading file contents returns the exact content up to and including 64 KiB. Anything longer is refused with an error in v1.2; in v1.0 and v1.1, as documented, its first 64 KiB are returned (in text mode, the whole characters among them).",
["inputs"],"every job object and every file size around and beyond the limit, in each CWL version",
"Tests use one job file and a couple of sizes.",
[S+"parser/utils.py",S+"parser/cwl_v1_0_utils.py",S+"parser/cwl_v1_1_utils.py",S+"parser/cwl_v1_2_utils.py"],
[("load_inputfile, load_inputfile_by_uri, load_inputfile_by_string, load_inputfile_by_yaml","src/cwl_utils/parser/utils.py"),("content_limit_respected_read_bytes","src/cwl_utils/parser/cwl_v1_2_utils.py")])
p("C13","Packing a document yields an equivalent self-contained document",
"Packing a CWL document split over any number of files yields one document with no remaining $import, $include, external run or SchemaDef references that is valid CWL and describes the same process: same inputs and outputs with the same (resolved) types, same steps, links, requirements, hints and tool contents. Packing is deterministic, leaves the source files unchanged, and packing a packed document changes nothing.",
["inputs","programs"],"every tool or workflow, nested to any depth and split in any way over files and directories, using imports, includes and schema definitions",
"Tests pack four or five sample workflows and compare a few counts.",
[S+"pack.py",S+"schemadef.py",S+"utils.py",S+"pack_cli.py"],
[("pack","src/cwl_utils/pack.py:pack"),("build_user_defined_type_dict, inline_types","src/cwl_utils/schemadef.py"),("normalize_to_list, load_linked_file, resolved_path","src/cwl_utils/utils.py")])
p("C14","Splitting a packed document yields equivalent separate documents",
"Splitting a $graph document writes one file per process, with every process of the graph present, each file a valid document with the graph's cwlVersion, and every reference (run, source, outputSource, scatter, format, secondary or schema-definition types) addressing the same thing as in the graph. Loading the main file therefore gives the same workflow, step by step, as the main entry of the graph, in JSON and in YAML output, whatever the ids are.",
["inputs","programs","configurations"],"every packed document with any ids (including ids that are prefixes of each other), nesting, and output options",
"Tests split three fixed packed files and look at a few strings.",
[S+"graph_split.py"],
[("graph_split, rewrite, rewrite_id, rewrite_schemadef","src/cwl_utils/graph_split.py")])
p("C15","The generated JSON Schema accepts exactly the valid job inputs",
"For any process, the JSON Schema generated for its inputs is itself a valid schema with every reference defined, accepts every job object that supplies all required inputs with values of their declared types, and rejects one in which a required input is missing or an input has a value of the wrong type. An input is required exactly when it has neither a default nor an optional type.",
["inputs","programs"],"every process of the three versions, every declared input type (nested arrays, records, enums, unions, schema-defined types) and every job object",
"Tests validate one fixed job for each of a few dozen sample tools, and never a wrong job.",
[S+"inputs_schema_gen.py",S+"utils.py"],
[("cwl_to_jsonschema, generate_json_schema_property, generate_definition_from_schema","src/cwl_utils/inputs_schema_gen.py")])
p("C16","File format checks follow the ontology",
"A file is accepted for a declared format exactly when its format is that format, or reaches it in the given ontology through subclass steps and equivalences in either direction, cyclic ontologies included. A list of formats accepts if any does; every file of a list must be acceptable; a missing or incompatible format raises a ValidationException naming the file.",
["inputs"],"every ontology graph (cyclic, with equivalences), format pair, and list of files and formats",
"Tests check about ten fixed EDAM formats.",
[S+"file_formats.py"],
[("formatSubclassOf, check_format","src/cwl_utils/file_formats.py")])
p("C17","Requirement extraction finds every container and software package",
"Listing the containers or the software packages of a process reports every one declared as requirement or hint on the process itself, on any of its steps and, recursively, in any tool or subworkflow it runs, and reports nothing that is not declared. The image reference reported for pulling is the declared one, completed with `:latest` only when it carries neither a tag nor a digest.",
["inputs","programs"],"every process tree of the three versions with requirements and hints at any level",
"Tests check one workflow with a few steps; the image extraction tests need the network.",
[S+"docker_extract.py",S+"cite_extract.py"],
[("traverse, get_process_from_step, extract_docker_requirements","src/cwl_utils/docker_extract.py"),("traverse, extract_software_packages","src/cwl_utils/cite_extract.py")])
p("C18","Image pulling saves each image under a unique engine-specific name",
"Pulling an image asks the chosen container engine for exactly that image and leaves it in the target directory under the engine's file name for it (distinct for distinct images); an image already present is not pulled again unless forced, a failing engine raises an error with what the engine said, and nothing incomplete is left to be taken for the image. The singularity/apptainer capability checks agree with the version that the installed engine reports.",
["inputs","fault_sequences","configurations"],"every image reference, engine, engine version string, force flag, prior directory content and engine failure",
"The pull tests need a container engine and the network and are not among the passing tests.",
[S+"image_puller.py",S+"singularity.py",S+"docker_extract.py"],
[("ImagePuller, DockerImagePuller, SingularityImagePuller","src/cwl_utils/image_puller.py"),("get_version, is_version_*","src/cwl_utils/singularity.py")])
p("C19","Expression refactoring removes expressions and preserves results",
"Refactoring the expressions of a workflow (or a tool alone) gives a valid document of the same version that, run with the same inputs, gives the same outputs as the original, without any expression beyond simple parameter references left in the places that the options select; these are computed by added steps instead. This covers expressions in step inputs and conditions, pickValue, ExpressionTools, and a tool's arguments, bindings, streams, globs, outputEval, environment, resources, limits and initial work directory, alone or together, in scattered, conditional and nested workflows; expressions must not depend on the paths of files or the runtime, and format or secondaryFiles expressions of a workflow's own inputs are refused. The names and types of inputs and outputs are kept, the sources are not changed, and a document without expressions is reported as unmodified.",
["programs","inputs"],"every workflow of the three versions with expressions in valueFrom, when, resource, environment, work-dir, tool and output fields, for each refactoring option",
"Tests only check that refactoring a dozen fixed files gives something that loads.",
[S+"expression_refactor.py",S+"cwl_v1_0_expression_refactor.py",S+"cwl_v1_1_expression_refactor.py",S+"cwl_v1_2_expression_refactor.py"],
[("traverse, traverse_workflow, replace_* functions","src/cwl_utils/cwl_v1_2_expression_refactor.py"),("refactor","src/cwl_utils/expression_refactor.py:refactor")])
p("C20","Normalizing gives an equivalent single v1.2 JSON document",
"Normalizing a CWL document of any supported version writes one JSON document that is valid CWL v1.2, contains no references to other files, and describes the same process: same inputs and outputs with the same types, and, unless expressions are to be refactored, the same tools, steps and links (plus the NetworkAccess and LoadListingRequirement that make the defaults of a CWL v1.0 tool explicit). Run with the same inputs it gives the same outputs. When expressions are refactored, none is left in the places that the options select. Normalizing twice gives the same document, normalizing the result again changes nothing, and the source files are left untouched. (Limits: a document with a $graph has no references to other files, and all files have one version.)",
["inputs","programs"],"every v1.0, v1.1 and v1.2 document in one or many files, with and without the refactor and no-op flags",
"Tests normalize two fixed files and check they load.",
[S+"normalizer.py",S+"pack.py",S+"expression_refactor.py"],
[("run","src/cwl_utils/normalizer.py:run")])
p("C21","Normalization helpers are lossless and consistent",
"The helper conversions lose nothing: converting a map of entries to a list and back (or the reverse) gives the same entries, leaves the given object unmodified and is idempotent; byte strings are turned into text at every depth of a structure; and the type shorthand expansion agrees with the CWL type rules. References resolve against their base, remote or local, exactly as URI resolution prescribes.",
["inputs"],"every nested structure of maps, lists, bytes and scalars; every base and link; every type expression",
"Tests call each helper with one or two values, or not at all.",
[S+"utils.py"],
[("normalize_to_list, normalize_to_map, bytes2str_in_dicts, sanitise_schema_field, resolved_path","src/cwl_utils/utils.py")])
p("C22","Objects built or edited in Python are saved as the documents they describe",
"Saving objects that were built with the classes of the parsers (with absolute, fragment or short identifiers and references, with or without loading options), or that were loaded and then edited, gives a document with exactly the content of the objects' attributes: every attribute that is set is there, under the identifiers and references that were given, and nothing else besides a blank identifier where none was given. The document loads whenever the described one does, as the same objects. This holds for single processes and lists of processes, with relative_uris on or off. Objects built from equal values are equal.",
["inputs","programs"],"every combination of classes, fields and identifier styles of the three versions, and every sequence of attribute edits",
"The one example builds a single small tool; nothing tests building workflows, steps, references or lists, or editing loaded objects.",
[S+"parser/cwl_v1_0.py",S+"parser/cwl_v1_1.py",S+"parser/cwl_v1_2.py",S+"parser/relative_uris.py",S+"parser/__init__.py"],
[("constructors and save methods","src/cwl_utils/parser/cwl_v1_2.py"),("save_relative_uri","src/cwl_utils/parser/relative_uris.py"),("save","src/cwl_utils/parser/__init__.py:save")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
