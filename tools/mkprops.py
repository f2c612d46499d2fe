#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the statements stay easy to edit and diff."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Generation is deterministic and byte-identical across runs",
 "Running the same generators on the same Go sources with the same options produces the same set of output files with byte-identical contents, the same exit status and the same set of diagnostics, however often it is repeated. The result does not depend on the order in which the input paths are given, nor on scheduling or hash-map iteration.",
 ["inputs","schedules","programs"],"All Go API packages accepted by the tool, all generators (crd, rbac, webhook, object, schemapatch, applyconfiguration), all map-iteration seeds and goroutine schedules, all permutations of the input paths.",
 "Tests compare one run with one golden file; a nondeterministic map iteration passes most of the time, and the golden inputs are too small to have many ties.",
 ["pkg/crd/gen.go","pkg/crd/schema.go","pkg/crd/spec.go","pkg/rbac/parser.go","pkg/webhook/parser.go","pkg/deepcopy/gen.go","pkg/loader/loader.go","pkg/schemapatcher/gen.go"],
 [("sorting of group-kinds, versions, required lists, rules and webhooks before output","pkg/crd/gen.go FindKubeKinds, pkg/crd/spec.go NeedCRDFor, pkg/rbac/parser.go NormalizeRules, pkg/webhook/parser.go Generate"),("marker priority ordering","pkg/crd/schema.go applyMarkers")],
 ["bytes of every file written","stderr diagnostics as a set","exit status"])

p("C02","CRD schema matches how the Go type is encoded as JSON",
 "For every supported Go API type, the generated schema describes the JSON that encoding/json (with Kubernetes inlining) produces for it: exactly the serialised fields appear as properties, under their JSON names, with the JSON type and integer format of the Go type, arrays for slices, base64 strings for byte slices, additionalProperties for maps, inlined fields merged into the parent, and fields tagged \"-\" (or unexported, when asked to ignore them) left out. A field that is not inlined is required exactly when it carries a required marker, or carries neither a required nor an optional marker, the package is not marked optional by default, and the JSON tag has neither omitempty nor omitzero. Go constructs that have no faithful schema (fields without a JSON tag, non-string map keys, floats unless explicitly allowed, interfaces, functions and channels) are rejected with an error.",
 ["programs","inputs","configurations"],"All Go type graphs built from the supported constructs, all JSON tags, all combinations of optional/required markers, and the ignoreUnexportedFields / allowDangerousTypes / generateEmbeddedObjectMeta options.",
 "The golden files cover one hand-written type per feature; combinations (nesting, pointers to slices of named maps, cross-package references, package defaults against field markers) are unbounded.",
 ["pkg/crd/schema.go","pkg/crd/flatten.go","pkg/crd/known_types.go","pkg/crd/gen.go"],
 [("type to schema translation","pkg/crd/schema.go typeToSchema/structToSchema/mapToSchema/arrayToSchema/builtinToType"),("well-known types","pkg/crd/known_types.go")],
 ["openAPIV3Schema of the written CRD","JSON encodings of values of the compiled Go type"])

p("C03","Every validation marker lands exactly, on exactly its target, or errors",
 "A schema marker on a field, on a type, or with the items prefix sets exactly its keyword to exactly the written value on exactly that field's, type's or item's schema, and no other node of the schema gains, loses or changes a keyword because of it. Co-occurring markers take effect independently of how many there are and of the order they are written in; a repeated single-valued marker takes its last value, and repeated list-valued markers (rules, list keys) keep all values in written order. A marker on a schema of a JSON type it does not apply to, or with a value that does not parse or that the marker does not allow, makes the run fail instead of being dropped.",
 ["programs","inputs"],"All validation, topology, default, example, title, nullable and pruning markers, all values in their domain, all positions (field, type, items), all multisets of markers on one node.",
 "Tests place each marker once at a hand-picked place; interactions between markers, orderings and large numbers of markers on a node are not sampled.",
 ["pkg/crd/schema.go","pkg/crd/markers/validation.go","pkg/crd/markers/topology.go","pkg/crd/markers/register.go"],
 [("marker application by priority","pkg/crd/schema.go applyMarkers"),("per-marker ApplyToSchema","pkg/crd/markers/validation.go, topology.go")],
 ["openAPIV3Schema of the written CRD","exit status and stderr"])

p("C04","Referenced types are flattened fully, without loss or leakage",
 "The schema in a written CRD contains no references and is self-contained: at each use of a named type (local, from another package, embedded, or as element of a list or map, also repeatedly and through several levels) every constraint declared on the type is in force there, together with every constraint declared at that use. Constraints, descriptions, defaults and titles given at one use never show up at another use of the same type nor on the type itself. Documentation, titles, examples and defaults at a use override those of the type.",
 ["programs"],"All acyclic graphs of named types over several packages, all numbers of uses of a type, all splits of markers between type and use sites, in any traversal order.",
 "Flattening caches flattened types and mutates schemas in place; leakage between uses needs particular graphs and visiting orders that the few unit schemas do not have.",
 ["pkg/crd/flatten.go","pkg/crd/schema_visitor.go","pkg/crd/parser.go"],
 [("reference resolution with cache","pkg/crd/flatten.go flattenVisitor.Visit"),("allOf merging that keeps both sides","pkg/crd/flatten.go flattenAllOfInto, preserveFields")],
 ["openAPIV3Schema of the written CRD"])

p("C05","One complete, well-formed CRD per kind, merging all its versions",
 "For every group-kind with at least one version in the input packages that is not skipped, exactly one CRD file is written, named after group and plural, whose names, scope, metadata and version list come from the kind's packages and markers: one entry per non-skipped version, each with its own schema, served and deprecated settings, subresources, printer columns and selectable fields exactly as marked on that version's type and in marker order. A written CRD from a successful run has exactly the marked storage version (the only version when there is just one); having no storage version, or nothing served, is an error. No file is written for kinds of which no version remains, for kinds of imported packages that were not named as input, or for types that are not Kubernetes kinds.",
 ["programs","configurations"],"All sets of packages, groups, kinds and versions, all combinations of CRD-level markers.",
 "The tests have a few single-version kinds and one two-version kind with fixed marker combinations.",
 ["pkg/crd/spec.go","pkg/crd/gen.go","pkg/crd/markers/crd.go","pkg/crd/parser.go"],
 [("CRD assembly","pkg/crd/spec.go NeedCRDFor"),("kind discovery","pkg/crd/gen.go FindKubeKinds"),("CRD markers","pkg/crd/markers/crd.go ApplyToCRD")],
 ["set of files written","contents of each CRD","exit status"])

p("C06","Marker arguments are parsed exactly, and only if valid",
 "Any value of a marker argument type (strings bare or quoted, integers, booleans, slices in both spellings, maps, optional and pointer arguments, free-form values) written in marker syntax, quoting every string that could be read as something else, is parsed back to exactly that value, whatever other arguments surround it. A marker with an unknown argument, a missing required argument, a value of the wrong type or out of the range of its Go type, or trailing garbage is rejected with an error, never accepted with a different or partial value.",
 ["inputs"],"All marker definitions (argument structs and anonymous values of every supported type) and all argument strings.",
 "The parser is hand-written over text/scanner; table tests try a few dozen strings of an infinite input space.",
 ["pkg/markers/parse.go","pkg/markers/reg.go"],
 [("argument parser","pkg/markers/parse.go Argument.Parse, Definition.Parse"),("type guessing for free-form values","pkg/markers/parse.go guessType")],
 ["value returned by Definition.Parse","error returned by Definition.Parse"])

p("C07","Arbitrary source text never crashes or hangs the tools",
 "Whatever text appears in marker comments, in documentation or in the generator options on the command line, every tool terminates promptly with either a result or a reported error; it never panics, never loops forever and never exhausts memory, also for deeply nested or very long values. In particular marker parsing and marker lookup are total functions of their input.",
 ["inputs"],"All byte strings as marker comments for all registered markers, and all generator option strings.",
 "Tests feed well-formed markers; panics hide behind index expressions on malformed input.",
 ["pkg/markers/parse.go","pkg/markers/reg.go","pkg/markers/collect.go","pkg/crd/markers/crd.go","pkg/genall/options.go","pkg/webhook/parser.go"],
 [("error recording scanner","pkg/markers/parse.go parserScanner/sc.Error"),("splitMarker / Lookup","pkg/markers/parse.go, reg.go")],
 ["panics, timeouts and exit status under generated input"])

p("C08","Each marker comment is attributed to exactly one declaration",
 "Every registered marker line in a Go file is collected for exactly one target: the field or type whose doc comment it is in, or the type whose closest preceding free-standing comment block it is in, or otherwise, for markers at the top level of the file, the package; none is lost, duplicated, merged with another, or attributed to a neighbouring declaration, and the values of a repeated marker keep source order. Comments that are not line comments starting with +, markers not registered for that place, and markers in function bodies, in the docs of functions, variables and imports, or behind code, contribute nothing. Markers that do not parse are all reported, each at its own position.",
 ["programs","inputs"],"All placements of marker comments (doc blocks, detached blocks, trailing comments, inside and between type groups, package doc, end of file, one or several files) and all marker sets.",
 "The rules involve comment positions relative to AST nodes; tests cover one file with one example per rule.",
 ["pkg/markers/collect.go","pkg/markers/zip.go"],
 [("comment to node association","pkg/markers/collect.go markerVisitor"),("package/type reassociation","pkg/markers/collect.go")],
 ["values delivered by EachType and PackageMarkers"])

p("C09","Generated RBAC roles grant exactly the marked permissions",
 "For each namespace (and cluster scope) the generated role grants exactly the union of the permissions written in the RBAC markers of the input packages: every marked combination of verb with group, resource and resource name, or with non-resource URL, is granted, and nothing else, whatever merging and deduplication of rules takes place. Cluster-scoped rules go to one ClusterRole and namespaced ones to one Role per namespace, \"core\" means the empty group, and no object is emitted for a scope without rules. Each rule of a written role is a valid RBAC rule, and the objects and rules come in a stable, sorted order.",
 ["inputs","histories"],"All multisets of RBAC markers spread over any number of files and packages.",
 "Rules are merged in several stages keyed by joined strings over map iteration; which rules collide depends on the whole set and on iteration order.",
 ["pkg/rbac/parser.go"],
 [("rule normalisation and merging","pkg/rbac/parser.go GenerateRoles/NormalizeRules")],
 ["access decisions of the written Role/ClusterRole objects"])

p("C10","Webhook configurations carry every marked webhook exactly",
 "The generated webhook manifests contain, for every webhook marker of the input packages, exactly one webhook of the marked kind (mutating or validating) with exactly the marked name, path or URL, groups, versions, resources, operations, failure and match policy, timeout, side effects, reinvocation policy (mutating only) and review versions, in the one configuration of its kind, with the name and name suffix given by markers, and nothing else. Optional settings that are not written stay unset or take their documented default. Markers with a missing, conflicting, unknown or unsupported setting make the run fail rather than emit a different webhook.",
 ["inputs","configurations"],"All multisets of webhook and webhookconfiguration markers over their attribute domains.",
 "Tests cover a few combinations; each attribute has its own translation and defaulting and errors interact.",
 ["pkg/webhook/parser.go"],
 [("marker to webhook translation","pkg/webhook/parser.go Config.ToMutatingWebhook/ToValidatingWebhook"),("configuration assembly","pkg/webhook/parser.go Generator.Generate")],
 ["written manifests.yaml","exit status"])

p("C11","Generated deepcopy code compiles, copies equal, shares nothing",
 "For every package whose types the object generator accepts, the written code compiles together with the package, and for every value v (including nil, empty and deeply nested ones) the copy made by the generated DeepCopy, DeepCopyInto or DeepCopyObject is deeply equal to v, with nil and empty kept apart, and shares no mutable memory with v, provided the struct types used have or get copy methods or can be copied by plain assignment. Hand-written DeepCopy and DeepCopyInto methods of the types of fields, elements and pointees are used for them. Types that cannot be copied (interfaces without copy methods, functions, channels) are rejected with an error.",
 ["programs","inputs"],"All Go type graphs of pointers, slices, maps, structs, basic types, named and imported types, with and without hand-written methods, and all values of them.",
 "The existing test compares generated text for one package with a golden file and never runs the generated code.",
 ["pkg/deepcopy/traverse.go","pkg/deepcopy/gen.go"],
 [("copy code generation by underlying kind","pkg/deepcopy/traverse.go genDeepCopyIntoBlock/genSliceDeepCopy/genMapDeepCopy/genPointerDeepCopy/genStructDeepCopy")],
 ["compiled generated methods executed on generated values"])

p("C12","Deepcopy methods are generated for exactly the enabled types",
 "DeepCopy and DeepCopyInto are generated for exactly the exported types enabled by the package-level or type-level object:generate markers or marked as root objects, where the type-level marker overrides both, and DeepCopyObject for exactly the enabled root object types. Methods that a type already defines by hand are not generated again, and enabled types that need no copy methods (aliases, named basic types and named pointers) get none. A package without types to generate for gets no file.",
 ["programs","configurations"],"All combinations of package and type markers (current and legacy spellings), exported and unexported types, aliases, structs, maps, slices, hand-written methods.",
 "The tests have one package with a fixed combination.",
 ["pkg/deepcopy/gen.go","pkg/deepcopy/traverse.go"],
 [("selection","pkg/deepcopy/gen.go enabledOnPackage/enabledOnType/genObjectInterface/shouldBeCopied")],
 ["methods declared in the written file"])

p("C13","A run that could not do its job never reports success",
 "If any input package fails to load, parse or type-check (where an output depends on the types concerned), any marker fails to parse or apply, any generator reports an error, or an output cannot be written, the tool exits with a non-zero status and names the problem on standard error, also when other generators or packages succeed. Conversely a run on valid input exits zero with no diagnostics.",
 ["programs","fault_sequences"],"All combinations of valid and broken packages, generators and output destinations.",
 "Errors are accumulated per package and per generator and folded at the end; tests check a handful of direct failures in single-package runs.",
 ["pkg/genall/genall.go","pkg/loader/visit.go","pkg/loader/errors.go","pkg/loader/loader.go","cmd/controller-gen/main.go"],
 [("error accumulation and folding","pkg/genall/genall.go Runtime.Run, pkg/loader/loader.go PrintErrors")],
 ["exit status and stderr of the tool under injected defects and write faults"])

p("C14","Output goes exactly where the output rules say",
 "Each artifact a generator produces is written exactly once, complete, to the place given by the output rule configured for that generator, else by the run's default rule, else by the generator's default: a directory, standard output, nowhere, or beside the package (with configuration in its own directory). Nothing else inside or outside those places is created, changed or removed, files that already exist are replaced completely, and input sources are never altered except for generated files beside them.",
 ["configurations","programs"],"All combinations of generators and output rules.",
 "Tests use an in-memory output; path composition and rule precedence are not exercised over combinations.",
 ["pkg/genall/output.go","pkg/genall/options.go","pkg/genall/genall.go"],
 [("output rules","pkg/genall/output.go"),("rule selection","pkg/genall/output.go OutputRules.ForGenerator, pkg/genall/options.go FromOptions")],
 ["file system snapshot before and after","standard output"])

p("C15","Schema patching changes only the schemas it is responsible for",
 "The schema patcher replaces, in the CRD manifests of the directory it is pointed at, exactly the OpenAPI schemas of the versions of kinds that exist in the Go sources, by exactly the schemas the CRD generator would produce for them; every other value, key order, comment and document of those manifests is preserved, while files without a CRD, and CRDs of which no version exists in the Go sources, are not touched or rewritten with the same content. Patching is idempotent, and a manifest the patcher cannot process correctly is reported instead of being damaged.",
 ["inputs","programs","histories"],"All CRD manifests (key orders, extra fields, comments, several versions, unrelated files and documents) and all matching Go packages; repeated patching.",
 "The tests compare a few fixed manifests with golden results.",
 ["pkg/schemapatcher/gen.go","pkg/schemapatcher/internal/yaml/set.go","pkg/schemapatcher/internal/yaml/nested.go"],
 [("node-level YAML editing","pkg/schemapatcher/internal/yaml"),("partial CRD discovery","pkg/schemapatcher/gen.go crdsFromDirectory")],
 ["patched manifests compared with the originals and with CRD generator output"])

p("C16","Description truncation respects the limit and nothing else",
 "With a description limit n the descriptions in the generated schemas are: absent for n=0; unchanged if they are at most n bytes long; otherwise a prefix of the original of at most n bytes (plus the ellipsis when cut at a word boundary or mid-word), cut at the last sentence boundary that fits, else at the last word boundary, and always valid text. Truncation changes nothing but descriptions, reaches every depth of the schema, and without a limit descriptions are complete.",
 ["inputs","configurations"],"All schemas, all description texts in any script, all limits.",
 "Four ASCII examples on a flat schema.",
 ["pkg/crd/desc_visitor.go","pkg/crd/schema_visitor.go","pkg/crd/spec.go"],
 [("truncation visitor","pkg/crd/desc_visitor.go")],
 ["schema before and after TruncateDescription"])

p("C17","No data races; parallel work gives the sequential result",
 "Loading, type-checking, marker collection, parsing into schemas and generation have no data races under any schedule, including for the parts documented as usable from several goroutines (marker registries, collectors, type checkers), and never deadlock. Work done concurrently gives the same packages, markers, diagnostics and artifacts as the same work done sequentially.",
 ["schedules","programs"],"All schedules of the tool's own goroutines and of concurrent callers of registries, collectors and packages, over all package graphs.",
 "Tests run mostly single-root loads; interleavings are not controlled and shared state is rarely contended.",
 ["pkg/loader/loader.go","pkg/loader/refs.go","pkg/markers/reg.go","pkg/markers/collect.go"],
 [("per-package and registry locks","pkg/loader/loader.go Package.Mutex/loadedMu, pkg/markers/reg.go mu, pkg/markers/collect.go mu")],
 ["race detector reports","collected results compared between concurrent and sequential runs"])

p("C18","Loading roots yields exactly the requested packages, once",
 "Loading a list of path patterns (directories, import paths, Go files, and recursive patterns, also reaching into nested Go modules below a directory; the files given for one directory make up one package) returns each matched package exactly once and no other, regardless of the order, overlap and repetition of the patterns, and a package that is both a root and imported by another root of the same module load is the same object. Packages are lazily loaded the same way whichever route leads to them. A path that names no package (other than a recursive pattern, which may match nothing) and packages that do not parse are reported.",
 ["inputs","configurations"],"All module layouts (nested modules, vendored, submodules in subdirectories) and all lists of patterns.",
 "Tests use one fixed module tree and a fixed list of patterns.",
 ["pkg/loader/loader.go","pkg/loader/paths.go"],
 [("root expansion and deduplication","pkg/loader/loader.go LoadRootsWithConfig")],
 ["set and identity of returned packages"])

p("C19","Built-in help lists every marker and option, accurately and stably",
 "Every marker a generator understands and every option it accepts appears in the tool's marker help with its name, target, and every argument with its type and optionality, and nothing else is listed; where help text is generated from Go documentation, it equals the documentation of the marker's type and fields (the summary being the first line, without the type's name, the rest the details). The help code generator writes code that compiles and yields exactly that documentation for every marked type. Help output is the same on every run.",
 ["programs","configurations"],"All registered markers, all generators, all marker structs given to the help generator.",
 "Help texts are generated files compared by a make target outside the test suite; no test ties them to the registered definitions.",
 ["pkg/genall/help/types.go","pkg/genall/help/sort.go","pkg/markers/help.go","cmd/helpgen/main.go","cmd/controller-gen/main.go","pkg/markers/reg.go"],
 [("help model","pkg/genall/help/types.go ByCategory/ForDefinition"),("help code generation","cmd/helpgen/main.go")],
 ["JSON and text help output of the built tool, generated help code compiled and executed"])

p("C20","Apply configurations cover the enabled types completely",
 "For exactly the enabled kinds of each package (resource types with object metadata in packages marked for apply-configuration generation, and types that opt in, minus those that opt out) and the types they reference, the generator writes apply-configuration code that compiles, with a pointer, list or map field and a setter for every serialised field. Setting a value and encoding to JSON gives that value under the same JSON key as the API type, and constructors set exactly name, namespace, kind and apiVersion of their kind. Packages without the marker and without opted-in types yield nothing, and types that cannot be resolved make the run fail.",
 ["programs"],"All API packages and type graphs supported.",
 "One golden package, text comparison only.",
 ["pkg/applyconfiguration/gen.go"],
 [("universe filtering and generation","pkg/applyconfiguration/gen.go")],
 ["generated packages compiled and executed"])

p("C21","Scaffolded types compile and are accepted by the generators",
 "For every valid kind and resource name and choice of scope, the scaffolded Go types compile, kind and list can be registered in a scheme, and the object and CRD generators accept them, producing a CRD with exactly that kind, resource name and scope. Kind and resource names that are not valid are rejected with an error and without output.",
 ["inputs","configurations"],"All kind and resource names, all flag combinations.",
 "A single scaffold is tested.",
 ["pkg/typescaffold/resource.go","pkg/typescaffold/scaffold.go","cmd/type-scaffold/main.go"],
 [("templates and validation","pkg/typescaffold/scaffold.go, resource.go")],
 ["scaffold output compiled and fed to the generators"])

p("C22","Command line options configure exactly the named generators",
 "A run executes exactly the generators named on the command line, once each, with exactly the option values written, on exactly the paths given, and rejects unknown generators, options and output rules and malformed values with an error before writing anything. When several path options are given each takes effect, when a generator option or output rule is repeated the last one takes effect, and options for one generator never affect another.",
 ["inputs","configurations"],"All lists of options over all generators.",
 "Tests cover a few option lists through internal constructors.",
 ["pkg/genall/options.go","cmd/controller-gen/main.go","pkg/genall/input.go"],
 [("option registry and protocol","pkg/genall/options.go FromOptions/protoFromOptions")],
 ["artifacts and exit status for option lists"])

p("C23","Schema descriptions are the Go documentation, faithfully",
 "The description of every property and type in the generated schema is the text of its Go doc comment, with its line structure preserved (runs of blank lines count as one), excluding marker lines, lines starting with TODO and everything after a line starting with --- (which inside a fenced code block are ordinary text). Documentation of one declaration is never shown for another, and no documentation text is lost or altered otherwise.",
 ["programs","inputs"],"All doc comments (line and block comments, blank lines, indented code, lists, special characters, markers interspersed).",
 "Tests sample a few comments.",
 ["pkg/markers/zip.go","pkg/crd/schema.go"],
 [("doc extraction","pkg/markers/zip.go extractDoc")],
 ["description strings of the written CRD"])
p("C24","API servers accept the generated schemas, which admit exactly the valid values",
 "For supported Go API types whose markers are used on types they apply to, every schema in a generated CRD is one a Kubernetes API server accepts: structural, with list-map keys that are required or defaulted scalars, and with defaults that are valid and fully specified. With it the server admits every JSON encoding of a value of the Go type that satisfies the markers and prunes nothing from it, removes exactly the fields the type does not have, and refuses, at the place concerned, an object that breaks one marker's constraint, JSON type, required field, list set or list key. This also holds for fields of the types of k8s.io/api and apimachinery.",
 ["programs","inputs"],"All supported Go API types with applicable markers and all JSON objects.",
 "Golden CRDs are compared as text; no test runs an object through them.",
 ["pkg/crd/schema.go","pkg/crd/flatten.go","pkg/crd/known_types.go","pkg/crd/spec.go","pkg/crd/markers/validation.go","pkg/crd/markers/topology.go"],
 [("schema generation and flattening","pkg/crd/schema.go, pkg/crd/flatten.go"),("schemas of Kubernetes types","pkg/crd/known_types.go")],
 ["verdicts of the API server's structural-schema, pruning, list-type and value validation code on written schemas and objects"])
p("C25","Output depends on the declarations and options, not on layout or surroundings",
 "The artifacts of a run, names and contents, depend only on the declarations with their comments and markers in the input packages (and what these import) and on the options. They stay byte for byte the same when the project lies elsewhere or is reached through a symbolic link, when the tool is started from another directory or the same packages are named by other paths, in another locale, time zone, target platform or module mode (vendored dependencies, workspaces), when declarations are reordered within their package, grouped, or moved to other files, files are renamed, imports get other names, lines end differently, and when things are added that do not count: unexported or unrelated declarations, comments behind code, test files, files excluded by build constraints, input packages without API types, packages that are not input (even broken ones). Nor do such changes give rise to errors or other diagnostics.",
 ["programs","configurations"],"All rearrangements of all projects and all environments.",
 "Tests run on fixed sources at a fixed place in one environment.",
 ["pkg/loader/loader.go","pkg/markers/collect.go","pkg/markers/zip.go","pkg/crd/parser.go","pkg/deepcopy/traverse.go","pkg/genall/genall.go"],
 [("loading of packages","pkg/loader/loader.go"),("collection of markers and types","pkg/markers/collect.go, pkg/markers/zip.go"),("import names in generated code","pkg/deepcopy/traverse.go importsList")],
 ["artifacts of runs on rearranged copies of one project"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
