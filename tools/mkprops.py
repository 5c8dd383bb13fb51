#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Dotted and quoted lookup keys parse by one grammar, or are rejected",
 "A lookup key is a dot-separated list of segments; an unquoted segment that is a decimal 32-bit integer is an index, any other unquoted segment is its text, and a segment (or part of it) in single or double quotes is always literal text, wherever in the key it stands. Parsing any string either yields exactly the segments of that grammar or reports an error (empty unquoted segment, first segment an index, unterminated quote); it never crashes with anything else, and the first segment is always text. The original text of the key is kept unchanged.",
 ["inputs"],"all key strings",
 "The tests parse about a dozen hand-picked keys; the interplay of quotes, dots and digits at every position is an unbounded input space.",
 ["api/key.go"],[("recursive scanner for unquoted/quoted parts","api/key.go: parseUnquoted, parseQuoted"),("index recognition","api/key.go: mungedPart")],
 ["NewKey(s).Parts()/Root()/Source()"])
p("C02","Digging with a key finds exactly the addressed element, or nothing",
 "Digging into a value with a parsed key follows the segments left to right: an index selects an array element that exists, any segment selects a map entry with that key, and in every other case (missing key, index outside the array, wrong kind of value) the result is 'not found'. Values that are false, zero, null or empty are found like any other, the value dug into is not changed, and nothing but 'not found' ever results from a bad path. Burying a value under a key builds a value in which digging with the same key finds it again.",
 ["inputs"],"all values and all keys",
 "Tests dig a few fixed paths into a few fixed structures; index bounds, falsy values and kind mismatches at every depth are not enumerated.",
 ["api/key.go","session/invocation.go"],[("segment walk","api/key.go: Dig"),("inverse","api/key.go: Bury"),("applied to every top-level and nested lookup","session/invocation.go: Lookup")],
 ["Lookup(ic, 'a.b.0', ...)","Key.Dig","Key.Bury"])
p("C03","With the 'first' strategy the highest-priority level that has the key wins",
 "When no other merge strategy is in force, the value returned for a key is the one from the first level of the hierarchy (levels in the order written, and within a level its locations in the order written) that has the key, even when that value is false, zero, null or empty. Levels without the key, and missing files, contribute nothing, and lower-priority levels that come after the hit are not consulted. If no level has the key, nothing is found.",
 ["inputs","configurations"],"all hierarchies, level contents and keys",
 "Tests use a handful of fixed hierarchies; which subset of levels holds the key, in what shape, at which location, is combinatorial.",
 ["merge/strategy.go","session/invocation.go","provider/configlookupkey.go"],[("first-found loop","merge/strategy.go: firstFound.MergeLookup"),("levels and locations","session/invocation.go: MergeHierarchy, MergeLocations")],
 ["Lookup result","sequence of provider calls"])
p("C04","The 'unique' strategy returns every distinct leaf value once, by priority",
 "A lookup with the unique strategy over two or more levels returns an array holding the values of all levels that have the key, flattened, in priority order, with every value appearing exactly once (its first occurrence). A scalar counts as a one-element array. No element of any level is lost and none is invented. With a single level, an array is flattened and freed of repetitions in the same way, and any other value is returned as it is.",
 ["inputs","configurations"],"all level contents",
 "Tests merge two fixed arrays; duplicates within one level, across levels, nesting, and levels without the key are not covered in combination.",
 ["merge/strategy.go"],[("flatten and uniq","merge/strategy.go: unique.convertValue, merge, mergeSingle")],["Lookup result with merge=unique"])
p("C05","The 'hash' strategy merges top-level keys and higher priority wins",
 "A lookup with the hash strategy returns a hash whose keys are the union of the keys of the hashes found at all levels, each key having the unmodified value of the highest-priority level that has it. Nested hashes are not merged. A level with several locations has the merge of the values of its locations as its value. A level whose value is not a hash never changes or removes what a higher level contributed, and no source hash is altered by the merge.",
 ["inputs","configurations"],"all level contents",
 "Tests merge one or two fixed hashes.",
 ["merge/strategy.go"],[("hash merge","merge/strategy.go: hashMerge.merge")],["Lookup result with merge=hash"])
p("C06","Deep merge keeps every higher-priority leaf and loses no lower-priority entry",
 "A deep merge of two hashes has exactly the union of their keys; a key held by both is merged recursively when both values are hashes or both are arrays, and otherwise keeps the higher-priority value. Two arrays merge to their elements in priority order without repetition of a lower-priority element that is already present. Neither input is changed, merging is idempotent (repetitions inside an array aside), and merging with an empty lower-priority value of the same kind changes nothing.",
 ["inputs"],"all pairs (and sequences) of values",
 "Tests check a few literal pairs; recursion depth, mixed kinds, empty collections and repeated elements are an unbounded space.",
 ["merge/deepmerge.go","merge/strategy.go"],[("recursive merge","merge/deepmerge.go: deep"),("fold over levels","merge/strategy.go: doLookup")],["Deep(a,b)","Lookup result with merge=deep"])
p("C07","Interpolation substitutes exactly the expressions and keeps all other text",
 "In a string, every %{...} expression is replaced by the text of what it denotes (a scope variable, a lookup, a literal, the empty string for the documented empty forms or when nothing is found) and every other character is kept as it was, in order; a string without %{ is returned unchanged. An alias expression is the whole string and yields the aliased value with its type; an alias mixed with other text, and an unknown method, is an error. In configuration (paths, directory and function names, options) method expressions are an error.",
 ["inputs"],"all strings, scopes and contexts (data or configuration)",
 "Tests interpolate a few dozen literal strings; adjacency, repetition, whitespace, unterminated expressions and expressions with special characters are an unbounded space.",
 ["session/interpolate.go"],[("expression replacement","session/interpolate.go: InterpolateString"),("method parsing","session/interpolate.go: getMethodAndData")],["Interpolate / InterpolateString","Lookup of values holding %{...}"])
p("C08","Interpolating a structure changes only strings and preserves its shape",
 "Interpolating an array or hash yields a value of the same shape in which each string, at any depth and also as a hash key, is replaced by its interpolation and every other value is identical; array order, array length and the order of hash entries are kept. A structure without expressions is returned as it was. The structure handed in is never modified, so data shared between lookups stays what was loaded.",
 ["inputs","histories"],"all nested values",
 "Tests interpolate three or four nested literals.",
 ["session/interpolate.go"],[("recursive copy on change","session/interpolate.go: doInterpolate")],["Interpolate(value)"])
p("C09","Level settings come from the entry, else defaults, else the built-in value",
 "For each hierarchy level the lookup function, data directory, plugin directory and options in force are the level's own if given, else those of the defaults section, else the built-in ones (yaml data, 'data' or HIERA_DATADIR if that is set, 'plugin' or HIERA_PLUGINDIR if that is set, no options). Relative directories are taken relative to the directory of the configuration file exactly once, absolute ones are used as they are, and every path of a level is its interpolated text joined to its data directory. A setting of one level never leaks into another.",
 ["configurations","inputs"],"all combinations of entry, defaults, environment and scope",
 "Tests exercise about five fixed configurations; the product of the optional settings is not covered.",
 ["config/entry.go","config/config.go","config/path.go"],[("defaulting and interpolation","config/entry.go: resolveFunction, resolveDataDir, resolvePluginDir, resolveOptions, resolveLocations")],["Entry.Resolve(...) accessors","files that a lookup reads"])
p("C10","Malformed hierarchy configurations are rejected and well-formed ones kept intact",
 "A configuration in which a level names more than one lookup function or more than one kind of location, uses an option name reserved by Hiera (path, uri), repeats a level name, or whose document does not have the version 5 shape, is rejected with an error before any lookup is answered. A well-formed one is accepted and yields one level per entry in the order written, each with its name, function, locations and options as written.",
 ["configurations"],"all configuration documents",
 "Tests check one example of each kind of error; combinations and orders of keys are not enumerated.",
 ["config/config.go","config/entry.go"],[("schema check","config/config.go: New, cfgType"),("semantic checks","config/config.go: createHierarchy, createEntry; config/entry.go: initialize")],["config.New(path) result or panic"])
p("C11","Locations expand to the right files in order and missing ones are skipped",
 "A level's path, paths, glob, globs and mapped_paths expand, after interpolation with the current scope, to files in the order written (glob matches in the matcher's order, mapped paths in the order of the variable's elements, the mapping variable visible only while its own template is expanded). A file that does not exist is skipped as if the level did not have the key; a level whose glob or mapped_paths expands to nothing contributes nothing; a level with no locations is asked once without a location.",
 ["configurations","inputs"],"all location lists, scopes and sets of existing files",
 "Tests use one fixed directory tree.",
 ["config/path.go","config/glob.go","config/mappedpaths.go","config/uri.go","session/invocation.go"],[("expansion","config/*: Resolve"),("skip when missing","session/invocation.go: MergeLocations, invokeWithLocation")],["order and set of files read","Lookup result"])
p("C12","Lookup options apply to exactly their keys and are never returned as data",
 "The lookup_options of a configuration are collected from all its levels by deep merge with higher levels winning, and the options of a key's root segment decide how that key is merged and converted unless the caller passes a merge option, which always wins. Options of one key never affect another. The reserved key lookup_options, also as the root of a dotted key, is never found as data.",
 ["inputs","configurations"],"all lookup_options contents, keys and caller options",
 "Tests use one options hash; overriding, partial overriding across levels and interference between keys are not enumerated.",
 ["session/resolvedconfig.go","session/invocation.go","provider/configlookupkey.go"],[("collection","session/resolvedconfig.go: Resolve, LookupOptions"),("application","session/invocation.go: SetMergeStrategy; provider/configlookupkey.go"),("reserved key","session/invocation.go: Lookup")],["Lookup result"])
p("C13","Values converted to Sensitive are never revealed in output or explanations",
 "When the lookup options of a key convert its value to Sensitive, neither the result as text (stringified, rendered as text, or interpolated into other text) nor any text of an explanation of the lookup contains the value, at whatever level and location it was found and whichever merge strategy combined it. Other keys are explained as usual, and hiding ends with the lookup that requested it, also when that lookup fails. (Rendering as YAML or JSON writes rich data, which holds the value, and is not meant.)",
 ["inputs","configurations"],"all sensitive values, hierarchies and strategies",
 "One test checks that a Sensitive value renders as hidden; none checks the explanation.",
 ["session/invocation.go","explain/explainer.go","provider/configlookupkey.go"],[("redaction flag","session/invocation.go: DoRedacted, LookupAndConvertData, ReportFound"),("conversion","session/invocation.go: extractConversion")],["explain text","rendered result"])
p("C14","Override, lookup, and the three kinds of defaults are tried in order",
 "A multi-name lookup returns the first name found in the override hash, else the first name found by lookup, else the first name found in the defaults hash, else the default value, else the result of the default function, else nothing; later sources are not consulted once a value is found, and false, zero, null or empty values count as found. A lookup of all names applies the same order to every name on its own and returns a hash with exactly the names that were found.",
 ["inputs"],"all name lists and all combinations of sources",
 "Tests check each source alone with fixed names.",
 ["hiera/hiera.go"],[("fallback chain","hiera/hiera.go: Lookup2, LookupAll, lookupInMap")],["Lookup2 / LookupAll result","calls of lookup and default function"])
p("C15","A result is of the requested type, converted if needed, or the lookup fails",
 "When an expected type is given, the value returned, from whatever source it came, is an instance of that type: a value that already is one is returned unchanged, another is converted, and one that cannot be converted makes the lookup fail with an error. Without an expected type the value is returned unchanged.",
 ["inputs"],"all values and types",
 "Tests convert one or two fixed values.",
 ["hiera/hiera.go","session/invocation.go"],[("conversion","hiera/hiera.go: ensureType, ensureTypeFromMap"),("convert_to","session/invocation.go: LookupAndConvertData")],["Lookup2 / LookupAll result"])
p("C16","Explaining a lookup never changes its result and always completes",
 "The value (or error) of a lookup is the same with an explainer attached as without one, for every explainer setting. The explanation reports as found exactly what the lookup found, including when a part of the lookup fails midway; attaching an explainer never makes a lookup fail.",
 ["inputs","configurations"],"all hierarchies, keys, values and explainer settings",
 "Tests compare a few explanation texts with literals, never result against result.",
 ["explain/explainer.go","session/invocation.go"],[("push/pop around every step","session/invocation.go: With*"),("acceptors","explain/explainer.go")],["Lookup result with and without explainer","explainer text"])
p("C17","Every lookup terminates; recursive references are reported as errors",
 "A key whose value refers, through lookup or alias expressions, to itself directly or through any chain of other keys (also from lookup_options) makes the lookup fail with a recursion error instead of running forever or exhausting the stack. The same holds for scope variables that refer to each other. References that are not recursive, including the same key being looked up repeatedly one after the other, never raise the error.",
 ["inputs","histories"],"all reference graphs",
 "No test holds a recursive reference through the public API.",
 ["session/invocation.go","session/interpolate.go"],[("name stack","session/invocation.go: WithKey")],["Lookup panics with an error / returns"])
p("C18","Concurrent lookups on one session never deadlock, crash or see partial state",
 "For every schedule of concurrent lookups on one session, each lookup returns what it returns alone, a configuration is loaded once and seen only complete, and no lookup waits forever. If loading a configuration fails, the failing lookup reports the error and later or concurrent lookups report an error too (or succeed after a repair) rather than blocking or crashing.",
 ["schedules","fault_sequences"],"all interleavings of two or more lookups, with and without a load failure",
 "Tests run sequentially; one test starts goroutines but samples a single schedule.",
 ["session/invocation.go","internal/datahashprovider.go","provider/modulelookupkey.go","api/servercontext.go"],[("lock stored in the cache while loading","session/invocation.go: Config"),("per-location lock","internal/datahashprovider.go: dataHash"),("shared cache","session/session.go: SharedCache")],["termination and result of each lookup"])
p("C19","A nested lookup gives what a direct lookup gives and disturbs nothing",
 "A lookup or alias expression inside data yields the same value as looking up that key directly in the same session and scope, with that key's own lookup options. It changes nothing about the lookup it is nested in: the merge strategy, lookup options, scope and redaction of the outer lookup are the same after it as before, also when the nested part fails.",
 ["inputs","configurations"],"all pairs of outer and inner keys, strategies and options",
 "Tests nest lookups only where both keys use the default strategy.",
 ["session/invocation.go","session/interpolate.go","provider/muxlookupkey.go","provider/configlookupkey.go"],[("invocation copies per mode","session/invocation.go: ForData, ForLookupOptions, Lookup"),("state setters","session/invocation.go: SetMergeStrategy, DoWithScope, DoRedacted")],["Lookup result"])
p("C20","Invocation variables take precedence over session variables, and parse as given",
 "A variable given for an invocation hides a session variable of the same name, and every other session variable stays visible; variable arguments, variable files and facts files are combined so that files win over arguments, facts over both, and a later file over an earlier one, and facts are also visible under 'facts'. A variable argument is split at its first ':' or '=' (one that stands alone, not '::', ':=', '=:' or '==') into name and value, keeping the rest of the text, which may have several lines, and a malformed one or an unusable file is an error. Scopes handed in are never modified.",
 ["inputs","configurations"],"all sets of variables and argument strings",
 "Tests pass a handful of variables.",
 ["hiera/hiera.go","session/session.go","session/invocation.go"],[("nested scope","session/invocation.go: nestedScope.Get"),("scope assembly","hiera/hiera.go: createScope")],["value of %{var}"])
p("C21","A REST request is answered 200, 404 or 500 by its own lookup only",
 "GET /lookup/<key> answers 200 with the JSON text of exactly what a lookup of <key> with the request's merge, type, default and var parameters yields, 404 when nothing is found, and 500 with the message when the lookup fails; it never terminates the server. Parameters of one request never influence any other request, earlier, later or concurrent, nor the server's own settings.",
 ["inputs","histories","schedules"],"all requests and sequences or overlaps of requests",
 "Tests send about ten fixed requests one after the other.",
 ["hieraserver/rest/rest.go","hiera/hiera.go"],[("per-request options copy","hieraserver/rest/rest.go: doLookup"),("recover to 500","hieraserver/rest/rest.go: doLookup")],["HTTP status and body"])
p("C22","Module data answers only its own keys, after and below the global data",
 "A key with a module prefix is looked up in that module's own configuration, found case-insensitively in the first directory of the module path that has it with a configuration; a module's data and lookup options only ever apply to keys with that module's prefix. A key without a prefix, an unknown module, and a module without configuration find nothing there, and remembered results of finding a module are the same as looking again.",
 ["inputs","configurations","histories"],"all keys, module paths and module contents",
 "Tests use two fixed modules.",
 ["provider/modulelookupkey.go","provider/configlookupkey.go","session/resolvedconfig.go"],[("prefix split and cache","provider/modulelookupkey.go: ModuleLookupKey"),("own-prefix restriction","provider/configlookupkey.go: ConfigLookupKeyAt; session/resolvedconfig.go: LookupOptions")],["Lookup result"])
p("C23","Several top providers are consulted in order and combined by the key's strategy",
 "With several providers configured, their values for a key are combined in the order the providers are listed by the key's merge strategy: with first, the first provider that has the key wins and later ones are not asked for data; with the other strategies all of them contribute by priority. A provider that does not have the key contributes nothing.",
 ["inputs","configurations"],"all provider lists and contents",
 "Tests use two fixed combinations.",
 ["provider/muxlookupkey.go"],[("ordered delegation","provider/muxlookupkey.go: MuxLookupKey")],["Lookup result","provider call sequence"])
p("C24","Each plugin process is started once per session and none outlives it",
 "For every sequence of plugin starts, start failures and session ends, a plugin executable is started at most once per session while it is registered, a plugin whose handshake fails or times out is terminated and reported as an error, and ending the session terminates every plugin that was started, even when terminating one of them fails. After the end of the session none is left registered.",
 ["fault_sequences","histories","schedules"],"all sequences of starts, failures and stops",
 "Tests start one plugin and stop it.",
 ["session/pluginloader.go"],[("registry","session/pluginloader.go: startPlugin, stopAll, plugin.kill")],["processes started and killed"])
p("C25","Plugin answers map faithfully to found, not found and error",
 "A request to a plugin, or a call of a function of the caller, carries the first segment of the key (the other segments are dug out of the answer) and exactly the options of the level, with the path of the location if it has one, and its answer maps one to one: success is the value, 'not found' is not found, and any failure status or transport failure is an error. A not-found answer of a data_hash, data_dig or lookup_key function never hides a lower level, and an error is never turned into not found.",
 ["inputs","fault_sequences"],"all answers and failures of a plugin",
 "Tests get one answer of each kind from a real plugin.",
 ["session/pluginloader.go","internal/datadigprovider.go","internal/lookupkeyprovider.go","internal/datahashprovider.go"],[("call mapping","session/pluginloader.go: callPlugin"),("function adapters","internal/*.go")],["Lookup result"])
p("C26","A data file is read at most once per request and served as it is",
 "Within one lookup request each data location of a level is loaded at most once, whatever keys the lookup touches, and every key sees the content of that one load; a missing file counts as no data, and a file whose content is not a hash (an empty one too) is an error naming it. A load that failed is not remembered as empty data. Two levels that use different locations or different functions never see each other's data.",
 ["inputs","histories","fault_sequences"],"all sequences of lookups over all sets of files and contents",
 "Tests look up a key once or twice per session.",
 ["internal/datahashprovider.go","provider/yamldata.go","provider/jsondata.go"],[("per-location cache","internal/datahashprovider.go: dataHash"),("file readers","provider/yamldata.go, jsondata.go")],["file reads","Lookup result"])
p("C27","The environment provider reports exactly the process environment",
 "The key env::NAME finds the value of the environment variable NAME exactly, including an empty value, and is not found when the variable is not set; the key env finds a hash of all variables whose name is not empty, each split at its first '=' sign. No other key is ever answered by the environment.",
 ["inputs"],"all environments and keys",
 "Tests check one variable.",
 ["provider/environment.go"],[("key dispatch and split","provider/environment.go: Environment")],["Lookup result"])
p("C28","Answering a lookup never changes loaded configuration or data",
 "Lookups with different scopes and keys, in any order and any number, on one session each give the result they give on a fresh session: resolving a level for one scope never alters the loaded configuration, the loaded data, the session options or the session scope that the next lookup sees.",
 ["histories","configurations"],"all sequences of lookups with any scopes",
 "Tests mostly create a new session per lookup.",
 ["config/entry.go","config/config.go","session/resolvedconfig.go","session/interpolate.go"],[("copy before resolve","config/entry.go: Resolve"),("copy on interpolate","session/interpolate.go: doInterpolate")],["Lookup results over a history"])
p("C29","Rendering a result shows the whole value in the requested form",
 "Rendering a found value as JSON or YAML writes text that, parsed again, is the value (rich values apart, which JSON and YAML render as data that stands for them), rendering as text shows every element, and the outcome 'found' or 'not found' is reported for exactly the lookups that found a value, including null and false. Rendering binary or sensitive data never fails midway with partial output reported as success.",
 ["inputs"],"all values and renderings",
 "Tests render a handful of values.",
 ["hiera/render.go","hiera/hiera.go"],[("rendering","hiera/render.go: Render"),("found flag","hiera/hiera.go: LookupAndRender")],["output text, return value"])
p("C30","An explanation written as data reads back as the same explanation",
 "Rendering an explanation as JSON or YAML writes data which, read back, is an explanation again: as text it says exactly what the original says, it has the same settings, it can be continued and rendered like the original, and rendering never changes the original. This holds for explanations of every kind of lookup: of several levels and locations (paths, globs, URIs), merges and their options, interpolations, segments of keys, modules, missing files and keys, and of lookups that failed.",
 ["inputs","configurations"],"all explanations",
 "One test compares the JSON of one explanation with fixed text; none reads one back.",
 ["explain/explainer.go","config/path.go","config/uri.go","api/key.go","hiera/render.go"],[("nodes to data and back","explain/explainer.go: initMap, initialize"),("locations to data and back","config/path.go, config/uri.go: Type"),("rendering","hiera/render.go: Render")],["the rendered explanation","the explanation read back"])
p("C31","A command line prints exactly what the lookup that it describes gives",
 "The lookup command performs the lookup that its arguments describe: of the names given, with the strategy of --merge, the value of --default, the type of --type, the variables of --var, --vars (also from the standard input) and --facts, the configuration of --config (otherwise hiera.yaml of the current directory), the dialect of --dialect, all of the names with --all, and explained with --explain and --explain-options. It prints that result in the form of --render-as (YAML, or text for explanations) and nothing else, nothing at all when no value is found, and reports an error, without ending the program otherwise, exactly when the arguments are wrong or the lookup fails. A command line is not influenced by those that ran before it in the same process.",
 ["inputs","configurations","histories"],"all command lines and sequences of them",
 "Tests run a few dozen fixed command lines, each with one or two flags.",
 ["cli/hiera.go","cli/executelookup.go","hiera/hiera.go"],[("flags","cli/hiera.go: NewCommand, cmdLookup"),("reset between commands","cli/executelookup.go: ExecuteLookup"),("lookup and rendering","hiera/hiera.go: LookupAndRender")],["output of the command","error of the command"])
p("C32","yaml2json writes the JSON of the whole YAML document or refuses it",
 "The utility yaml2json, which generates the JSON schema of hiera.yaml, writes for a YAML document on its standard input JSON text of exactly the same value: every mapping entry, sequence element and scalar at every depth, with the keys of mappings, which may be numbers or booleans, as their text. For text that is not YAML it ends with a nonzero status and writes nothing to the standard output; it never crashes.",
 ["inputs"],"all YAML documents that JSON can express",
 "It has no tests.",
 ["yaml2json/main.go"],[("conversion of keys","yaml2json/main.go: stringKeys"),("reading and writing","yaml2json/main.go: main")],["standard output","exit status"])
p("C33","A session uses exactly the configuration its options and environment select",
 "The configuration of a session is the file named by its hiera config option; else the file named by the config file name option, else by the environment variable HIERA_CONFIGFILE, else hiera.yaml, in the root option or the working directory; an absolute name in HIERA_CONFIGFILE is used as it is. If that file is missing or has no hierarchy, and only then, the default hierarchy beside it is used. The options may come as any kind of hash. An unknown dialect, and options that are not a hash, are refused. Neither the options nor the scope of the caller are changed, and changes that the caller makes to them later do not reach the session.",
 ["configurations","inputs"],"all combinations of options, environment and existing files",
 "The examples start sessions with four combinations of options, in one order of precedence each.",
 ["session/session.go","config/config.go"],[("options of a session","session/session.go: New"),("selection of the file","session/session.go: addHieraConfig"),("default configuration","config/config.go: New, makeDefaultHierarchy")],["Lookup result","Session.Dialect, Session.Scope"])
p("C34","A level asks its function what its kind says and uses exactly the answer",
 "A data_hash function is asked for the hash of a location, a lookup_key function for the first segment of the key and a data_dig function for the segments of the key, each once for every location of its level in order until the strategy has what it needs, with exactly the options of the level and the location. A value that the function gives, null and empty ones included, is the value of the level for the key; when it gives none, the level does not have the key. So the same data gives the same result whichever kind of function serves it.",
 ["inputs","configurations"],"all kinds, keys, locations and answers",
 "The examples have one function of one kind on one level.",
 ["internal/datadigprovider.go","internal/datahashprovider.go","internal/lookupkeyprovider.go","session/invocation.go"],[("calls of the functions","internal: LookupKey of the three providers"),("levels and locations","session/invocation.go: MergeHierarchy, MergeLocations")],["Lookup result","calls of the functions"])
p("C35","What a function caches is found again in its session, and nowhere else",
 "Through its server context a function in the same process can store values: a stored value is found by every later call of any function of the session, in every mode of lookup, until it is replaced, which returns the value that is replaced; the entries given are those that were stored, each once; no other session sees any of it; and concurrent functions lose none of each other's values. The context also interpolates a value as the invocation does without changing it, gives the options of the call, and takes text for an explanation, which is asked for only, and then exactly once, when the lookup is explained, and appears in it.",
 ["histories","schedules","inputs"],"all sequences of calls, keys, values and interleavings",
 "The tests store one value under one key.",
 ["session/serverctx.go","session/session.go"],[("cache","session/serverctx.go: Cache, CacheAll, CachedValue, CachedEntries"),("cache of a session","session/session.go: TopProviderCache"),("interpolation and explanation","session/serverctx.go: Interpolate, Explain")],["what functions find in the cache","Lookup result","explanation"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
