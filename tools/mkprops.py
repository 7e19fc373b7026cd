#!/usr/bin/env python3
# Regenerates properties.jsonl (the single place where the property texts are edited).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])])))

TESTS="The nine stable tests parse and print a few Decimals, Timestamps, UUIDs and UnitValues; "

p("C01","Validation accepts exactly the conforming values",
 "Validating a value against a type of a model succeeds exactly when the value has the shape of that type and satisfies every constraint declared on it, at any nesting depth: string length, pattern and permitted values; numeric minimum and maximum and the native range and integrality of sized integers; collection size and element (and map key) types; required, optional and undeclared struct fields; enum symbols; union variants; UUID, Timestamp and UnitValue text forms. Values are the ones the library itself builds: booleans, strings (plain or by pointer), arbitrary-precision decimals, arrays and string-keyed maps. Declared integer bounds lie within the native range; the content of Bytes values is not prescribed. Validation always terminates with accept or an error and never panics.",
 ["inputs"],"every (type definition, value) pair, including user types layered on other user types",
 TESTS+"none calls validation, and a handful of values cannot show that no nonconforming value slips through at any nesting.",
 ["model.go","decimal.go"],"recursive descent over the type specification with one validator per base type; named types are resolved through the model's type index")
p("C02","Decimals survive parsing, printing and JSON exactly",
 "Parsing a decimal literal of up to 70 significant digits and printing it gives the same number in plain positional notation (no exponent), and encoding it to JSON and decoding it again gives an equal decimal; text that is not a finite decimal number is rejected, by the parser and the JSON decoder alike. Decimals compare in numeric order, and conversion to 32/64-bit integers and to 64-bit floats gives the represented number whenever it is representable.",
 ["inputs"],"every decimal literal up to 70 significant digits and every malformed text",
 TESTS+"they cover a handful of literals.",["decimal.go"],"fixed 250-bit binary float wrapped as a JSON number")
p("C03","Timestamps keep their instant through text and JSON",
 "Printing a timestamp, in whatever time zone it is held, gives its instant in UTC with a four-digit year, millisecond precision and a Z suffix, and parsing that text (or its JSON form) gives back the same instant truncated to the millisecond. Parsing accepts the UTC spellings Z, +00:00, -00:00, +0000 and -0000 as the same instant and rejects any other text, including out-of-range fields and non-zero offsets.",
 ["inputs"],"every timestamp of years 0 to 9999 other than the zero value, in every zone, and every text",
 TESTS+"the samples are all UTC and recent.",["timestamp.go"],"formatted print of calendar fields, time.Parse with a fixed layout")
p("C04","UUID text is accepted exactly when well formed",
 "A text is accepted as a UUID, by the parser, the JSON decoder and validation alike, exactly when it consists of 32 hexadecimal digits of either case in groups of 8-4-4-4-12 separated by hyphens; an accepted UUID keeps its text unchanged through parsing and JSON, and a rejected one yields the empty UUID or an error and leaves the target untouched.",
 ["inputs"],"every string","The single UUID test tries one good value.",["uuid.go","model.go"],"length and character-class check of the text")
p("C05","Unit values keep amount and unit through text and JSON",
 "A unit value printed as text or JSON and parsed again has the same amount and exactly the same unit, for every decimal amount and every non-empty unit text, including units with spaces, quotes, backslashes or non-ASCII characters; the JSON produced is always valid JSON. Text without a finite decimal amount, without the separating space, or without a unit is rejected.",
 ["inputs"],"every amount and unit, every text",TESTS+"one amount and one unit.",["unitvalue.go"],"'<decimal> <unit>' text with the first space as separator")
p("C06","Model construction rejects duplicates and finds every definition",
 "Building a model from a schema fails exactly when two types share a name, a type takes a built-in type's name, or two HTTP actions share a name. In a model that was built, looking up a name returns exactly the definition declared under it (or the built-in type of that name) and nothing for any other name, and the order and content of the schema's definitions are unchanged.",
 ["inputs","histories"],"every schema, every name","No stable test builds a model.",["model.go","schema.go"],"name-to-definition indexes filled while checking for duplicates")
p("C07","A model survives its JSON form unchanged",
 "Writing a model as JSON and reading it back gives a model with the same definitions in the same order and the same value for every attribute of every type, field, element, variant, example, operation and HTTP action, including decimals of any size in numeric bounds; definitions absent before are absent after.",
 ["inputs"],"every model","No stable test serializes a model.",["schema.go","decimal.go","model.go"],"struct tags of the schema types and the custom JSON encoding of decimals")
p("C08","Type equivalence means equal constraints",
 "Two type specifications are reported equivalent exactly when they describe the same type: same base type and equal pattern, permitted values (as a set), size bounds, numeric bounds, reference, enum symbols (as a set), union variants (as a set), struct field names, types and requiredness in order, and equivalent item, key, unit and value types. The relation is reflexive, symmetric and insensitive to whether bounds are shared or separately allocated, and comparing unknown type names does not crash.",
 ["inputs"],"every pair of type specifications","No stable test compares types.",["model.go"],"attribute-by-attribute comparison with recursion through named types")
p("C09","Hoisting inline enums preserves meaning and names",
 "Hoisting inline enums turns every struct field that declares an enum inline into a reference to a top-level enum type with the same elements and touches nothing else; afterwards every type name is unique, every new type can be found by name, and no inline enum field remains. It fails, instead of merging or shadowing definitions, exactly when the name it needs is taken by a type that is not equivalent; running it again changes nothing.",
 ["inputs","histories"],"every model, and repeated application","The refactoring test is not among the stable tests and has one model.",["model.go"],"derives a type name from struct and field names, compares with an existing type of that name, appends new definitions")
p("C10","Nested configuration lookup follows the path exactly",
 "After any sequence of puts on a configuration container, a lookup with a key path returns the value reached by following every key of the path through nested maps, and nothing when any key on the way is missing or is not a map; presence tests, typed getters and the accessors for plain maps agree with that lookup, with their documented zero values for absent or differently typed values. A lookup never changes the container, and generator options fall back to their defaults exactly when the option is absent.",
 ["histories","inputs"],"every sequence of puts and every key path","No stable test touches the container.",["data.go","generator.go","struct_helpers.go"],"iterative descent through map[string]interface{}")
p("C11","Wrapped comments keep their text inside the comment",
 "Formatting a comment for generated source puts the indentation and the comment prefix in front of every line it produces, ends each with a newline, and keeps the comment's words in order: a comment with line breaks keeps exactly its lines, one without is only broken at spaces, and no line of it with more than one word exceeds the width. No text of a comment ever lands outside a comment line, whatever the width, indentation and padding.",
 ["inputs"],"every comment text, width, indent, prefix and padding flag","No stable test formats a comment.",["misc.go","generator.go"],"greedy word wrap with prefix per line")
p("C12","Generated files never clobber and never fail silently",
 "Writing a generated file leaves an existing file byte-for-byte unchanged unless overwriting was requested; otherwise, after the write either the file holds exactly the given content or the generator reports an error. The text emitted between beginning and ending a file is returned exactly and in order. An error reported by an earlier step is never erased by a later successful write.",
 ["fault_sequences","histories"],"every sequence of writes over existing, missing, unwritable and full destinations","No stable test writes a file; faults such as a full device are never exercised.",["generator.go"],"existence check, create, buffered write, sticky error field")
p("C13","OpenAPI export is closed and complete",
 "Exporting a model to OpenAPI 3 gives a document in which every schema reference resolves, every type definition appears as a component schema with its base kind, constraints (length, pattern, permitted values, numeric bounds, array and map sizes, enum symbols, required fields, item types) and comment, and every HTTP action appears under its path and method with each path, query and header parameter (name, location, required flag, type), its body, its expected status with outputs, and each exception status. Nothing is exported that the model does not declare, two actions with the same method and path are reported as an error, the service's name, version, comment, server and license are given, examples appear at the type, parameter or body they belong to and nowhere else, and export never panics on a valid model. (Field-level formats of UUIDs and descriptions of fields are not prescribed; exceptions of one action have distinct statuses; numeric bounds are representable as 64-bit floats.)",
 ["inputs"],"every valid model built from Bool, Int8..Float64, Decimal, String, Timestamp, UUID, Array, Map, Struct, Enum and Union types, with Bytes, UnitValue and Any inside other types, and HTTP actions","The OpenAPI tests are not among the stable tests.",["openapi/export_openapi.go","openapi/model.go"],"type-directed translation to schema objects and path items")
p("C14","OpenAPI import reflects the document",
 "Importing an OpenAPI 3 document yields one type definition per component schema with the same kind, constraints, fields, required flags and item types, and one HTTP action per path and method with each declared parameter in its location with its required flag, the request body as input, the first successful response (lowest 2xx, else lowest 3xx) as the expected result and the other responses as exceptions; names, version, description, license, a server and the examples of schemas and properties are kept, every input and output has a name, and referenced names in the result are defined. A document that is incomplete or uses what cannot be represented (cookie parameters, status wildcards, unknown types, references to nothing) is reported as an error. Equal documents give equal models, in a stable order. (Parameters are declared at the operation, items are references or plain scalars, error responses refer to components.)",
 ["inputs"],"every OpenAPI 3 document within the supported subset","The OpenAPI tests are not among the stable tests.",["openapi/import_openapi.go","openapi/model.go"],"schema-directed translation with operation naming rules")
p("C15","OpenAPI export then import preserves the service",
 "A model exported to OpenAPI 3 and imported again has the same types, up to what OpenAPI can express: names, kinds, struct fields with their types and requiredness, enum symbols and order, string and numeric constraints, and the same HTTP actions with name, method, path, inputs with location and requiredness, expected status and output type, and exceptions. Not expressible, and so not preserved: the order of types and actions, Int8 and Int16 as distinct from Int32, UnitValue and UUID fields as distinct from strings, the names of body and header parameters, unions.",
 ["inputs"],"every model in the expressible subset","The OpenAPI tests are not among the stable tests.",["openapi/export_openapi.go","openapi/import_openapi.go"],"composition of exporter and importer over the JSON form of the document")
p("C16","Swagger 2 import reflects the document",
 "Importing a Swagger 2 document yields one type per definition with the same kind, fields, required flags, item types, enum symbols and constraints, and one HTTP action per path and method with every path, query, header and body parameter, its required flag and type, the expected response and the other responses as exceptions, with the service's name, version, description, license and server and the examples of definitions and properties. A document of another version, or one that cannot be represented (status wildcards, unknown types, references to nothing), is reported as an error. Every input and output has a name. Equal documents give equal models. Documents declare application/json.",
 ["inputs"],"every Swagger 2 document within the supported subset","No stable test covers Swagger import.",["openapi/import_swagger.go"],"translation of definitions and operations from a generic JSON tree")
p("C17","GraphQL export is a valid, complete schema",
 "Exporting a model to GraphQL gives a schema that parses, in which every type named anywhere is built in or defined exactly once, each struct appears as an object type with each of its fields in order, list-ness, item type and non-null marker matching the model, each enum with its symbols in order and each union with its variants. Comments stay inside comments. A model with a type, field, array item or union variant that GraphQL cannot express (maps, Any, Bytes, UnitValue, inline enums, structs and unions, variants that are not structs) is reported as an error.",
 ["inputs"],"every model over Bool, integers, floats, Decimal, String, UUID and Timestamp (named or not), arrays, structs with at least one field, enums and unions of structs, and every custom-scalar configuration","No stable test covers GraphQL.",["graphql/export_graphql.go"],"textual emission per type kind with a scalar mapping")
p("C18","GraphQL import reflects the schema",
 "Importing a GraphQL schema gives one type per object, enum and union declaration (plus the predefined ID) with the same fields in order, list item types, enum symbols and variants, a field being required exactly when declared non-null, and descriptions kept as comments, wherever the schema's operation types are declared; lists of lists, unknown scalars, other kinds of definition, text that does not parse and anything but one readable file are reported as errors; the model has the configured name and namespace; a model exported to GraphQL and imported again has the same structs, fields, requiredness, enums and unions up to the scalar mapping.",
 ["inputs"],"every schema of object, enum and union declarations","No stable test covers GraphQL.",["graphql/import_graphql.go","graphql/export_graphql.go"],"walk of the parsed GraphQL AST")
p("C19","Generated Go model code compiles and matches the model",
 "The Go model generated from a valid model is a Go package that compiles, written to the configured directory, package and file names, in which each struct, enum, union, array, map and named scalar, and the request and response of each action, is declared once, with one exported field per struct field carrying the field's JSON name, omitted-when-empty exactly when the field is optional, and the Go type that corresponds to the field's type. Decoding a conforming JSON value into a generated type and encoding it again gives the same value, including long decimals, absent optional fields and enum-keyed maps; generated enums convert every symbol to and from its text and reject others. (An optional field or union variant holding the zero value of a Go type without an unset state counts as absent; names the model makes collide in Go are excluded; inline enums, structs and unions, and UnitValue without the runtime package, are reported as errors.)",
 ["inputs","programs"],"every model over the types the Go generator supports","No stable test generates code, and compiling a sample says nothing about other models.",["golang/golang_model.go","golang/export_golang.go"],"template-free emission of declarations with a native type mapping and import tracking")
p("C20","Generated Go server and client agree with the HTTP actions",
 "The Go server and client generated from a model with HTTP actions compile together with the generated model; the server hands a request to the implementation exactly when its method and path match an action, with every path, query, header and body input taken from its declared place (or its declared default), and answers with the action's expected status, headers and body, or with the declared status and body of the exception raised, or 500; the client sends each call as one request with the action's method and path and every supplied input, escaped, in its declared place under its wire name, and returns the outputs or the exception the server answered. (A parameter holding its Go zero value counts as not supplied; parameters are scalars or enums; exceptions are structs with distinct statuses.)",
 ["inputs","programs"],"every model with HTTP actions over the supported types","No stable test generates code.",["golang/golang_server.go","golang/golang_client.go"],"text templates over per-action descriptors")
p("C21","Generated Java model classes compile and match the model",
 "The Java sources generated from a valid model compile given the libraries they import. Each struct becomes a class with one member per field of the Java type that corresponds to the field's type, annotated with the field's validation constraints (required, pattern and size of strings, bounds of numbers); each enum becomes a Java enum with its symbols, each union a class with one variant set, each UnitValue a class with value and unit, and each HTTP action a request and a response class; all in the package, directory and files derived from the configuration. Decoding a conforming JSON value with Jackson and encoding it again gives the same value, and builders, constructors, setters and factory methods agree with it, with and without builders, instants and service exceptions. Inline enums, unions and UnitValues and fields named like Java keywords are reported as errors. (An optional field holding an empty text, array or map counts as absent. Names that Java bean conventions mangle or that collide with imported library classes, nested containers of timestamps, and the lombok option are excluded.)",
 ["inputs","programs"],"every model over the types the Java generator supports, every configuration","No stable test generates code, and compiling a sample says nothing about other models.",["java/export_java.go","java/java_model.go","java/java_util.go"],"emission of classes with a native type mapping and import tracking")
p("C22","HTTP traces show the request and response the examples describe",
 "For every request example of an HTTP action, in the order the examples are given, the exported trace shows the action's method, its path with each path parameter replaced by the example's value, exactly the query parameters the example supplies and any constants of its template (both escaped as URLs require), one header line per header input supplied and the body input as JSON; and, when the response or one of the action's exceptions has an example of the same name, the status, each header supplied, and the body as JSON of that result, with a Content-Length equal to its byte length and a Date. No placeholder is left unreplaced and no example is dropped, whether the example values come from the parser or from JSON. (Parameters are scalars or enums; examples of one target have distinct names.)",
 ["inputs"],"every HTTP action and its examples","No stable test exports traces.",["httptrace/export_http_examples.go"],"template substitution over the action's inputs and outputs")
p("C23","Output is a function of the input",
 "Running the OpenAPI, GraphQL, HTTP trace, Go or Java exporter, the OpenAPI, Swagger or GraphQL importer, or the annotation and JSON formatters twice on equal input, in the same process or another, gives byte-identical output (or an error each time), whatever order the runtime iterates over maps in. (The Date of an HTTP trace is the time of the run.)",
 ["schedules","inputs"],"every map iteration order the runtime can choose, every model and document","Map iteration order is chosen at random by the runtime; a test sees one order per run and cannot force another.",["openapi/export_openapi.go","openapi/import_openapi.go","openapi/import_swagger.go","graphql/export_graphql.go","java/export_java.go","golang/export_golang.go","httptrace/export_http_examples.go","misc.go"],"iteration over Go maps while emitting output")
p("C24","Exporting does not change the model or later exports",
 "In any sequence of exports and imports run in one process over several models, each step gives the same output as it gives alone in a fresh process on a fresh copy of its model, and no step changes any of the models.",
 ["histories"],"every sequence of exporters and importers over several models","No stable test runs an exporter, let alone two in sequence.",["openapi/export_openapi.go","openapi/import_openapi.go","graphql/export_graphql.go","golang/export_golang.go","java/export_java.go","httptrace/export_http_examples.go"],"exporters share the model by pointer and some keep package-level state")
p("C25","Parsing SADL text gives the model it describes",
 "Parsing a SADL source gives a model that contains exactly the definitions written in it (and in the files it includes), in order, with every option, constraint, comment, annotation, default, required marker, HTTP parameter location, status and example as written, whatever the layout: line breaks or separators between elements, options in any order or case, inline or named types, comments before a definition or element, on its line, or both. (Comments before a closing brace, annotations after the closing brace of a struct or enum definition, line breaks inside option parentheses, and string escapes outside example and default literals are excluded; a body or path parameter counts as required whether it says so or not.)",
 ["inputs"],"every SADL source up to the enumerated grammar depth, in every permitted layout","The parser tests cannot be built here and sample a handful of sources.",["parser.go"],"hand-written recursive descent with one token of pushback")
p("C26","The parser always answers",
 "For every sequence of tokens, the parser terminates with a model or an error that carries a message; it never panics, loops or exits the process, whatever the point at which the input ends; a file that includes itself, directly or through others, is an error.",
 ["inputs"],"every token sequence up to the bound and every truncation of a valid source","The parser tests cannot be built here and only feed complete sources.",["parser.go"],"token pushback and end-of-statement handling")
p("C27","A source is accepted exactly when it is free of faults",
 "A source is rejected when a type name used in it - by a field, an array or map item or key, a UnitValue's value or unit, a reference, a union variant, an input, output or exception of an HTTP action or operation, or an example's target - is neither defined in it or in the files it includes nor built in; when two types, or two named HTTP actions, have the same name or a type has the name of a built-in one; when a path template is malformed, an action has an input without a place while its method takes no body, or has more than one body, or answers 204 or 304 with a body; when a String has both a pattern and a set of values; when a required field has a default; and when a default or an example (of a type, a field, or the request or response of an action) does not conform to its type. A source with none of these faults is accepted, and no type name of an accepted model is undefined. (Literals of Bytes, UnitValue and union types are left to C01.)",
 ["inputs"],"every model with zero or one fault at every position, in one file or spread over included files","The parser tests cannot be built here and try a handful of faults.",["parser.go","model.go"],"validation pass over the parsed schema")
p("C28","Printing a model as SADL and parsing it gives the same model",
 "Printing a model as SADL text, whether it was parsed or built by an importer, and parsing that text again gives an equal model: the same name, namespace, version, base, types, fields, options, defaults, required markers, HTTP actions with their parameters, results and exceptions, operations, examples, annotations, and comments up to their line breaks. Printing that model gives the same text again. Printing does not change the model, and the text does not depend on map iteration order. (Models that SADL source cannot say - strings outside literals that need escapes, comments whose words are not separated by single blanks or line breaks, constraints on HTTP parameters - are excluded.)",
 ["inputs","configurations"],"every model up to the enumerated grammar depth, under every map iteration order","The refactoring tests cannot be built here.",["unparser.go","parser.go"],"emission of each definition in SADL syntax")
p("C29","Smithy export and import agree with the model",
 "Exporting a model to Smithy gives shapes in which every target is defined, each type definition and HTTP action appears with its members, required markers and constraints, and importing those shapes again gives the same types and HTTP actions up to what Smithy can express.",
 ["inputs"],"every model in the expressible subset","The smithy package cannot be built with the modules here.",["smithy/export_smithy.go","smithy/import_smithy.go"],"translation between the schema and Smithy shapes")
p("C30","Example targets resolve to the element they name",
 "Resolving an example's target gives the type of the definition, or of the nested field, HTTP input or HTTP output its dotted path names, following named types where the library documents it; an unknown name anywhere on the path is an error, and resolution never crashes, whatever HTTP actions declare.",
 ["inputs"],"every model and every dotted target","No stable test resolves examples.",["model.go"],"walk along the dotted path through types, HTTP inputs and outputs")
p("C31","Generated Java server and client agree with the HTTP actions",
 "The JAX-RS resources and the client generated from a model with HTTP actions compile together with the generated model classes; a request reaches the implementation exactly when its method and path match an action, with every path, query, header and body input taken from its declared place (or its declared default), and is answered with the action's expected status, headers and body, or with the declared status and body of the exception raised, or 500; the client sends each call as one request with the action's method and path and every supplied input, escaped, in its declared place under its wire name, and returns the outputs or the exception the server answered; the example implementation starts a server with those resources. (Parameters are scalars or enums; exceptions are structs with distinct statuses; a bare Timestamp or Bytes is not a body.)",
 ["inputs","programs"],"every model with HTTP actions over the supported types, every configuration","No stable test generates code.",["java/java_server.go","java/java_client.go","java/java_model.go"],"text templates over per-action descriptors")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
