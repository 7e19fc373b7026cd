T="exhaustive choice-tree exploration of the real code against a reference model"
CLAIMED={
"C01":(T,"all type/value pairs of a boundary menu, wrapped up to depth 1-3, against an independent validator; exhaustive within those menus"),
"C02":(T,"all short strings over a boundary alphabet and all 70-digit shapes, against exact rational arithmetic"),
"C03":(T,"all boundary calendar values in 7 zones and all boundary texts, against independent calendar arithmetic"),
"C04":(T,"all one- and two-character edits and shape changes of UUID texts, against the grammar"),
"C05":(T,"all short units over an alphabet of JSON-special characters, all short texts"),
"C06":(T,"all small schemas over a colliding name pool, all lookups"),
"C07":(T,"every attribute of every schema node changed, up to 1-3 simultaneous deviations"),
"C08":(T,"all ordered pairs of an enumerated menu of type specifications against a canonical form"),
"C09":(T,"all two-struct models over a colliding field-name pool, applied twice, against a name table"),
"C10":(T,"all short operation sequences on the container against a plain nested map"),
"C11":(T,"all short comments over an alphabet with spaces and newlines, all widths"),
"C12":("exhaustive enumeration of write histories with injected faults on the real code","all write sequences over existing, missing, unwritable and full destinations against a file model"),
"C13":(T,"all type definitions, field pairs and action shapes of a menu, deviation-bounded combinations, document checked key by key and for closure"),
"C14":(T,"all documents of an abstract grammar rendered as OpenAPI 3, against a reference translation"),
"C15":(T,"export followed by import on all models of the menu, against the projection of the model"),
"C16":(T,"all documents of the same grammar rendered as Swagger 2, against a reference translation"),
"C17":(T,"all small models over the supported types and custom-scalar configurations; output read by an independent GraphQL reader"),
"C18":(T,"all schemas of a small grammar against a reference translation, and export/import round trips"),
"C19":("exhaustive enumeration of models; generated packages compiled and run, every value judged against the model","all type definitions, field specifications and action shapes of a menu, with and without the runtime package; compiled with the Go toolchain, reflected, and JSON round-tripped over boundary values"),
"C20":("exhaustive enumeration of services; generated server and client compiled and run against each other and against hand-written requests","all action shapes within a deviation bound, all parameter types and places, all answers; wire, implementation and result views each judged against the model"),
"C21":("exhaustive enumeration of models; generated classes compiled and run, every value judged against the model","all type definitions, field specifications and action shapes of a menu, with and without builders, instants, service exceptions; compiled with javac against stand-in libraries, reflected, and JSON round-tripped over boundary values"),
"C31":("exhaustive enumeration of services; generated server and client compiled and run against each other and against hand-written requests","all action shapes within a deviation bound, all parameter types and places, all answers, all configurations; wire, implementation and result views each judged against the model"),
"C22":(T,"all action shapes within a deviation bound, all example values of a menu, all short sequences of examples; the printed text read back as HTTP messages"),
"C23":("exhaustive exploration of the real code under every map iteration order (patched runtime), plus a run in another process","all eight iteration offsets for every exporter and importer on all models and documents within the bounds"),
"C24":("exhaustive enumeration of operation histories on the real code","all sequences of two (three) exports and imports over two models, outputs compared with fresh processes, models compared before and after every step"),
"C26":("exhaustive enumeration of token sequences on the real parser (over a stand-in lexer)","all short token sequences over the whole token alphabet, every truncation and every one-token edit of a source using every construct, all arrangements of three including files; bounded steps detect loops"),
"C25":("exhaustive enumeration of models and of layouts of their source, parsed by the real parser (over a stand-in lexer)","every type, field and action shape of a menu, one rich model with every variation, every layout choice at every position within a deviation bound, directive order, included files, malformed sources; the parsed model compared field by field with the model printed"),
"C27":("exhaustive enumeration of single faults in a model's source, on the real parser (over a stand-in lexer)","every undefined or doubled name, malformed place, default and example at every position of two models and of every variation of one, and faults spread over included files; accepted exactly when free of faults"),
"C28":("exhaustive enumeration of models, printed and parsed again by the real code (over a stand-in lexer) under every map iteration order","every type, field and action shape of a menu, every variation of a rich model, every attribute of a model with everything on it dropped or changed, every comment replaced by texts around the wrapping widths, parsed or built; the second model compared with the first, the second text with the first, under all eight map iteration orders"),
"C30":(T,"all dotted targets up to 3-4 segments over a colliding name pool against an independent resolver"),
}
NA={
"C29":"the smithy package depends on boynton/smithy v0.4.8, which is not installed and cannot be fetched: its types and JSON form would have to be invented, and a check against an invention decides nothing about the code",
}
