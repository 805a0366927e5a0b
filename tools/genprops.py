import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="The 9 stable tests exercise only decimal, timestamp, UUID and unit-value helpers; "
p("P01","Generation reports success only if every file is completely on disk",
"Whenever Go or Java code generation, or saving a data document, returns without an error, every file it had to write exists with exactly the bytes that a fault-free run produces, whatever disk faults happened on the way (failed or short writes, full disk, failed create, mkdir, stat, sync, close or rename). If any file could not be generated, created or completely written, an error is returned.",
["fault_sequences","inputs","configurations"],"for every model, generator configuration, pre-existing tree and sequence of I/O faults at the system-call boundary",
T+"none generates a file and none injects an I/O fault, and a failing write, flush or close needs a fault at one particular call.",
["generator.go","golang/export_golang.go","golang/golang_model.go","golang/golang_server.go","golang/golang_client.go","java/export_java.go","java/java_model.go","java/java_server.go","java/java_client.go","java/java_pom.go","data.go"],
[("sticky error of the generator","generator.go: Generator.Err, WriteFile, Emit"),("directory creation","golang NewGenerator, java EnsurePackageDir"),("returned error","golang.Export, java.Export, DataToFile")],
["error returned by the generator","files in the output directory"])
p("P02","Existing files are never altered unless overwriting was requested",
"Without the force-overwrite option, every file that existed in the output tree before generation started, or that somebody else creates there while generation runs, keeps exactly its content, whatever disk faults occur. With the option, a generation that reports success has replaced every file it generates by the new content. Files that generation does not produce are left as they were in both cases.",
["fault_sequences","schedules","configurations"],"for every model, configuration, pre-existing tree, I/O fault sequence and every instant at which another process creates a file in the tree",
T+"the existence check races with other writers and depends on how stat fails, which needs controlled interleavings and faults.",
["generator.go","java/java_pom.go","java/export_java.go","golang/export_golang.go"],
[("existence check before writing","generator.go: WriteFile, FileExists"),("pom existence check","java/java_pom.go: CreatePom")],
["content of files in the output tree before and after"])
p("P03","An interrupted generation never leaves a partial file and can be rerun",
"If Go or Java generation is killed, loses power or fails with a disk error at any point, every name it generates holds either what it held before (possibly nothing) or the complete new content, never part of it - also when another process generates the same files at the same time. Running the same generation again on the surviving tree without faults succeeds and leaves the same generated files as a run that was never interrupted. (Temporary files under other names may remain.)",
["crash_points","fault_sequences","inputs","configurations"],"for every model and configuration, every system call at which the process dies, every set of unsynced data lost, and every I/O error",
T+"no test can stop the process between two system calls or drop unsynced data.",
["generator.go","golang/export_golang.go","java/export_java.go","java/java_pom.go"],
[("file writer","generator.go: WriteFile"),("skip of existing files on rerun","generator.go: FileExists")],
["files visible after the crash","result of the rerun"])
p("P04","Exports of the same model are byte-identical every time",
"Exporting the same model with the same configuration always produces byte-identical results - generated Go and Java files, OpenAPI, GraphQL and SADL text, HTTP traces, and the error if it fails - regardless of hash-map iteration order, wall clock, time zone, process id, host name and random numbers. Only the Date line of HTTP traces depends on the clock. (Random names of temporary files may show in the error of a failing disk. The environment variables DOMAIN and HOSTNAME, which the Java generator documents as defaults, count as configuration.)",
["schedules","inputs","configurations"],"for every model and configuration, every map iteration order at every map traversal, and every clock and environment",
T+"map iteration order is chosen by the runtime, so a test that passes once proves nothing about other orders, and no test exports anything.",
["misc.go","generator.go","golang/*.go","java/*.go","openapi/export_openapi.go","graphql/export_graphql.go","httptrace/export_http_examples.go","unparser.go"],
[("ordered traversal of model lists","all exporters"),("sorted imports","java/export_java.go: CreatePojo")],
["generated files","returned or printed documents"])
p("P05","Imports of the same document always build the same model",
"Importing the same OpenAPI, Swagger or GraphQL document, loading the same JSON model, or validating the same value against a model always gives an identical result - same types, fields, actions, expected and exceptional responses, examples, all in the same order, or the same error - regardless of hash-map iteration order, clock and environment.",
["schedules","inputs"],"for every document and value and every map iteration order at every traversal",
T+"documents are decoded into maps whose iteration order the runtime chooses; no stable test imports a document.",
["openapi/import_openapi.go","openapi/import_swagger.go","openapi/model.go","graphql/import_graphql.go","model.go","data.go"],
[("conversion of components, paths, properties, responses","openapi/import_openapi.go"),("swagger conversion","openapi/import_swagger.go"),("validation","model.go: Validate*")],
["model returned by the importer","error text"])
p("P06","Exporting and validating never change the model or later results",
"Exporting a model to any format, or validating values against it, leaves the model, the configuration and the values passed in unchanged. The result of any import, export or validation depends only on its own inputs, not on which other operations ran, succeeded or failed earlier in the same process.",
["histories","inputs","configurations","fault_sequences"],"for every sequence of imports, exports and validations (including failed ones) over shared models and configurations",
T+"hidden state shows only in particular sequences of different operations on a shared model, which no test performs.",
["generator.go","golang/*.go","java/*.go","openapi/*.go","graphql/*.go","httptrace/export_http_examples.go","model.go","data.go","unparser.go"],
[("exporters read the model only","golang, java, openapi, graphql, httptrace"),("import state","openapi/import_openapi.go: examples")],
["model and configuration before and after","result of the same operation alone and after a history"])
p("P07","Concurrent conversions in one process do not affect each other",
"Imports, exports, validations and code generations running concurrently in one process - on separate models, or several exports sharing one model - each give exactly the result or error that they give when run alone.",
["schedules","inputs"],"for every interleaving of the statements of two or more conversions",
T+"they are sequential, and interference needs a switch between two particular statements.",
["openapi/import_openapi.go","openapi/export_openapi.go","graphql/*.go","golang/*.go","java/*.go","httptrace/export_http_examples.go","generator.go","model.go","parser.go"],
[("per-call generator and parser state","all packages"),("examples collected during OpenAPI import","openapi/import_openapi.go")],
["results of concurrent calls against results of the same calls alone"])
p("P08","Input that cannot be read completely is always reported",
"When an input document, configuration or included file cannot be opened or read to its end, loading or importing it returns an error and never a model or data built from the part that was read. Reads that are merely short or interrupted give the same result as an undisturbed read.",
["fault_sequences","inputs"],"for every input document and every sequence of open, stat and read faults",
T+"no stable test reads a file, and read faults cannot be provoked through the public API.",
["data.go","openapi/import_openapi.go","openapi/import_swagger.go","graphql/import_graphql.go","parser.go","cmd/sadl/import.go","cmd/sadl/main.go"],
[("error of the file read","DataFromFile, Load, LoadSwagger, Import, LoadModel"),("include handling","parser.go")],
["model or data and error returned by the importer"])
p("P09","Damaged input documents never crash or hang an importer",
"Importing an OpenAPI, Swagger, GraphQL or SADL document, or loading JSON or YAML data, whose stored bytes were truncated, torn, flipped or have lost or misplaced values, or whose files include each other in a circle, returns a model or an error within bounded work; it never crashes the process, terminates it, or loops.",
["fault_sequences","inputs"],"for every valid document and every truncation point, torn block and flipped bits in its stored bytes",
T+"no stable test imports a document, let alone a damaged one.",
["openapi/import_openapi.go","openapi/import_swagger.go","openapi/model.go","graphql/import_graphql.go","data.go","parser.go"],
[("validation of decoded documents","openapi/model.go: Validate"),("error returns","importers")],
["return or crash of the importer"])
p("P10","Printed timestamps and dates name the true instant",
"A timestamp of the years 1 to 9999 printed or marshalled in its UTC form denotes the instant of its value to the millisecond, and reading that text back gives that instant, whatever time zone the value or the process uses and whatever the clock shows, including clock jumps. A text in another form (an offset, more or fewer digits) is rejected or read as the instant it denotes. The Date header in generated HTTP traces is the current time as a standard HTTP date in GMT.",
["schedules","inputs","configurations"],"for every clock reading, clock jump and process time zone",
"The timestamp tests run with one clock and one time zone and only use UTC values.",
["timestamp.go","golang/golang_model.go","httptrace/export_http_examples.go"],
[("timestamp formatting","timestamp.go: String"),("trace date","httptrace/export_http_examples.go: dateHeader"),("timestamp support in generated Go code","golang/golang_model.go")],
["printed text against the simulated clock"])
p("P11","A printed export that cannot be delivered is reported as a failure",
"When standard output rejects or cuts short the OpenAPI, GraphQL or HTTP-trace document being printed (closed pipe, full disk, I/O error), the export returns an error; when it returns no error, the complete document was delivered. Conversion errors are likewise returned to the caller and never end the process.",
["fault_sequences","inputs"],"for every model and every point at which the output stream fails",
T+"none prints an export, and none makes standard output fail.",
["openapi/export_openapi.go","graphql/export_graphql.go","httptrace/export_http_examples.go"],
[("printing of the result","openapi.Export, graphql.Export, httptrace.Export")],
["error returned and bytes delivered to standard output"])
p("P12","Generated Go services keep requests apart and reject damaged ones",
"In a Go service built from generated server code, each response answers the request it was sent for, even when many clients are served concurrently, and the implementation is called exactly once per well-formed request with exactly the inputs that were sent. The answer carries the declared status, headers and entity, complete with its required fields. A request whose body was cut off, corrupted into invalid JSON, or is not a value of the declared type, or whose query cannot be decoded by an action that takes one, is answered with status 400 and never reaches the implementation. (Null values, missing fields and values outside a declared pattern or range are left to the implementation.) Inputs that are not sent have their declared default. A client that stalls, or a call of the implementation that takes long, keeps no other request waiting.",
["schedules","fault_sequences","inputs"],"for every interleaving of concurrent requests and every cut, reset, delay or duplication of request traffic",
"No test builds or runs generated code.",
["golang/golang_server.go","golang/golang_model.go"],
[("request adaptor template","golang/golang_server.go: serverTemplate, inputs"),("router setup","golang/golang_server.go: InitServer template")],
["calls seen by the implementation","responses seen by clients"])
p("P13","The API browser serves every client the complete documents",
"While the built-in API browser runs, every concurrent request for the API description or for a page of the bundle receives either that complete document (or the exact range it asked for) or an error status; never a mixture, a cut or an empty success. A client that does not read its answer keeps no other waiting.",
["schedules","fault_sequences"],"for every interleaving of concurrent requests and every read fault on the bundle",
"The command cannot be compiled in the test environment and no test starts the server.",
["cmd/sadl/serve.go"],
[("request handler","cmd/sadl/serve.go: serveSwaggerUi")],
["responses seen by clients"])
p("P14","A cached API-browser bundle is complete or not there",
"If downloading or storing the API-browser bundle is interrupted - dropped connection, error status, disk error, kill or power loss - the download is reported as failed and nothing that is not the complete bundle is left where a later run would take it for the cached bundle. A later run without faults downloads and stores the complete bundle. This holds as well when several processes share the cache and start at the same time.",
["crash_points","fault_sequences","histories"],"for every interruption point of the download and of the store, over several consecutive or simultaneous runs",
"No test downloads anything; the network and disk faults cannot be provoked.",
["cmd/sadl/serve.go"],
[("download cache","cmd/sadl/serve.go: cacheSwaggerDist")],
["cache directory content after each run","error of the run"])
p("P15","The command exits with zero only when everything asked for was produced",
"The command line tool exits with status zero only when every given input was read and the requested output was completely delivered to its file or standard output. Any unreadable or unusable input, configuration or directory, and any output failure, ends with a non-zero status and a message. Without faults, a usable command line ends with zero and delivers exactly what the library produces for that input, generator and configuration.",
["fault_sequences","inputs","configurations"],"for every command line, input tree and sequence of I/O faults",
"The command is only type-checked in the test environment; no test runs it.",
["cmd/sadl/main.go","cmd/sadl/import.go","cmd/sadl/export.go"],
[("exit codes","cmd/sadl/main.go: main"),("input discovery","cmd/sadl/import.go: expandPaths, ImportFiles"),("output","cmd/sadl/export.go: ExportFiles")],
["exit status, standard output and files"])
p("P16","Calls of a generated Go client return the true answer or an error",
"A call of a generated Go client, made against the generated service, passes exactly the given inputs to the implementation at most once, and returns exactly the result or declared exception that the implementation gave for that very call, even when several calls run concurrently. When the connection is refused or lost, the answer is cut off, or something else answers in the place of the service, the call returns an error, never a result made from part of an answer. Every call gives its connection back, and a call that waits for its answer keeps no other waiting.",
["schedules","fault_sequences","inputs"],"for every interleaving of concurrent calls and every loss, cut, delay or foreign answer on the network",
"No test generates, builds or runs a client.",
["golang/golang_client.go","golang/golang_server.go","golang/golang_model.go"],
[("client method template","golang/golang_client.go: clientTemplate, expectedResults, exceptionResults, queryParams, headerParams")],
["results and errors of calls","calls seen by the implementation"])
p("P17","Every operation gives back what it used",
"When an import, load, validation, export, save or code generation returns, with success or an error, it has closed every file it opened, none of its goroutines is left, the working directory, environment and standard streams are as they were, and no temporary, backup or other file that it is not meant to produce remains, unless the file system refused to remove it - whatever disk fault occurs on the way. The running API browser closes what it opens for a download or a request: it holds no more open files after a request than before it.",
["fault_sequences","histories","inputs"],"for every operation and every sequence of disk and network faults during it",
T+"no test counts open files or goroutines, and the faults that open the leaking error paths cannot be provoked.",
["generator.go","data.go","parser.go","openapi/import_openapi.go","openapi/import_swagger.go","graphql/import_graphql.go","golang/export_golang.go","java/export_java.go","cmd/sadl/serve.go"],
[("file access","data.go: DataToFile, DataFromFile; all importers"),("file writer","generator.go: WriteFile"),("download and request handler","cmd/sadl/serve.go: cacheSwaggerDist, serveSwaggerUi")],
["open files, tasks, directory listings and process state after each operation"])
N=[
("P20","SADL text survives a parse and print round trip","Printing a model as SADL text and parsing that text again gives an equivalent model.",["parser.go","unparser.go"],[("parser and printer","parser.go, unparser.go")]),
("P21","OpenAPI export preserves the meaning of the model","Exporting a model to OpenAPI and importing the document again preserves its types, required fields, constraints, actions and responses, as far as OpenAPI can express them.",["openapi/export_openapi.go","openapi/import_openapi.go"],[("type and path mapping","openapi")]),
("P22","GraphQL import and export preserve types","Importing a GraphQL schema and exporting it again preserves its object, enum and union types with field names, list-ness and nullability.",["graphql/import_graphql.go","graphql/export_graphql.go"],[("type mapping","graphql")]),
("P23","Decimal numbers keep their value through text and JSON","Every decimal within the supported precision prints and parses back to the same value, through text and through JSON.",["decimal.go"],[("big float formatting","decimal.go")]),
("P24","UUIDs are accepted exactly when well formed","A text is accepted as a UUID exactly when it is a well-formed UUID, and generated UUIDs are accepted.",["uuid.go"],[("UUID parser","uuid.go")]),
("P25","Unit values keep value and unit through text and JSON","A unit value printed as text or JSON parses back to the same value and unit.",["unitvalue.go"],[("unit value codec","unitvalue.go")]),
("P26","Validation accepts exactly the values the type allows","A value validates against a type exactly when it satisfies every constraint of the type, recursively.",["model.go"],[("validators","model.go: Validate*")]),
("P27","Generated Go and Java sources compile","For every valid model and configuration the generated Go and Java sources compile and their types carry the declared JSON names.",["golang/*.go","java/*.go"],[("templates","golang, java")]),
("P28","The parser rejects undefined, duplicate and ill-typed definitions","A SADL document that refers to an undefined type, defines a name twice or gives an example or default that does not fit its type is rejected with a message naming the place.",["parser.go"],[("semantic checks","parser.go: Validate")]),
("P29","Smithy import and export preserve the model","Importing a Smithy model and exporting it again preserves shapes, traits and operations that SADL can express.",["smithy/import_smithy.go","smithy/export_smithy.go"],[("shape mapping","smithy")]),
("P30","Swagger 2 documents import like their OpenAPI 3 equivalents","Importing a Swagger 2 document gives the same model as importing the equivalent OpenAPI 3 document.",["openapi/import_swagger.go"],[("version conversion","openapi/import_swagger.go: toV3")]),
]
for id,t,s,f,m in N:
    p(id,t,s,["inputs"],"for every input",T+"they sample a handful of inputs of an unbounded input space.",f,m,["return values"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
