G2 = "pkg/codegen/generators/v2/templates/"
G3 = "pkg/codegen/generators/v3/templates/"

p("P06", "Loggers, stock middlewares and helpers report faithfully and keep processing",
  "The ECS logger writes one well-formed JSON line per message holding the level, the message, the standard context values and every caller-supplied key, whatever characters they contain; the text logger writes level, message and keys. The stock middlewares leave the message unchanged and let the operation go on exactly once with its own outcome, and the recovery middleware contains every panic downstream and logs it once, so that the next message is processed. Each error value of the library stays recognisable with errors.Is, and the stock error handlers report the failing channel and error.",
  ["inputs"],
  "symbolic messages, context values and caller keys within the stated lengths over an alphabet with JSON metacharacters, every level, every panic kind",
  "Tests log a couple of plain strings; quoting, nested keys and panics depend on the content.",
  [X+"loggers/ecs.go", X+"loggers/text.go", X+"middlewares/logging.go", X+"middlewares/recovery.go", X+"middlewares/intercepter.go", X+"errors.go", X+"errorhandlers/logging.go", X+"context.go"],
  [("ECS line", X+"loggers/ecs.go: formatLog"), ("recovery", X+"middlewares/recovery.go"), ("context helpers", X+"context.go")],
  ["standard output", "calls of the next middleware", "returned errors"])

p("P07", "Middlewares run once each, in order, around the operation",
  "For every message sent or received by a generated controller (AsyncAPI v2 and v3, application and user), each registered middleware runs exactly once, in registration order, around the operation, and the operation itself happens exactly once, whether or not the middleware calls the rest explicitly. What a middleware changes in the message or puts in the context is visible to the later ones and to the operation; a middleware that refuses stops everything after it, and its error is what the sender gets or the error handler receives.",
  ["inputs", "schedules"],
  "every chain of up to 3 (thorough 4) middlewares with every mix of behaviours, on each of the four kinds of controller, and two concurrent messages",
  "Tests register one or two middlewares that always succeed; the guarantee is about any mix of outcomes and about concurrency.",
  [G2+"controller.tmpl", G3+"controller.tmpl", G2+"subscriber.tmpl", G3+"subscriber.tmpl"],
  [("middleware chain", G3+"controller.tmpl: executeMiddlewares/wrapMiddlewares")],
  ["middleware calls", "message reaching broker or handler", "returned/reported error"])

p("P08", "Each received message is handled once, in order, and gets the right verdict",
  "A subscription of a generated controller hands each received message, decoded, exactly once to the user's handler, in order of arrival, one at a time, with its own context (channel, direction, provider, version, raw message, correlation ID), and acknowledges it exactly when the handler succeeded. A message that cannot be decoded or whose handler fails is reported once to the error handler with its channel and error, then rejected, and reception goes on with the next message whatever the bad or empty message contained. Nothing is handled after the subscription has ended.",
  ["inputs", "histories", "schedules"],
  "symbolic headers and payloads within the stated lengths, well-formed and malformed, sequences of up to 3 messages, every schedule of delivery and end of subscription within the delay bound",
  "Tests deliver a few valid messages; malformed and empty content at any position, and the end of the subscription at any moment, are not sampled.",
  [G2+"controller.tmpl", G2+"subscriber.tmpl", G3+"controller.tmpl", G3+"subscriber.tmpl", G2+"message.tmpl", G3+"message.tmpl"],
  [("reception loop", G3+"subscriber.tmpl / "+G2+"subscriber.tmpl: listen to...")],
  ["handler calls and arguments", "error handler calls", "broker-side ack/nak"])

p("P09", "Sending hands the right message to the right address, or says why not",
  "Each sending operation of a generated controller hands the broker exactly one message, at the address of the specification with the parameter values in place whatever they contain (the same address the receiving side subscribes to), holding the given payload and headers and nothing else, and returns the broker's failure. A message with a correlation ID keeps the one given by the caller, or gets a fresh one; a reply without correlation ID or without address is refused with its documented error and nothing is sent. The broker and middlewares see the caller's context plus direction, channel, provider, version, raw message and correlation ID.",
  ["inputs", "fault_sequences"],
  "symbolic payloads, headers, correlation IDs, parameters and reply addresses within the stated lengths, on every sending operation of the fixtures, with an accepting or failing broker",
  "Tests send fixed texts with one alphanumeric parameter; percents, empty or special values and missing identifiers are input-dependent.",
  [G2+"controller.tmpl", G3+"controller.tmpl", G2+"message.tmpl", G3+"message.tmpl", G2+"helpers.go", G3+"helpers.go", "pkg/asyncapi/v2/parameter.go"],
  [("address", G3+"helpers.go: GenerateChannelAddr, "+G2+"helpers.go: GenerateChannelPath"), ("sending", "controller.tmpl: Send.../Publish...")],
  ["messages and contexts reaching the broker", "returned errors"])

p("P10", "A request returns the first reply made for it, or the documented error",
  "A generated request operation (v3 Request..., v2 WaitFor...) subscribes to the reply address before sending the request, and returns the first reply carrying the request's correlation ID (the first reply when the operation has none), whatever other, identifier-less or undecodable messages arrive before, each acknowledged once. Concurrent requests never get each other's reply. The wait always ends with its context or its subscription, and a broker failure, with the corresponding error, and in every case the reply subscription is cancelled.",
  ["inputs", "schedules", "fault_sequences"],
  "every sequence of up to 2 (thorough 3) messages on the reply channel, cancellations at any moment and broker failures, and two concurrent requests, over every schedule within the delay bound",
  "Tests send one request and get its reply; foreign replies, endings in the middle of the wait and concurrent requests need chosen interleavings.",
  [G2+"controller.tmpl", G3+"controller.tmpl"],
  [("waiting for a reply", G3+"controller.tmpl: Request.../waitFor...NextResponse; "+G2+"controller.tmpl: WaitFor...")],
  ["returned reply or error", "broker-side ack", "subscriptions left open"])

p("P12", "Controllers hold exactly the subscriptions the caller asked for",
  "After any history of subscriptions, cancellations, bulk operations and Close on a generated controller, with the broker accepting or failing, the broker-side subscriptions are exactly the ones asked for and not cancelled, one per channel and parameter values, and each channel's messages reach the handler it was last subscribed with. A second subscription of a channel is refused with its documented error and disturbs nothing, a cancelled or failed one can be subscribed again, and Close or unsubscribing everything leaves no subscription behind, parameterised ones included. A controller without broker and a bulk subscription without subscriber are refused.",
  ["histories", "fault_sequences"],
  "every history of up to 3 (thorough 4) operations over 4 channels of each kind of controller with every choice of failing broker call",
  "Tests subscribe and unsubscribe once; the guarantee is about all histories, including after refusals and failures.",
  [G2+"controller.tmpl", G3+"controller.tmpl"],
  [("subscription table", "controller.tmpl: Subscribe.../Unsubscribe.../Close")],
  ["live broker subscriptions", "handlers called", "returned errors"])

p("P11", "What one side sends is what the other side receives",
  "For every message of a specification (AsyncAPI v2 and v3), whatever the kind of its payload and headers (strings, dates, integers and numbers of each format, booleans, arrays, objects, inline or through references, required or optional), the message decoded by the receiving side equals the one given to the sending side, optional parts being present exactly when they were set. Whatever bytes a foreign sender produces, the message is either refused, reported and left unhandled, or handled as exactly the value those bytes stand for; nothing crashes.",
  ["inputs"],
  "every 64/32 bit integer and float value, symbolic strings and raw payloads within the stated lengths, well and ill formed dates and documents, over 23 messages per version",
  "Tests send one message of a few kinds and never numbers, references or truncated payloads; byte order, precision and missing parts show on particular values only.",
  [G2+"message.tmpl", G3+"message.tmpl", G2+"schema_name.tmpl", G3+"schema_name.tmpl", G2+"marshaling/time.tmpl", G3+"marshaling/time.tmpl", "pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go"],
  [("codec", "message.tmpl: brokerMessageTo.../toBrokerMessage"), ("references", "pkg/asyncapi/v3/schema.go: Follow")],
  ["message given to the handler", "bytes handed to the broker", "broker-side verdict", "error handler calls"])

p("P13", "Texts of a specification become valid Go identifiers, keys and comments",
  "Under either naming scheme, the Go name made of any text holding a letter is an exported identifier made of the text's letters and digits in order (leading digits aside), an exported identifier keeps its name, and channel parameters are not part of a channel's name. Property keys are kept as they are, or converted to the documented case without losing or adding letters and digits. A text made into a comment stays a comment on every line and keeps its content; the same names lead a correlation ID location to the field generated for it.",
  ["inputs"],
  "every text of up to the stated number of symbolic characters, including non-ASCII and ill-formed ones at every position, both naming schemes, every key conversion",
  "Tests convert a few ordinary names; digits first, separators only, non-ASCII neighbours and invalid bytes are not sampled.",
  ["pkg/utils/template/helpers.go", G2+"helpers.go", G3+"helpers.go"],
  [("naming schemes", "pkg/utils/template/helpers.go: Namify, NamifyWithoutParams"), ("key conversion", "pkg/utils/template/helpers.go: ConvertKey"), ("comments", "pkg/utils/template/helpers.go: MultiLineComment")],
  ["returned names, keys and comments"])

p("P14", "The code generated for any valid specification compiles",
  "For every valid AsyncAPI v2 or v3 document (whatever its payloads, headers, references, correlation IDs, parameters, mix of operations and replies, dependencies that hold part of its definitions, and whatever its texts contain) and every generation option, the generator produces a Go file, and this file type-checks on its own against the extensions package.",
  ["inputs"],
  "the stated families of payloads, headers, operation mixes and correlation ID places with every option, and symbolic texts within the stated lengths at each place a text of the document reaches the code",
  "Tests compile a few hand-written specifications; which combination of features or character breaks the generated source is a property of the whole grammar.",
  ["pkg/codegen/generators/helpers.go", G2+"helpers.go", G3+"helpers.go", "pkg/codegen/generators/v2/types.go", "pkg/codegen/generators/v3/types.go", "pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go", "pkg/asyncapi/v2/message.go", "pkg/asyncapi/v3/message.go"],
  [("generation", "pkg/codegen/generators/v2 and v3: generators and templates"), ("model", "pkg/asyncapi/v2 and v3: Process")],
  ["generated source, type-checked"])
p("P15", "Each side gets exactly the operations of the specification",
  "For every document and every choice of generated parts, the application and the user controllers and subscribers have one method per operation, subscription, reply or wait that concerns their side, with the message, channel parameters and reply of the specification, and no other method. Types and constants come with the types part only, and hold the addresses and version of the specification; parts which are not asked for are absent.",
  ["inputs"],
  "every combination of direction, reply, reference, parameters, correlation ID, operation ID and sharing of channels on two operations (v3) or two channels (v2), with every choice of parts",
  "Tests compare a few specifications with committed code; the sides, directions and references of operations combine in ways none of them has (a channel with both operations, a referenced operation).",
  ["pkg/codegen/generators/v3/common.go", "pkg/codegen/generators/v3/controller.go", "pkg/codegen/generators/v2/controller.go", "pkg/codegen/generators/v2/subscriber.go", G2+"helpers.go", G3+"helpers.go", "pkg/asyncapi/v3/operation.go", "pkg/asyncapi/v3/operation_reply.go", "pkg/asyncapi/v2/channel.go", "pkg/codegen/options/options.go"],
  [("selection of operations", "pkg/codegen/generators/v3/common.go:NewActionOperations; pkg/codegen/generators/v2/controller.go:NewControllerGenerator"), ("model", "pkg/asyncapi/v3/operation.go; pkg/asyncapi/v2/channel.go")],
  ["generated source: methods, signatures, constants and types"])
p("P16", "Generated types and tags represent the schemas",
  "The field generated for a property has the Go type of its schema (its references, formats, x-go-type and the options included), is a pointer if and only if the property is optional or pointers are forced (lists aside), and carries its key, with omitempty as documented. A value is accepted by the validator with the tag of its field if and only if it satisfies the supported constraints of the schema (limits, lengths, constants and enumerations of texts, uniqueness, presence where it is expressible).",
  ["inputs"],
  "every integer and number, and texts within the stated lengths, against the stated constraints; 33 schemas with every option, presence and x-omitempty",
  "Tests compare tags with expected texts for a few constraints; whether a tag accepts what its schema accepts depends on the value, and on how the validator reads the tag.",
  ["pkg/codegen/generators/helpers.go", G2+"helpers.go", G3+"helpers.go", "pkg/asyncapi/schema.go", "pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go", G2+"schema_definition.tmpl", G3+"schema_name.tmpl"],
  [("tags", "pkg/codegen/generators/helpers.go: GenerateJSONTags, GenerateValidateTags"), ("types", "schema_name.tmpl, schema_definition.tmpl"), ("constraints through references", "pkg/asyncapi/schema.go: Merge")],
  ["generated structures, and the validator's verdict on values"])
p("P17", "References lead where they say, and no document crashes the generator",
  "A reference of a document is refused, or leads to the object of the expected kind that it names, in this document or in the dependency it names, to the end of the chain when this object is itself a reference; circular references are refused. Whatever stands in place of an object of the document, processing it ends with an error or with generated code, never with a crash.",
  ["inputs"],
  "symbolic names and texts of references within the stated lengths, every pair of kinds, every chain of three objects, and the stated values at each place of a document",
  "Tests resolve a few correct references; escapes, wrong kinds, cycles and misplaced values make an unbounded set of documents.",
  ["pkg/asyncapi/v2/specification.go", "pkg/asyncapi/v3/specification.go", "pkg/asyncapi/v3/components.go", "pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go", "pkg/asyncapi/v2/message.go", "pkg/asyncapi/v3/message.go", "pkg/asyncapi/v3/channel.go", "pkg/asyncapi/v3/operation.go"],
  [("references", "pkg/asyncapi/v2/specification.go and v3/specification.go: Reference*"), ("chains", "Follow and setReference of each kind of object"), ("processing", "Specification.Process")],
  ["errors, and objects references lead to"])
p("P19", "Generation is a function of the specification and the options",
  "For a given document and given options, the generated file is the same, whatever the order in which maps are iterated, how many times it was generated, and which other documents and options were generated before in the same process.",
  ["inputs", "histories"],
  "7 documents, the map iterations of the code reordered at each place (thorough: each pair of places), any single option and document generated before",
  "A test runs one order of iteration out of many and one generation per process; an order-dependent choice or an option kept in a global shows in other runs only.",
  ["pkg/codegen/codegen.go", "pkg/utils/template/helpers.go", "pkg/codegen/generators/v2/generator.go", "pkg/codegen/generators/v3/generator.go", G2+"helpers.go", G3+"helpers.go", "pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go", "pkg/asyncapi/v3/channel.go"],
  [("generation", "pkg/codegen/codegen.go:Generate"), ("order", "ranges over maps of pkg/asyncapi and pkg/codegen"), ("state", "pkg/codegen/generators/helpers.go and pkg/utils/template: settings of the generation")],
  ["bytes of the generated file"])
p("P18", "Compositions and traits generate what they stand for",
  "An object composed with allOf, anyOf or oneOf generates the fields of all its parts, where what any part of allOf requires, or all alternatives require, is required, and a composition of values generates their type (any type if alternatives differ). A message with traits, or that is one of several, generates the same types and correlation as the message with their headers, payload and correlation ID written in it, what the message says prevailing; traits and schemas can be given by reference and shared.",
  ["inputs"],
  "symbolic property and required names; every combination of parts, references, presence and requirements within the stated bounds, in both versions",
  "Tests have one composition and three traits; what is required, kept or defined depends on the combination of inline and referenced parts, and on who else uses them.",
  ["pkg/asyncapi/v2/schema.go", "pkg/asyncapi/v3/schema.go", "pkg/asyncapi/v2/message.go", "pkg/asyncapi/v3/message.go", "pkg/asyncapi/v3/message_trait.go", "pkg/asyncapi/v3/correlation_id.go", G2+"schema_name.tmpl", G3+"schema_name.tmpl"],
  [("compositions", "pkg/asyncapi/v2/schema.go and v3/schema.go: MergeWith and the set*OfDependencies"), ("traits", "pkg/asyncapi/v3/message.go: ApplyTrait"), ("one-of messages", "pkg/asyncapi/v2/message.go: setOneOfDependencies")],
  ["generated structures, tags and correlation methods"])
p("P20", "Custom Go types are generated as such, with their imports",
  "A schema with x-go-type is generated as that very type wherever it stands in the specification, and the package of its x-go-type-import is imported exactly once, under the name it gives, so that the code compiles. Two names for one package are refused; a package the code imports already, or several types of one package, are not.",
  ["inputs"],
  "25 places of a schema, in both versions, symbolic import names and type texts within the stated bounds, each pair of places for conflicts",
  "Tests have one specification, whose custom types are in components; an import is forgotten or doubled for other places and other names only.",
  ["pkg/asyncapi/v2/extensions.go", "pkg/asyncapi/v3/extensions.go", G2+"schema_name.tmpl", G3+"schema_name.tmpl", G2+"imports.tmpl", G3+"imports.tmpl", G3+"types.tmpl"],
  [("collection", "pkg/asyncapi/v2/extensions.go and v3: CustomImports, goTypeImports"), ("types", "templates schema_name.tmpl"), ("imports", "templates imports.tmpl")],
  ["generated fields and imports", "error of the generation"])
p("P21", "Specifications are read the same from every format, or refused",
  "Exactly the documented AsyncAPI versions are accepted, as the version they are, and documents without version, of an unknown version or of an unknown file format are refused with the corresponding error; reading never gives neither a specification nor an error. A document in YAML, JSON or a file of either, gives the same specification.",
  ["inputs"],
  "symbolic version strings and texts; documents in each style, file names of each kind, malformed documents and dependencies, told versions",
  "Tests read eight versions and two wrong ones, and no YAML that is compared with its JSON; a prefix or a default accepted by mistake needs another input.",
  ["pkg/asyncapi/parser/parse.go", "pkg/asyncapi/versions.go", "pkg/codegen/codegen.go"],
  [("versions", "pkg/asyncapi/versions.go: IsVersionSupported, pkg/asyncapi/parser/parse.go: versionFromJSON"), ("formats", "pkg/asyncapi/parser/parse.go: FromFile, FromYAML, FromJSON")],
  ["specification and error of FromFile, FromYAML, FromJSON and codegen.FromFile"])
p("P22", "The command generates what its options ask for, or nothing",
  "Each flag of the command reaches the generator unchanged; the parts that are generated are exactly the ones listed, and unknown parts, key conversions and naming schemes are refused. A generation that fails leaves the output file as it was, and one that succeeds writes a complete file of the given package.",
  ["inputs", "configurations"],
  "symbolic flags and words, each list of up to 4 (thorough 5) words, each mix of parts with 2 valid and 4 invalid documents, symbolic schemes and package names",
  "No test runs the command with other lists of parts or fails a generation over an existing file; each combination and failure point is another input.",
  ["cmd/asyncapi-codegen/config.go", "pkg/codegen/codegen.go", "pkg/codegen/options/options.go", "pkg/utils/template/helpers.go", "pkg/codegen/generators/v2/generator.go", "pkg/codegen/generators/v3/generator.go"],
  [("flags", "cmd/asyncapi-codegen/config.go: ToCodegenOptions"), ("output", "pkg/codegen/codegen.go: Generate"), ("schemes", "pkg/utils/template/helpers.go: SetConvertKeyFn, SetNamifyFn")],
  ["options of the generator", "output file", "errors"])
p("P23", "Broker adapters release everything they open, whatever fails",
  "A NATS or JetStream controller holds exactly one connection from its creation to its closure (none of its own when the user gives one, which is never closed), and a creation that fails leaves none; a JetStream consumer consumes exactly while there is a subscription. A Kafka controller closes once every connection, writer and reader it opens, whatever step fails, and stops waiting for a topic once the context is over.",
  ["fault_sequences", "histories"],
  "every sequence of options, failures of connections, options and server calls, and history of subscriptions within the stated bounds",
  "Tests need a live broker that accepts everything; a leak shows when a server refuses, an option is given twice or a topic never comes.",
  ["pkg/extensions/brokers/nats/nats.go", "pkg/extensions/brokers/natsjetstream/natsjetstream.go", "pkg/extensions/brokers/kafka/kafka.go"],
  [("creation", "NewController and options of pkg/extensions/brokers/*"), ("consumption", "pkg/extensions/brokers/natsjetstream/natsjetstream.go: Subscribe, ConsumeIfNeeded, StopConsumeIfNeeded"), ("topics", "pkg/extensions/brokers/kafka/kafka.go: checkTopicExistOrCreateIt, Publish, Subscribe")],
  ["connections, consumptions, readers and writers of the client libraries"])
