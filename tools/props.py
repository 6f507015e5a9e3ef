"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration", state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        rec=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mechanism],
                observe_at=observe,
                hook_needed=None,
            ),
        ),
        technique=technique, note=note, level=level))


TRUST = " Assurance is that of the search: bounded random exploration, not proof."

prop("C01", "A schema document means the type it was written from",
     "For every Recap type, the document written for it (cleaned or not, with aliases or without) is JSON that reads back as that same type: same structure and order, every attribute, doc, default, name, alias and logical annotation, where a reference to a builtin counts as what it stands for. Cleaning or aliasing any valid document, once or repeatedly, keeps its meaning, and a cleaned document leaves out attributes that have their default value and names builtins by their name. Writing never changes the type.",
     ["inputs"], "all types built from the eleven kinds and references, nested to any depth, with any attributes, and all four writer modes",
     "The tests convert a fixed list of small types; combinations of optional unions, nested attributes, deep aliases and modes are unbounded.",
     ["recap/types.py"], [("to_dict", "recap/types.py"), ("from_dict", "recap/types.py"), ("clean_dict", "recap/types.py"), ("alias_dict", "recap/types.py")],
     ["recap.types.to_dict", "recap.types.from_dict", "recap.types.clean_dict", "recap.types.alias_dict"],
     "property-based testing: round trip against an independent schema model",
     "Random schemas to depth 4 with all attributes; oracle is an independent model of the document format with its own table of builtins." + TRUST)

prop("C02", "The parser accepts exactly the valid documents; sugar is only sugar",
     "Every valid schema document is accepted, and every document that breaks a documented rule anywhere inside it is rejected: bits of 1 to 2147483647, byte sizes and list lengths of 1 to 9223372036854775807, a size on everything of fixed length, the required attributes of each kind, and aliases that are fully qualified and defined once. Shorthand (names for simple types, lists for unions, a list as the type, the optional flag, builtin names, left-out defaults) yields the same type as the spelled-out document. The document passed in is not modified.",
     ["inputs"], "all documents, valid or broken in one place at any depth, in every mix of shorthand",
     "Tests check single rules at the top level of small documents; where in a nested document a rule is enforced and how shorthands combine is not sampled.",
     ["recap/types.py"], [("from_dict", "recap/types.py"), ("validate methods", "recap/types.py")],
     ["recap.types.from_dict"],
     "property-based testing: generated documents against an independent reading of the format; enumerated boundaries",
     "Every limit is enumerated in every position; random documents with random sugar, and random documents with one broken rule." + TRUST)

prop("C03", "A reference stands for its definition, at any depth and recursively",
     "Resolving a reference yields the definition registered under its alias (without that definition's own alias, doc and default) with every attribute set on the reference overriding it; this works through any chain of references, including recursive and mutually recursive definitions and references that precede the definition. Unknown aliases, second definitions, builtin names and unqualified names are rejected and leave the registry as it was. Definitions, resolved types, references and registries are isolated: changing one never changes another.",
     ["inputs", "histories"], "all documents with mutually referring definitions followed to any depth, and all histories of definitions and references on several registries",
     "Tests resolve one proxy once; depth of recursion, overrides, histories and isolation are unbounded.",
     ["recap/types.py"], [("RecapTypeRegistry", "recap/types.py"), ("ProxyType.resolve", "recap/types.py")],
     ["RecapTypeRegistry.register_alias", "RecapTypeRegistry.from_alias", "ProxyType.resolve"],
     "model-based stateful testing of alias histories; generated recursive documents unrolled against a model",
     "Histories of up to 10 steps on two registries; recursive documents unrolled 9 levels." + TRUST,
     state=[("alias table", "alias -> definition", "RecapTypeRegistry")])

prop("C04", "Making a type nullable adds null and changes nothing else",
     "For every type, its nullable version is a union that contains null once more than before only if there was none (then first), keeps every alternative and attribute of the original, and carries the original's doc, field name and default (null if there was none). A type is nullable exactly if it is null or a union with null among its alternatives, and a union is optional exactly if it consists of null and one other type and has a default. The original is never modified, and making a type nullable again changes nothing.",
     ["inputs"], "all types with any attributes, including unions with null anywhere",
     "Tests cover a few types; the operation is used by every converter for every nullable column.",
     ["recap/types.py"], [("make_nullable", "recap/types.py"), ("is_nullable", "recap/types.py"), ("is_optional", "recap/types.py")],
     ["RecapType.make_nullable", "RecapType.is_nullable", "UnionType.is_optional"],
     "property-based testing against a reference model, with non-interference checks",
     "Random types incl. unions with attributed nulls; compares with the model and the untouched original." + TRUST)

prop("C05", "Types are equal exactly if nothing observable differs",
     "Two types compare equal if and only if their kind, every attribute (including extra ones), alias, logical type, doc and all nested types in order are the same. Equality is reflexive, symmetric and agrees with the explicit documents of the two types.",
     ["inputs"], "all pairs of types, in particular those that differ in a single attribute at any depth",
     "Tests compare few pairs; a forgotten attribute in one kind shows only for that attribute.",
     ["recap/types.py"], [("__eq__ of every type", "recap/types.py")],
     ["RecapType.__eq__"],
     "property-based testing: metamorphic single-attribute mutation against structural equality",
     "Random schemas paired with copies mutated in at most one place." + TRUST)

prop("C06", "Reading an Avro schema keeps its meaning",
     "Every valid Avro schema (primitives, records, enums, fixed, arrays, maps, unions, logical types, named types defined once and referred to by name or full name with namespace inheritance, nesting, recursion) is read as the Recap type that describes the same data: same fields in order with names, docs and defaults, same alternatives, sizes and symbols, and references that resolve to the named definition. Nothing valid is rejected because of how names repeat or nest.",
     ["inputs"], "all valid Avro schemas",
     "Tests read a handful of hand-written schemas; naming, nesting and union combinations are unbounded.",
     ["recap/converters/avro.py"], [("AvroConverter.to_recap", "recap/converters/avro.py")],
     ["AvroConverter.to_recap"],
     "property-based testing: generated Avro schemas against an independent interpreter of the Avro specification",
     "Schemas with up to 3 named types, depth 4; oracle is an independent translation following the Avro specification and Recap's documented mapping." + TRUST)

prop("C07", "An Avro schema written from a Recap type describes that type",
     "For every Recap type the Avro writer accepts, the result is a valid Avro schema that describes the type as documented: field order, names, docs and defaults, nullability, alternatives, sizes, symbols, logical types and references are those of the Recap type. Types Avro cannot express are rejected rather than written as something else, and the type itself is not modified.",
     ["inputs"], "all Recap types, nested to any depth",
     "Tests write a few fixed types; the combination of kinds, attributes and nesting is unbounded.",
     ["recap/converters/avro.py"], [("AvroConverter.from_recap", "recap/converters/avro.py")],
     ["AvroConverter.from_recap"],
     "property-based testing: independent Avro interpreter and validator as the oracle",
     "Random Recap types restricted to what the mapping covers, plus generated inexpressible types." + TRUST)

prop("C08", "Reading a JSON Schema keeps its meaning",
     "Every JSON Schema of the supported vocabulary (type, properties, required, items, formats, nested objects and arrays, title, description, default, references to schemas by id, inline or retrieved) is read as the Recap type that describes the same documents: same properties in order, nullable exactly if not required, with docs, names and defaults, and references that resolve to the referred schema. Any URI may be a schema's $id; its alias is a qualified name (the reversed host and the path, where these form one). What it does not support is rejected.",
     ["inputs"], "all schemas over the supported keywords, nested to any depth",
     "Tests read single keywords; nesting, requiredness and references combine without bound.",
     ["recap/converters/json_schema.py"], [("JSONSchemaConverter.to_recap", "recap/converters/json_schema.py")],
     ["JSONSchemaConverter.to_recap"],
     "property-based testing: generated schemas against an independent translation",
     "Schemas to depth 4 and networks of up to 3 referring schemas." + TRUST)

prop("C09", "A JSON Schema written from a Recap type accepts exactly its values",
     "For every Recap type the JSON Schema writer accepts (unions with alternatives of different JSON kinds), the result is a valid JSON Schema that accepts every JSON value of that type and rejects values that are not (wrong kind, missing required field, unknown enum symbol), optional fields may be left out, and it carries docs, defaults and formats. Types it cannot express, such as a struct with a field that has no name, are rejected, and the type itself is not modified.",
     ["inputs"], "all expressible Recap types and all JSON values",
     "Tests compare a few written schemas with expected text; which values they accept is never exercised.",
     ["recap/converters/json_schema.py"], [("JSONSchemaConverter.from_recap", "recap/converters/json_schema.py")],
     ["JSONSchemaConverter.from_recap"],
     "property-based testing: differential instance validation (jsonschema library vs a model of Recap values)",
     "Random types with random conforming and mutated values; the validator is the installed jsonschema package." + TRUST)

prop("C10", "Reading a Protobuf schema keeps its meaning",
     "Every proto3 file over the supported constructs (scalars, repeated, maps, enums, nested and sibling messages with distinct names, oneofs, well-known types, recursive and mutual references by simple or full name, with or without a leading dot) is read as the Recap type of its first message: same fields in order, with the right kinds, widths and signedness, messages and well-known types nullable, and references that resolve to the message or enum they name. Files that refer to undefined types or have no message are rejected.",
     ["inputs"], "all proto3 files over the supported constructs",
     "Tests read a few files; message graphs and reference forms are unbounded.",
     ["recap/converters/protobuf.py"], [("ProtobufConverter.to_recap", "recap/converters/protobuf.py")],
     ["ProtobufConverter.to_recap"],
     "property-based testing: generated proto files against an independent translation",
     "Files of up to 4 messages with nesting and cross references." + TRUST)

prop("C11", "A Protobuf schema written from a Recap type describes that type",
     "For every Recap struct the Protobuf writer accepts, the result is a valid proto3 file (apart from imports of well-known types, which are referred to by name) whose first message has the struct's fields in order, under their names, with types that hold the same values, unique field numbers, repeated for lists, map for maps, oneof for unions, and one definition for each message or enum. What Protobuf cannot express is rejected, and the struct itself is not modified.",
     ["inputs"], "all Recap structs",
     "Tests compare a few written files with expected text and never compile them.",
     ["recap/converters/protobuf.py"], [("ProtobufConverter.from_recap", "recap/converters/protobuf.py")],
     ["ProtobufConverter.from_recap"],
     "property-based testing: the Protobuf runtime's descriptor pool as validity oracle plus an independent translation",
     "Random structs; the written file is parsed, loaded into google.protobuf's DescriptorPool and compared with the model." + TRUST)

prop("C12", "Writing what was read and reading it again changes nothing",
     "For Avro, JSON Schema and Protobuf: a schema that was read into Recap, written back to the same format and read again is the same Recap type, and repeating this never changes it further. This holds for Avro schemas without fixed types, JSON Schemas without ids and lists of types, and proto3 files without well-known types and with at least two alternatives in a oneof; an empty doc counts as none.",
     ["inputs"], "all schemas of each format for which the writer is defined",
     "Tests check each direction separately on different inputs.",
     ["recap/converters/avro.py", "recap/converters/json_schema.py", "recap/converters/protobuf.py"],
     [("to_recap/from_recap pairs", "recap/converters")],
     ["*.to_recap", "*.from_recap"],
     "property-based testing: read-write-read fixpoint",
     "Uses the generators of C06, C08 and C10." + TRUST)

prop("C13", "PostgreSQL columns become the types the database declares",
     "For every set of information-schema rows, the PostgreSQL reader yields one struct field per column in ordinal order, with the column's name and default, nullable exactly if the column is, and the type documented for its declared type with the declared length, precision and scale; arrays of any supported element type become lists. Types it does not support are rejected, never guessed.",
     ["inputs"], "all rows over supported column types and all declared sizes, names, defaults and comments",
     "Tests convert one row per type with a few sizes.",
     ["recap/converters/postgresql.py", "recap/converters/dbapi.py", "recap/clients/postgresql.py"],
     [("PostgresqlConverter.to_recap", "recap/converters/postgresql.py")],
     ["PostgresqlConverter.to_recap"],
     "property-based testing: generated column rows against an independent reference table",
     "Random tables of 0-6 columns over every supported type." + TRUST)

prop("C14", "MySQL columns become the types the database declares",
     "For every set of information-schema rows, the MySQL reader yields one struct field per column in ordinal order, with the column's name and default, nullable exactly if the column is, and the type documented for its declared type with the declared length, precision, scale and signedness. Types it does not support are rejected, never guessed.",
     ["inputs"], "all rows over supported column types and all declared sizes, names, defaults and comments",
     "Tests convert one row per type with a few sizes.",
     ["recap/converters/mysql.py", "recap/converters/dbapi.py"],
     [("MysqlConverter.to_recap", "recap/converters/mysql.py")],
     ["MysqlConverter.to_recap"],
     "property-based testing: generated column rows against an independent reference table",
     "Random tables of 0-6 columns over every supported type." + TRUST)

prop("C15", "Snowflake columns become the types the database declares",
     "For every set of information-schema rows, the Snowflake reader yields one struct field per column in ordinal order, with the column's name and default, nullable exactly if the column is, and the type documented for its declared type (in any letter case) with the declared length, precision and scale. Types it does not support are rejected, never guessed.",
     ["inputs"], "all rows over supported column types and all declared sizes, names, defaults and comments",
     "Tests convert one row per type with a few sizes.",
     ["recap/converters/snowflake.py", "recap/converters/dbapi.py"],
     [("SnowflakeConverter.to_recap", "recap/converters/snowflake.py")],
     ["SnowflakeConverter.to_recap"],
     "property-based testing: generated column rows against an independent reference table",
     "Random tables of 0-6 columns over every supported type." + TRUST)

prop("C16", "SQLite tables read back as what SQLite itself stores",
     "For every table that can be created in SQLite (any declared types, names, defaults, NOT NULL, primary keys and generated columns), listing shows the table and its schema has one field per column in order, with its name and default, nullable unless it is declared NOT NULL or part of the primary key, and a type that follows SQLite's own affinity for the declared type, with declared sizes.",
     ["inputs"], "all SQLite tables, with any identifiers and declared types",
     "Tests create one table; the affinity rules apply to arbitrary declared type text.",
     ["recap/clients/sqlite.py", "recap/converters/sqlite.py"],
     [("SQLiteClient.schema", "recap/clients/sqlite.py"), ("SQLiteConverter.to_recap", "recap/converters/sqlite.py")],
     ["SQLiteClient.ls", "SQLiteClient.schema"],
     "property-based testing against the real SQLite engine as the oracle",
     "Random tables are really created; affinity is asked of SQLite itself." + TRUST)

prop("C17", "BigQuery fields become the types the table declares",
     "For every list of BigQuery schema fields, the reader yields the same fields in order with names, descriptions and defaults; repeated fields become lists, nullable ones unions with null, required ones neither; records nest to any depth; lengths, precision and scale are those declared or, without, BigQuery's own (38 or 76 digits, scale 0). Unsupported types are rejected.",
     ["inputs"], "all BigQuery field trees",
     "Tests convert flat lists and one record.",
     ["recap/converters/bigquery.py"], [("BigQueryConverter.to_recap", "recap/converters/bigquery.py")],
     ["BigQueryConverter.to_recap"],
     "property-based testing: generated field trees against an independent reference table",
     "Random field trees to depth 4." + TRUST)

prop("C18", "Hive tables become the types the metastore declares",
     "For every Hive table, its columns (not its partition keys) become the fields of a struct named after the table, in order, with their names and comments; every type (primitives with parameters, arrays, maps, structs, unions, nested to any depth) becomes the documented Recap type, always nullable, with nothing lost on the way. Listing shows exactly the databases and the tables of a database.",
     ["inputs"], "all Hive tables with nested column types",
     "Tests convert one level of each complex type.",
     ["recap/converters/hive_metastore.py"], [("HiveMetastoreConverter.to_recap", "recap/converters/hive_metastore.py")],
     ["HiveMetastoreConverter.to_recap"],
     "property-based testing: generated Hive type strings (parsed by the real metastore client library) against a reference translation",
     "Random tables, types nested to depth 4." + TRUST)

prop("C19", "A database client reads exactly the catalog objects asked for",
     "Against any catalog contents, listing returns exactly the catalogs, schemas and tables of the level asked for, and reading a table's schema uses the columns of exactly that catalog, schema and table, even if the same names exist in other schemas or catalogs and whatever characters names contain. Names are passed to the database as values and cannot change the query.",
     ["inputs", "configurations"], "all catalogs with clashing and odd names, for PostgreSQL, MySQL, Snowflake, SQLite and BigQuery clients",
     "Integration tests need a live server and use one table; clashes across schemas are not sampled.",
     ["recap/clients/dbapi.py", "recap/clients/postgresql.py", "recap/clients/mysql.py", "recap/clients/snowflake.py", "recap/clients/sqlite.py"],
     [("ls/schema queries", "recap/clients/dbapi.py")],
     ["*Client.ls", "*Client.schema"],
     "property-based testing: the clients' real SQL executed on a generated information schema, against a model of the catalog",
     "The SQL runs on an in-memory SQLite database that holds a generated information schema; drivers are stand-ins." + TRUST)

prop("C20", "Reading is repeatable and reads do not influence each other",
     "Reading any table, file or subject again gives the same type as the first time, no matter what was read before, in which order, with how many clients, whether earlier reads failed, or which other reads go on at the same time in other threads with clients of their own, and changing a returned type does not change later answers; if what is read was changed in between, the answer is that of what is there now.",
     ["histories", "schedules"], "all sequences of reads through shared and separate clients, all interleavings of reads in several threads",
     "Tests read once per fixture; state shared between reads never shows.",
     ["recap/clients", "recap/converters"], [("converter instances and registries", "recap/converters")],
     ["*Client.schema", "*Converter.to_recap"],
     "model-based stateful testing: random histories of reads, and random schedules of reads in threads, compared with isolated first reads",
     "Histories of up to 8 reads over all converters, two or three reads in threads that take turns after any number of lines, with fresh-process-equivalent isolated reads as reference." + TRUST)

prop("C21", "The filesystem client lists and reads exactly what is there",
     "For any directory tree, listing a path returns exactly the names in that directory, and reading a file yields the type of its UTF-8 contents according to its extension (.avsc, .json, .proto and the variants avro, jsonschema, jsons, protobuf, protos, proto2, proto3, in any letter case) for both local and memory filesystems, with any legal file name and through symbolic links; other files are refused.",
     ["inputs", "configurations"], "all directory trees and file names",
     "Tests use three fixed files.",
     ["recap/clients/fs.py"], [("FilesystemClient.ls", "recap/clients/fs.py"), ("FilesystemClient.schema", "recap/clients/fs.py")],
     ["FilesystemClient.ls", "FilesystemClient.schema"],
     "property-based testing: generated directory trees against a model",
     "Random trees on disk (scratch directory) and in fsspec's memory filesystem." + TRUST)

prop("C22", "The schema registry client reads the latest schema of the subject asked for",
     "For any registry contents, listing returns exactly its subjects and reading a subject (its value schema, if the name does not end in -key or -value) yields the type of that subject's latest version, by the format it is registered as. Unknown subjects and schema types are refused.",
     ["inputs", "histories"], "all registry contents and subject names",
     "Tests mock a single subject.",
     ["recap/clients/confluent_registry.py"], [("ConfluentRegistryClient.schema", "recap/clients/confluent_registry.py")],
     ["ConfluentRegistryClient.ls", "ConfluentRegistryClient.schema"],
     "property-based testing with a model registry behind the client library's interface",
     "A stand-in registry implements the client library's methods; contents are generated." + TRUST)

prop("C23", "A URL leads to exactly the system and object it names",
     "For every URL of a supported scheme, the client connects with exactly the host, port, user, password, database and options written in the URL (credentials percent-decoded, paths taken literally, an absent port meaning the driver's default), and listing or reading addresses exactly the catalog, schema and object in its path. Options in the query never replace host, credentials or path that the URL contains. Unsupported schemes, and database paths that name nothing to list or read (too short, or deeper than tables), are refused.",
     ["inputs"], "all URLs of every supported scheme",
     "Tests parse one or two URLs per client.",
     ["recap/clients/__init__.py", "recap/clients/dbapi.py", "recap/clients/postgresql.py", "recap/clients/mysql.py", "recap/clients/snowflake.py", "recap/clients/hive_metastore.py", "recap/clients/bigquery.py", "recap/clients/confluent_registry.py", "recap/clients/fs.py", "recap/clients/sqlite.py"],
     [("parse_url/create_client", "recap/clients/__init__.py"), ("*.parse/create", "recap/clients")],
     ["recap.clients.create_client", "recap.clients.parse_url", "driver connect calls"],
     "property-based testing: URLs composed from known parts; driver stand-ins record what they are given",
     "The oracle is the parts the URL was composed from." + TRUST)

prop("C24", "Configured URLs are listed without their credentials",
     "For every set of configured URLs, listing them shows each one, in order, with scheme, host (including IPv6), port, path (without trailing slashes), query and fragment as configured, but never the user name and password in front of the host. It makes no difference whether they are configured in the environment (RECAP_URLS) or in a file of the secrets directory (RECAP_SECRETS). The same list is given by the library, the command line and the HTTP gateway.",
     ["inputs", "configurations"], "all configured URLs, including odd hosts and credentials",
     "Tests list two fixed URLs.",
     ["recap/settings.py", "recap/commands.py"], [("safe_urls", "recap/settings.py")],
     ["RecapSettings.safe_urls", "recap.commands.ls"],
     "property-based testing: URLs composed from known parts",
     "The oracle is the parts; every secret is a unique token that may not occur in the output." + TRUST)

prop("C25", "Secrets are added only for the configured system and path",
     "A requested URL gets the credentials and options of a configured URL only if it has the same scheme, host and port and lies at or below its path, segment by segment and without going up, and has no option that would lead the driver to another host or port (host, hostaddr, port, proxy_host, region, unix_socket); what was requested (host, path, its own options, and its own credentials where none are configured) is never changed by that. In strict mode, which the HTTP gateway uses, every other URL is refused, otherwise it is passed on exactly as requested, without any configured secret.",
     ["inputs", "configurations"], "all pairs of configured and requested URLs, in particular near misses",
     "Tests try a few pairs.",
     ["recap/settings.py", "recap/clients/__init__.py"], [("unsafe_url", "recap/settings.py")],
     ["RecapSettings.unsafe_url"],
     "property-based testing: near-miss URL pairs against a component-wise model",
     "URL pairs are built from parts and mutated one part at a time." + TRUST)

prop("C26", "The registry returns every schema exactly as stored",
     "For every history of storing and reading, under any non-empty names and any number of versions, each version reads back as the type that was stored, a new version of a name is numbered one more than its highest so far, the latest is the highest, listing returns exactly the stored names, names never collide with one another, and reopening the storage shows the same contents.",
     ["histories", "inputs", "configurations"], "all histories of operations with any names, on local and memory filesystems, with reopening",
     "Tests store a few schemas under plain names in order.",
     ["recap/storage/registry.py"], [("RegistryStorage", "recap/storage/registry.py")],
     ["RegistryStorage.put/get/ls/versions/latest"],
     "model-based stateful testing against a dictionary model",
     "Histories of up to 12 operations with adversarial names and more than 9 versions." + TRUST,
     state=[("versions", "name -> version -> schema", "files below the storage root")])

prop("C27", "The registry's HTTP interface behaves as documented for every request",
     "Every history of requests gets the answers of a simple model: unknown names and versions 404, a version that exists 409, an unsupported media type 415, an undecodable or invalid schema 400, and otherwise the number of the stored version or the schema as stored. A rejected request changes nothing.",
     ["histories", "inputs"], "all request histories over names, versions, media types and bodies, valid and malformed",
     "Tests send a fixed request per status code.",
     ["recap/server/registry.py", "recap/storage/registry.py"], [("registry routes", "recap/server/registry.py")],
     ["HTTP /registry"],
     "model-based stateful testing over the ASGI application",
     "Histories of up to 10 requests including malformed bodies." + TRUST)

prop("C28", "Registry names never reach outside the registry's directory",
     "Whatever name is used in a request or a call, storing, reading and listing touch only files below the storage root (and, for a stored schema, only below that name's own place), and no name reads or overwrites another name's schemas.",
     ["inputs"], "all names: dots, separators, encodings, control and non-ASCII characters",
     "Tests use one name with a slash.",
     ["recap/storage/registry.py", "recap/server/registry.py"], [("name quoting", "recap/storage/registry.py")],
     ["files on disk", "RegistryStorage", "HTTP /registry"],
     "property-based testing with adversarial names against a recording filesystem",
     "A recording filesystem notes every path it is given; nothing outside a scratch directory can be reached." + TRUST)

prop("C29", "A stored version never changes, however requests interleave",
     "Once a version of a schema has been acknowledged, no later or concurrent request changes what it reads back as; if several concurrent requests store the same version, exactly one succeeds and its schema is what is stored.",
     ["schedules", "histories"], "all interleavings of concurrent store requests at the points where the server waits",
     "Tests send requests one after another.",
     ["recap/server/registry.py", "recap/storage/registry.py"], [("PUT of a version", "recap/server/registry.py")],
     ["HTTP /registry"],
     "schedule-generating property-based testing of concurrent ASGI requests",
     "Concurrent requests are driven at the ASGI level; the schedule decides when each body chunk arrives." + TRUST)

prop("C30", "Command line, HTTP gateway and library give the same answers",
     "For every URL and output format, the schema printed by the command line, served by the HTTP gateway and returned by the library describe the same type, in the requested format (Recap's own without one), complete and machine-readable (no wrapping, truncation or interpretation of its text), and listings agree as well. Unknown formats and unsupported URLs fail everywhere.",
     ["inputs", "configurations"], "all schemas, formats and entry points",
     "Tests run each entry point on one URL with one schema.",
     ["recap/commands.py", "recap/cli.py", "recap/server/gateway.py"], [("schema/ls commands", "recap/commands.py")],
     ["recap CLI", "HTTP /gateway", "recap.commands"],
     "property-based differential testing of three entry points over generated schemas",
     "Schemas are served from a scratch directory through file URLs." + TRUST)

prop("C31", "A failed store never damages or adds a version",
     "If storing a schema fails at any point (the schema cannot be serialised, the disk fails or the process dies while a file is listed, opened, written, closed or renamed), every version that was acknowledged before reads back unchanged, and nothing that cannot be read back as what was stored becomes visible as a version. Later stores work as ever.",
     ["fault_sequences", "crash_points", "histories"], "all histories with a fault at any file operation",
     "Tests never inject faults.",
     ["recap/storage/registry.py"], [("put", "recap/storage/registry.py")],
     ["RegistryStorage"],
     "fault-injecting property-based testing on a faulty in-memory filesystem and on a local directory",
     "For every generated history, every filesystem operation of the store is made to fail in turn (error, partial write, crash), and every call of the operating system when storing in a local directory; the histories are random.", level="fault_enumeration")

prop("C32", "Hive statistics describe the column they are attached to",
     "When statistics are requested, each column gets exactly the statistics recorded for that column name and kind (limits that are not recorded may be left out or null, those of decimals are exact numbers or numerals), columns without statistics get none, and the types, order and all other attributes are the same as without statistics.",
     ["inputs"], "all tables with statistics for any subset of columns in any order",
     "Tests cover one column per statistics kind.",
     ["recap/converters/hive_metastore.py", "recap/clients/hive_metastore.py"], [("statistics handling", "recap/converters/hive_metastore.py")],
     ["HiveMetastoreConverter.to_recap", "HiveMetastoreClient.schema"],
     "property-based testing against a model of per-column statistics",
     "Random tables with random subsets of statistics in shuffled order." + TRUST)

prop("C33", "The server keeps its registry where it is configured, across restarts",
     "For every configuration, the server reads and writes schemas only at the location configured: RECAP_REGISTRY_STORAGE_URL with RECAP_REGISTRY_STORAGE_URL_ARGS (as JSON or as nested variables), in the environment, a .env file or as files in the RECAP_SECRETS directory with the environment coming first, and by default the directory schemas in RECAP_HOME (absolute or relative) or ~/.recap. Special characters in a directory's path, percent-encoded in a URL or not, stand for themselves, and the server listens exactly on the host and port asked for (by default on 127.0.0.1, port 8000). Whatever was acknowledged is served unchanged by every later server of the same location, also if the server was killed right after its answer, and by no server of another location.",
     ["configurations", "histories", "crash_points"], "all configurations of the location and histories of servers started with them",
     "Tests replace the location in the running process, with plain paths, and never restart a server.",
     ["recap/settings.py", "recap/server/registry.py", "recap/cli.py", "recap/storage/registry.py"], [("get_storage", "recap/server/registry.py"), ("RecapSettings", "recap/settings.py"), ("serve", "recap/cli.py")],
     ["recap serve", "RECAP_HOME", "RECAP_SECRETS", "RECAP_REGISTRY_STORAGE_URL", "/registry/*"],
     "model-based testing of histories of server processes with generated configurations",
     "Random histories of up to 3 fresh server processes (in-process application or recap serve on a loopback address, ended or killed) over up to 3 configurations, and every kind of configuration with every directory name in turn." + TRUST)

prop("C34", "Whatever Recap reads can be kept as a Recap document and in the registry",
     "Every type Recap reads from any supported format or system (Avro, JSON Schema, Protobuf, PostgreSQL, MySQL, Snowflake, SQLite, Hive with or without statistics, BigQuery) has a valid Recap document, whatever names, aliases, docs, defaults and nesting come from there, and can be stored in the registry. Read back from either, it is the same type, and every reference in it stands for the same definition as before. Keeping a type doesn't change it.",
     ["inputs"], "all schemas and tables of every supported format and system, and all four writer modes",
     "Tests read schemas and write documents of hand-made types, but never put a type that was read through a document; names, aliases and nesting that sources produce are unbounded.",
     ["recap/types.py", "recap/storage/registry.py", "recap/converters"], [("to_dict", "recap/types.py"), ("from_dict", "recap/types.py"), ("RegistryStorage.put", "recap/storage/registry.py"), ("urn_to_alias", "recap/converters/json_schema.py")],
     ["recap.types.to_dict", "recap.types.from_dict", "RegistryStorage.put", "RegistryStorage.get"],
     "property-based testing: round trip of types read from generated schemas and catalogs",
     "Random schemas of three formats and tables of six systems, each kept in four document modes and a registry, with references followed on both sides." + TRUST)

prop("C35", "A part of Recap needs only its own optional packages",
     "With only those optional packages installed that an operation is for, it gives the same answer as with all of them, alone or after any other operations: types and the Avro and database converters need none; the JSON Schema, Protobuf, Hive and BigQuery converters need those of their format or system; clients, commands, command line, server and registry need the application's, those of the system they talk to, and those of the formats they read or write. An operation whose packages are missing fails, and changes no other answer.",
     ["configurations", "histories"], "all sets of installed optional packages and histories of operations",
     "Tests run with everything installed in one process, where a needless import goes unnoticed.",
     ["recap/commands.py", "recap/clients", "recap/converters", "recap/server", "pyproject.toml"], [("create_client", "recap/clients/__init__.py"), ("schema", "recap/commands.py"), ("FilesystemClient.schema", "recap/clients/fs.py"), ("ConfluentRegistryClient.schema", "recap/clients/confluent_registry.py")],
     ["recap.commands", "recap.cli", "recap.clients", "recap.converters", "recap.server.app"],
     "differential property-based testing of operation sequences with generated sets of importable packages",
     "Every operation (about 200) with exactly its packages, all operations with everything but one group, and random sequences of up to 8 operations with random groups, each in processes of their own, against the same process with everything." + TRUST)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p["rec"]) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["rec"]["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            checks.append(dict(
                property=pid,
                quick_cmd=f"python3 run.py {pid}",
                thorough_cmd=f"VERIF_TIER=thorough python3 run.py {pid}",
                evidence_file=f"evidence/{pid}.json",
                technique=p["technique"],
                level=p["level"],
                level_note=p["note"],
            ))
        else:
            na.append(dict(property=pid, reason="the check is not built yet"))
    man = dict(
        version=1,
        setup_cmd="python3 tools/setup_check.py",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo are needed: every check observes public behaviour. Repairs of defects are the fix: commits in /repo, listed in known_findings.json.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
