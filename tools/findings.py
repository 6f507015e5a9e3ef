"""Source of known_findings.json:  python3 tools/findings.py

The fixed entries are the fix: commits in /repo; the property each belongs to is
found by its subject.
"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "bb24c87"

KNOWN = [
    dict(id="avro-fixed", property="C06", input='{"type": "fixed", "name": "F", "size": 16}',
         what="a fixed type is read as bytes of variable length (recap/converters/avro.py; tests/unit/converters/test_avro.py::test_to_recap_fixed expects it)"),
    dict(id="json-oneof", property="C09", input="from_recap(UnionType([int32, float64])) and the value 1",
         what="a union whose alternatives overlap in JSON (int and float, two structs) is written as oneOf, which rejects the values both alternatives have, e.g. [int32, float64] rejects 1 (recap/converters/json_schema.py; tests/unit/converters/test_json_schema.py expects oneOf)"),
    dict(id="proto-nested-name", property="C10", input="message A { Outer.Inner x = 1; } message Outer { message Inner { int32 v = 1; } }",
         what="a nested message cannot be referred to by its qualified name (Outer.Inner), because nested messages are known by their own name only (recap/converters/protobuf.py; tests/unit/converters/test_protobuf.py expects the alias _root.Inner)"),
    dict(id="proto-same-name", property="C10", input="message A { message I { int32 v = 1; } I x = 1; } message B { message I { string w = 1; } I x = 1; }",
         what="two nested messages of the same name in different messages are rejected, because nested messages are known by their own name only (recap/converters/protobuf.py; tests/unit/converters/test_protobuf.py expects the alias _root.Inner)"),
    dict(id="json-optional-union", property="C34", input='{"type": "object", "properties": {"a": {"$id": "https://example.com/u", "type": ["string", "integer"]}, "b": {"$ref": "https://example.com/u"}}, "required": ["b"]}',
         what="a schema with an $id whose type is a list of types, and whose place is a property that may be absent, is kept as a nullable union with the id's alias, so that b, which refers to it, can be null after its document was read again (recap/converters/json_schema.py, UnionType.make_nullable; in documents, an optional union is a union with null, whatever has the alias)"),
]

# subject -> property, first match
RULES = [
    ("in several threads", "C20"), ("more parts than an object", "C23"), ("Hive's statistics of decimals", "C34"),
    ("registry of a home directory", "C33"), ("RECAP_HOME may be", "C33"), ("renamed, not copied", "C31"),
    ("make_nullable", "C04"), ("proxies inside registered", "C03"), ("resolving a proxy", "C03"), ("to_dict works for aliases", "C01"),
    ("unions nested in a list", "C02"), ("clean_dict", "C01"), ("optional syntactic sugar", "C02"),
    ("the filesystem", "C21"), ("fsspec filesystem can be listed", "C21"), ("the registry can be stored", "C26"),
    ("neither a type nor an alias", "C27"), ("undecodable type", "C27"), ("concurrent requests", "C29"),
    ("could not be written completely", "C31"), ("can't be serialized", "C31"), ("consist of dots", "C28"),
    ("protobuf schemas are printed", "C30"), ("empty list of children", "C30"), ("can be used with commands", "C23"),
    ("merged with settings", "C25"), ("credentials of a URL are kept", "C25"), ("Snowflake's region", "C25"), ("requested options", "C25"), ("file URLs in the settings", "C24"), ("safe URLs", "C24"),
    ("percent-encoded credentials", "C23"), ("query parameters", "C23"), ("SQLite URLs", "C23"), ("absolute paths", "C23"),
    ("SQLite tables may have any name", "C16"), ("SQLite", "C16"), ("relative paths", "C23"), ("BigQuery URLs", "C23"), ("BigQuery", "C17"),
    ("Snowflake client", "C23"), ("MySQL URLs", "C23"), ("metastore URLs", "C23"), ("Confluent registry URL", "C23"),
    ("Hive unions", "C18"), ("unsigned MySQL", "C14"), ("PostgreSQL tables with arrays", "C20"), ("PostgreSQL", "C13"),
    ("Protobuf writer", "C11"), ("passed to the Protobuf writer", "C11"), ("Protobuf fields that refer", "C11"), ("Protobuf fields after a oneof", "C11"),
    ("Protobuf", "C10"), ("JSON schema writer", "C09"), ("written JSON schema", "C09"), ("null is kept in optional types", "C09"), ("JSON schema", "C08"),
    ("many bits are written to Avro", "C07"), ("Avro writer", "C07"), ("Avro", "C06"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", f"{BASE}.."], capture_output=True, text=True, check=True).stdout
    fixed = []
    for line in log.splitlines():
        commit, _, subject = line.partition(" ")
        what = subject.removeprefix("fix: ")
        assert subject.startswith("fix: "), line
        pid = next(p for k, p in RULES if k in what)
        fixed.append(f"fixed: property={pid} {commit} before it, it was not so that {what}")
    with open(os.path.join(HERE, "known_findings.json"), "w") as fh:
        json.dump(dict(known=KNOWN, fixed=fixed), fh, indent=1)
        fh.write("\n")


main()
