"""Runs operations in a process that has only some of the optional packages.

    python -m vlib.parts < {"groups": [...], "ops": [...]}

Every other installed package is made unimportable before the code under test is
imported."""
from __future__ import annotations

import contextlib
import importlib.metadata as metadata
import json
import os
import re
import subprocess
import sys
import tempfile
import tomllib

from . import fresh
from .boot import REPO

# Drivers that are no extra of their own (the user installs them).
DRIVERS = {
    "postgresql": ["psycopg2-binary"],
    "mysql": ["mysql-connector-python"],
    "snowflake": ["snowflake-connector-python"],
}
EXTRAS = ("kafka", "proto", "hive", "bigquery", "json", "app")
GROUPS = (*EXTRAS, *DRIVERS)


def _plain(name):
    return re.sub(r"[-_.]+", "", name).lower()


def _requirement(text):
    m = re.match(r"\s*([A-Za-z0-9._-]+)\s*(?:\[([^]]*)\])?", text)
    return _plain(m[1]), {_plain(x) for x in (m[2] or "").split(",") if x.strip()}


def requirements(group):
    if group in DRIVERS:
        return DRIVERS[group]
    with open(os.path.join(REPO, "pyproject.toml"), "rb") as fh:
        project = tomllib.load(fh)["project"]
    return project.get("dependencies", []) + project["optional-dependencies"].get(group, [])


def packages(groups):
    """The installed distributions the groups bring, and what these require."""
    dists = {_plain(d.metadata["Name"]): d for d in metadata.distributions()}
    todo, seen = [_requirement(r) for g in groups for r in requirements(g)], set()
    while todo:
        name, extras = todo.pop()
        if name not in dists or (name, frozenset(extras)) in seen:
            continue
        seen.add((name, frozenset(extras)))
        for r in dists[name].requires or ():
            text, _, marker = r.partition(";")
            m = re.search(r"extra\s*==\s*['\"]([^'\"]+)", marker)
            if m is None or _plain(m[1]) in extras:
                todo.append(_requirement(text))
    return {n for n, _ in seen}


def hidden(groups):
    """Names of the modules that are not there."""
    have = packages(groups)
    owners = metadata.packages_distributions()
    out = {top for top, ds in owners.items() if not any(_plain(d) in have for d in ds)}
    if "bigquery" not in groups:
        out.add("google.cloud")
    # nothing of these belongs to the code under test
    return out - {"_distutils_hack", "pip", "setuptools", "pkg_resources"}


class Hidden:
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        parts = name.split(".")
        if any(".".join(parts[:i]) in self.names for i in range(1, len(parts) + 1)):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


DIR = os.environ.get("VERIF_PARTS_DIR")


def run(groups, ops):
    """Answers of the operations, with the packages of these groups only."""
    with tempfile.TemporaryDirectory() as d:
        urls = [u.format(dir=d) for u in CONFIGURED]
        env = {"RECAP_URLS": json.dumps(urls), "RECAP_REGISTRY_STORAGE_URL": f"file://{d}/registry", "RECAP_HOME": d, "VERIF_PARTS_DIR": d}
        p = subprocess.run([sys.executable, "-B", "-m", "vlib.parts"], input=json.dumps({"groups": groups, "ops": ops}),
                           capture_output=True, text=True, env=fresh.environment(env), cwd=fresh.HERE, timeout=100)
    for line in p.stdout.splitlines():
        if line.startswith("ANSWER "):
            return json.loads(line[7:].replace(d, "DIR")), None
    return None, (p.stdout + p.stderr)[-3000:]


# ----------------------------------------------------------------- operations

def op_types(doc):
    from recap.types import clean_dict, from_dict, to_dict

    t = from_dict(doc)
    return [to_dict(t, clean=False), clean_dict(to_dict(t))]


def op_avro(text):
    from recap.converters.avro import AvroConverter
    from recap.types import to_dict

    t = AvroConverter().to_recap(text)
    return [to_dict(t), AvroConverter().from_recap(t)]


def op_json(text):
    from recap.converters.json_schema import JSONSchemaConverter
    from recap.types import to_dict

    t = JSONSchemaConverter().to_recap(text)
    return [to_dict(t), JSONSchemaConverter().from_recap(t)]


def op_proto(text):
    from recap.converters.protobuf import ProtobufConverter
    from recap.types import to_dict

    t = ProtobufConverter().to_recap(text)
    return [to_dict(t), str(ProtobufConverter().from_recap(t))]


def op_rows(dialect, column):
    import importlib

    from recap.types import to_dict

    name = {"postgresql": "PostgresqlConverter", "mysql": "MysqlConverter", "snowflake": "SnowflakeConverter", "sqlite": "SQLiteConverter"}[dialect]
    converter = getattr(importlib.import_module(f"recap.converters.{dialect}"), name)()
    if dialect == "sqlite":
        row = {"name": column, "type": "VARCHAR(10)", "notnull": 1, "dflt_value": None, "pk": 0}
        row |= {"COLUMN_NAME": column, "DATA_TYPE": "VARCHAR(10)", "IS_NULLABLE": "NO", "COLUMN_DEFAULT": None, "CHARACTER_MAXIMUM_LENGTH": 10, "NUMERIC_PRECISION": None, "CHARACTER_OCTET_LENGTH": None, "NUMERIC_SCALE": None, "PRIMARY_KEY": False, "TYPE": "VARCHAR(10)"}
    else:
        row = {"COLUMN_NAME": column, "DATA_TYPE": {"postgresql": "integer", "mysql": "int", "snowflake": "NUMBER"}[dialect], "IS_NULLABLE": "NO",
               "COLUMN_DEFAULT": None, "CHARACTER_MAXIMUM_LENGTH": None, "CHARACTER_OCTET_LENGTH": None, "NUMERIC_PRECISION": 32, "NUMERIC_SCALE": 0,
               "DATETIME_PRECISION": None, "UDT_NAME": "int4", "COLUMN_TYPE": "int", "ORDINAL_POSITION": 1}
        if dialect == "postgresql":
            row = {k.lower(): v for k, v in row.items()} | row | {"ATTNDIMS": 0, "attndims": 0}
    return to_dict(converter.to_recap([row]))


def op_hive(column):
    from pymetastore.htypes import HPrimitiveType, PrimitiveCategory
    from pymetastore.metastore import HColumn, HTable

    from recap.converters.hive_metastore import HiveMetastoreConverter
    from recap.types import to_dict

    class Table:
        name, columns = "t", [HColumn(column, HPrimitiveType(PrimitiveCategory.INT), "c")]

    assert HTable
    return to_dict(HiveMetastoreConverter().to_recap(Table))


def op_bigquery(column):
    from google.cloud import bigquery

    from recap.converters.bigquery import BigQueryConverter
    from recap.types import to_dict

    return to_dict(BigQueryConverter().to_recap([bigquery.SchemaField(column, "INT64", "REQUIRED")]))


def _connection(dialect):
    from . import catalog

    t = {"catalog": "def" if dialect == "mysql" else "c", "schema": "s", "name": "t", "columns": [
        {"name": "x", "k": "x", "row": {"DATA_TYPE": {"postgresql": "integer", "mysql": "int", "snowflake": "NUMBER"}[dialect]}, "nullable": True, "default": None}]}
    return catalog.build({"dialect": dialect, "catalogs": [t["catalog"]], "schemas": [[t["catalog"], "s"]], "tables": [t], "seed": 1})


class _BigQuery:
    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def list_datasets(self, *_, **__):
        from types import SimpleNamespace

        return iter([SimpleNamespace(dataset_id="s", project="c", reference=self.dataset("s", "c"))])

    def dataset(self, dataset_id, project=None):
        from google.cloud import bigquery

        return bigquery.DatasetReference(project or "c", dataset_id)

    def list_tables(self, *_, **__):
        from google.cloud import bigquery

        return iter([bigquery.table.TableListItem({"tableReference": {"projectId": "c", "datasetId": "s", "tableId": "t"}})])

    def get_table(self, *_, **__):
        from google.cloud import bigquery

        ref = bigquery.TableReference(bigquery.DatasetReference("c", "s"), "t")
        return bigquery.Table(ref, schema=[bigquery.SchemaField("x", "INT64", "REQUIRED")])


def _service(system):
    """Puts a stand-in in place of the service."""
    if system == "postgresql":
        import psycopg2

        psycopg2.connect = lambda *_, **__: _connection(system)
    elif system == "mysql":
        import mysql.connector

        mysql.connector.connect = lambda *_, **__: _connection(system)
    elif system == "snowflake":
        import snowflake.connector

        snowflake.connector.connect = lambda *_, **__: _connection(system)
    elif system == "hive":
        import pymetastore.metastore as pm

        from . import hive

        table = {"database": "s", "name": "t", "columns": [{"name": "x", "type": {"k": "int"}, "comment": None}], "partitions": []}
        pm.HMS.create = staticmethod(lambda *_, **__: contextlib.nullcontext(hive.hms([table])))
    elif system == "bigquery":
        from google.cloud import bigquery

        bigquery.Client = lambda *_, **__: _BigQuery()


def _subjects(system, text):
    import confluent_kafka.schema_registry as cks

    from .stubs import FakeRegistry

    reg = FakeRegistry()
    reg.register("s-value", {"csr-avro": "AVRO", "csr-json": "JSON", "csr-proto": "PROTOBUF"}[system], text)
    cks.SchemaRegistryClient = lambda *_, **__: reg
    if "recap.clients.confluent_registry" in sys.modules:
        sys.modules["recap.clients.confluent_registry"].SchemaRegistryClient = cks.SchemaRegistryClient


URLS = {
    "sqlite": ("sqlite:///{dir}/d.db", "/t"), "postgresql": ("postgresql://u@h/c/s", "/t"), "mysql": ("mysql://u@h/s", "/t"),
    "snowflake": ("snowflake://u@h/c/s", "/t"), "hive": ("thrift+hms://h/s", "/t"), "bigquery": ("bigquery://c/s", "/t"),
    "csr-avro": ("http+csr://h", "/s"), "csr-json": ("http+csr://h", "/s"), "csr-proto": ("http+csr://h", "/s"),
    "avsc": ("file://{dir}/avsc", "/f.avsc"), "schema.json": ("file://{dir}/json", "/f.json"), "proto": ("file://{dir}/proto", "/f.proto"),
}
CONFIGURED = ["sqlite:///{dir}/d.db", "postgresql://u@h", "mysql://u@h", "snowflake://u@h", "thrift+hms://h", "bigquery://", "http+csr://h", "file:///"]
# what a URL of the system needs to be listed, and to be read
LISTED = {"sqlite": [], "postgresql": ["postgresql"], "mysql": ["mysql"], "snowflake": ["snowflake"], "hive": ["hive"], "bigquery": ["bigquery"],
          "csr-avro": ["kafka"], "csr-json": ["kafka"], "csr-proto": ["kafka"], "avsc": [], "schema.json": [], "proto": []}
READ = {**LISTED, "csr-json": ["kafka", "json"], "csr-proto": ["kafka", "proto"], "schema.json": ["json"], "proto": ["proto"]}
FORMATS = {"recap": [], "avro": [], "json": ["json"], "protobuf": ["proto"]}
MIME = {"recap": None, "json": "application/schema+json", "avro": "application/avro+json", "protobuf": "application/x-protobuf"}


def _object(system, text):
    """Makes the system have the object."""
    import sqlite3

    if system == "sqlite":
        con = sqlite3.connect(os.path.join(DIR, "d.db"))
        con.execute("CREATE TABLE IF NOT EXISTS t (x INT NOT NULL, y TEXT)")
        con.commit()
        con.close()
    elif system in ("avsc", "schema.json", "proto"):
        ext = system.rpartition(".")[2]
        os.makedirs(os.path.join(DIR, ext), exist_ok=True)
        with open(os.path.join(DIR, ext, "f." + ext), "w", encoding="utf-8") as fh:
            fh.write(text)
    elif system.startswith("csr-"):
        _subjects(system, text)
    else:
        _service(system)


def op_url(entry, method, system, fmt, text):
    """The listing, or the schema, of an object of the system."""
    from urllib.parse import quote

    _object(system, text)
    base, rest = URLS[system]
    url = base.format(dir=DIR) + (rest if method == "schema" else "")
    if entry == "library":
        from recap import commands

        return commands.ls(url, strict=False) if method == "ls" else commands.schema(url, commands.SchemaFormat(fmt), strict=False)
    if entry == "client":
        from recap.clients import create_client, parse_url
        from recap.types import to_dict

        connection, args = parse_url(method, url, strict=False)
        with create_client(connection) as client:
            return client.ls(*args) if method == "ls" else to_dict(client.schema(*args))
    if entry == "cli":
        r = fresh._cli(["ls", url] if method == "ls" else ["schema", url, "-of", fmt])
        if r["code"]:
            raise RuntimeError(f"exit code {r['code']}: {r['out']}")
        return r["out"]
    r = fresh._gateway(f"/gateway/{method}/" + quote(url, safe="/:@+"), [("content-type", MIME[fmt])] if MIME[fmt] else [])
    if r["status"] != 200:
        raise RuntimeError(f"status {r['status']}: {r['body']}")
    return r["body"]


def op_root(entry):
    from recap import commands

    return commands.ls() if entry == "library" else fresh._cli(["ls"]) if entry == "cli" else fresh._gateway("/gateway/ls")


def op_storage(doc):
    from recap.storage.registry import RegistryStorage
    from recap.types import from_dict, to_dict

    s = RegistryStorage("memory://verif-parts")
    v = s.put("n", from_dict(doc))
    t, n = s.get("n")
    return [v == n, to_dict(t), s.ls(), s.versions("n") == list(range(1, v + 1))]


def op_registry(doc):
    """A type is posted to the server's registry and read back."""
    from recap.server.app import app

    from .asgi import request

    headers = [("content-type", "application/x-recap+json")]
    post = request(app, "POST", "/registry/n", headers, json.dumps(doc).encode())
    got = request(app, "GET", "/registry/n", headers)
    if got.status != 200:
        raise RuntimeError(f"status {got.status}: {got.body!r} {got.error!r}")
    return [post.status, got.body.decode()]


def needs(op):
    """The groups of optional packages an operation needs."""
    kind, *args = op
    if kind in ("json", "proto", "hive", "bigquery"):
        return [kind]
    if kind in ("storage", "root", "registry"):
        return ["app"]
    if kind == "url":
        entry, method, system, fmt, _ = args
        return ["app", *(LISTED[system] if method == "ls" else READ[system] + (FORMATS[fmt] if entry != "client" else []))]
    return []


def main():
    from .boot import boot

    boot()
    payload = json.load(sys.stdin)
    # what the stand-ins need
    from . import catalog  # noqa: F401

    names = hidden(payload["groups"])
    for m in list(sys.modules):
        parts = m.split(".")
        if parts[0] == "recap" or any(".".join(parts[:i]) in names for i in range(1, len(parts) + 1)):
            if parts[0] not in ("hypothesis", "sortedcontainers", "attr", "attrs"):
                del sys.modules[m]
    sys.meta_path.insert(0, Hidden(names))
    sys.path_importer_cache.clear()
    out = []
    for kind, *args in payload["ops"]:
        try:
            out.append({"answer": globals()["op_" + kind](*args)})
        except Exception as e:
            out.append({"error": f"{type(e).__name__}: {e}"})
    print("\nANSWER " + json.dumps(out, default=str))


if __name__ == "__main__":
    main()
