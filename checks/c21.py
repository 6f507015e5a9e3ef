"""C21: The filesystem client lists and reads exactly what is there."""
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import docs as D, fresh, model as M
from vlib.harness import Facet, Property, call
from vlib.stubs import memory

import recap.types as T
from recap.clients.fs import FilesystemClient

EXTENSIONS = {
    "avro": ["avsc", "avsc", "avro", "avpr", "avdl"],
    "json": ["json", "json", "jsonschema", "jsons"],
    "proto": ["proto", "proto", "protobuf", "proto3", "protos", "proto2"],
}
UNSUPPORTED = ["txt", "yaml", "json5", "xjson", "avs", "protox", "parquet", "csv", "jso", "gz"]

plain = st.sampled_from(["a", "b", "schema", "data.v1", "x.json", "A", "read me", ".hidden", "ünï", "%20", "a%2Fb", "a*b", "[x]", "a?b#c", "-", "~", "a:b", "file", "a\\b", "*", "日本"])
stems = st.one_of(plain, plain, st.text(st.characters(blacklist_characters="/\0", blacklist_categories=("Cs",)), min_size=1, max_size=5).filter(lambda s: s.strip(". ")))


@st.composite
def trees(draw):
    dirs = [""]
    for _ in range(draw(st.integers(0, 3))):
        d = draw(st.sampled_from(dirs)) + "/" + draw(stems)
        if d not in dirs:
            dirs.append(d)
    files, taken = [], set(dirs)
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["doc", "doc", "doc", "other"]))
        if kind == "doc":
            f = draw(D.documents())
            ext = draw(st.sampled_from(EXTENSIONS[f["format"]]))
        else:
            f = {"text": draw(st.sampled_from(["", "{}", '{"type": "object", "properties": {}}'])), "format": None}
            ext = draw(st.sampled_from(UNSUPPORTED + [None]))
        stem = draw(stems)
        if ext is None:
            # no extension at all
            name = stem.replace(".", "_")
        else:
            name = stem + "." + draw(st.sampled_from([ext, ext, ext.upper(), ext.title()]))
        path = draw(st.sampled_from(dirs)) + "/" + name
        if path not in taken:
            taken.add(path)
            files.append({"path": path, "doc": f})
    case = {"dirs": dirs[1:], "files": files, "links": [], "then": []}
    # symbolic links, where there are any
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        to = draw(st.sampled_from(["dir", "nowhere", *range(len(files))]))
        name = draw(stems)
        if isinstance(to, int):
            fmt = files[to]["doc"]["format"]
            name += "." + draw(st.sampled_from(EXTENSIONS[fmt] if fmt else UNSUPPORTED))
        path = draw(st.sampled_from(dirs)) + "/" + name
        if path not in taken:
            taken.add(path)
            case["links"].append({"path": path, "to": draw(st.sampled_from(dirs)) if to == "dir" else to})
    # what happens to the files afterwards
    for _ in range(draw(st.integers(0, 2)) if files else 0):
        i = draw(st.integers(0, len(files) - 1))
        fmt = files[i]["doc"]["format"]
        if fmt is None or draw(st.integers(0, 2)) == 0:
            case["then"].append({"i": i, "doc": None})
        else:
            case["then"].append({"i": i, "doc": draw(D.documents((fmt,)))})
    return case


def lists(case):
    """directory -> names in it"""
    out = {d: [] for d in ["", *case["dirs"]]}
    for p in case["dirs"] + [f["path"] for f in case["files"] + case["links"]]:
        parent, _, name = p.rpartition("/")
        out[parent].append(name)
    return out


def verify(case, ctx, client, root):
    ctx.interesting(len(case["files"]) > 1 or case["dirs"])
    for d, names in lists(case).items():
        for tail in ("", "/"):
            ctx.equal(sorted(client.ls(root + d + tail)), sorted(names), f"listing of {d + tail!r}")
    for f in case["files"]:
        read(ctx, client, root, f)
    value, err = call(client.schema, root + "/there is no.json")
    ctx.require(err is not None, lambda: f"a file that does not exist was read as {value!r}")


def read(ctx, client, root, f):
    doc = f["doc"]
    ctx.label(f"format:{doc['format']}")
    # the trailing slash is how URLs arrive here
    for tail in ("", "/"):
        value, err = call(client.schema, root + f["path"] + tail)
        if doc["format"] is None:
            ctx.require(err is not None, lambda: f"{f['path']!r} is not supported, but was read as {M.show(M.observe(value))}")
        else:
            ctx.require(err is None, lambda: f"reading {f['path']!r} fails: {err!r}")
            D.check(ctx, doc, value, f["path"])


def in_memory(case, ctx):
    with memory() as (fs, root):
        for d in case["dirs"]:
            fs.makedirs(root + d, exist_ok=True)
        for f in case["files"]:
            fs.pipe_file(root + f["path"], D.text(f["doc"]).encode())
        case = dict(case, links=[])
        client = FilesystemClient("memory")
        verify(case, ctx, client, root)
        if case["then"]:
            case = changed(case, lambda p: fs.rm_file(root + p), lambda p, b: fs.pipe_file(root + p, b))
            for c in (client, FilesystemClient("memory")):
                verify(case, ctx, c, root)


def changed(case, remove, write):
    """The tree after some files were removed or written again."""
    docs = {f["path"]: f["doc"] for f in case["files"]}
    for c in case["then"]:
        path = case["files"][c["i"]]["path"]
        if c["doc"] is not None:
            write(path, D.text(c["doc"]).encode())
            docs[path] = c["doc"]
        elif path in docs:
            remove(path)
            del docs[path]
    return dict(case, files=[{"path": p, "doc": d} for p, d in docs.items()], links=[])


def on_disk(case, ctx):
    root = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
    try:
        for d in case["dirs"]:
            os.makedirs(root + d, exist_ok=True)
        for f in case["files"]:
            with open(root + f["path"], "wb") as fh:
                fh.write(D.text(f["doc"]).encode())
        for k in case["links"]:
            to = k["to"]
            os.symlink(root + ("/no/such file" if to == "nowhere" else to if isinstance(to, str) else case["files"][to]["path"]), root + k["path"])
            ctx.label("link:" + ("nowhere" if to == "nowhere" else "directory" if isinstance(to, str) else "file"))
        client = FilesystemClient("file")
        verify(case, ctx, client, root)
        for k in case["links"]:
            if isinstance(k["to"], int):
                read(ctx, client, root, dict(case["files"][k["to"]], path=k["path"]))
            elif k["to"] != "nowhere":
                ctx.equal(sorted(client.ls(root + k["path"])), sorted(lists(case)[k["to"]]), f"listing of {k['path']!r}, a link to {k['to']!r}")
        if case["then"]:
            def write(path, data):
                with open(root + path, "wb") as fh:
                    fh.write(data)

            for k in case["links"]:
                os.unlink(root + k["path"])
            case = changed(case, lambda p: os.unlink(root + p), write)
            for c in (client, FilesystemClient("file")):
                verify(case, ctx, c, root)
    finally:
        shutil.rmtree(root)


def foreign_locale(case, ctx):
    """Schema files are UTF-8 whatever the locale of the machine is."""
    doc, text = case["doc"], D.text(case["doc"])
    ctx.interesting(not text.isascii())
    if text.isascii():
        return
    root = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
    try:
        name = "schema." + EXTENSIONS[doc["format"]][0]
        with open(f"{root}/{name}", "wb") as fh:
            fh.write(text.encode())
        payload = {"read": [["file", f"{root}/{name}"], ["memory", f"/{name}"]], "contents": text.encode().hex()}
        env = {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
        got, err = fresh.run("files", payload, env)
        ctx.require(err is None, lambda: f"no answer: {err}")
        ctx.label("locale:" + got["encoding"])
        for (scheme, _), r in zip(payload["read"], got["files"]):
            what = f"{scheme}: the UTF-8 file {name} where the locale says {got['encoding']}"
            ctx.require("error" not in r, lambda: f"{what}: {r['error']}")
            D.check(ctx, doc, T.from_dict(r["doc"]), what)
    finally:
        shutil.rmtree(root)


@st.composite
def outlandish(draw):
    """Documents with at least one character that is not ASCII."""
    doc = draw(D.documents(("avro", "json")))
    doc["ascii"] = False
    doc["doc"]["doc" if doc["format"] == "avro" else "description"] = draw(st.sampled_from(["é", "größe", "日本語", "\U0001f600", "\xa0\u2028", "\xc3\xa9"]))
    return {"doc": doc}


RULE = "random trees; non-trivial: several files or a directory"
PROPERTY = Property(
    "C21",
    [
        Facet("memory", lambda: trees(), in_memory, quick=300, thorough=5000, rule=RULE),
        Facet("local", lambda: trees(), on_disk, quick=300, thorough=5000, rule=RULE),
        Facet("locale", lambda: outlandish(), foreign_locale, quick=12, thorough=160,
              rule="random files read where the locale is not UTF-8; non-trivial: not ASCII"),
    ],
    assumptions=["files are UTF-8; file names are not made of dots and spaces only"],
)
