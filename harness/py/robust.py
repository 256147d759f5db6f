"""Bad documents and bad files: the generator must refuse them with an error, or accept them,
but never crash, never hang, and never end well without code."""
import concurrent.futures as futures
import copy
import json
import os
import random
import re
import shutil

import gen
import static
import wild
import yamlgen
from driver import NoAnswer

JUNK = [None, True, False, 0, -1, 1.5, 1e300, 12345678901234567890, "", "x", "object", "#", [], {}, [None], [{}], [[]], {"": None}, {"x": 1}, {"$ref": ""},
        {"$ref": 1}, {"$ref": None}, {"type": "object"}, {"type": ["string", "null"]}, {"properties": None}, {"properties": {"x": None}}, {"items": None},
        {"allOf": [None]}, {"oneOf": [{}]}, {"type": "array"}, "a\x00b", "{}", "{", "}", "{x}", "$message.header#/x", "$message.payload#/a/b/c", "$message.header#", "\n", "日本"]
REFS = ["", "#", "#/", "/", "#/components", "#/components/", "#/components/schemas", "#/components/schemas/", "#/components/messages", "#/channels", "#/channels/",
        "#/operations", "#/info", "#/info/title", "#/servers", "components/schemas/x", "foo", "./missing.json", "./missing.json#/components/schemas/x", "./doc.json#/info",
        "https://example.org/x.json#/y", "#//", "#/components//x", "##", "#/a/b/c/d/e/f/g", "./", "../doc.json", "#components/schemas/x", "$", " "]
KEYS = ["$ref", "type", "payload", "headers", "messages", "message", "properties", "items", "allOf", "anyOf", "oneOf", "required", "channel", "reply", "address", "location",
        "correlationId", "parameters", "enum", "const", "format", "additionalProperties", "x-go-type", "x-go-type-import", "x-omitempty", "traits", "bindings", "tags",
        "externalDocs", "pattern", "minimum", "maximum", "not", "contains", "patternProperties", "if", "then", "else", "publish", "subscribe", "action", "operationId",
        "channels", "operations", "components", "servers", "security", "description", "name", "title", "schemaFormat", "examples", "default", "summary", "messageId", "schema"]


def nodes(x, path=()):
    """All the paths of a document."""
    yield path
    if isinstance(x, dict):
        for k, v in x.items():
            yield from nodes(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from nodes(v, path + (k,))


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def put(doc, path, v):
    at(doc, path[:-1])[path[-1]] = v


def remove(doc, path):
    del at(doc, path[:-1])[path[-1]]


def mutate(doc, rng):
    """Changes a document somewhere; returns the kind of change."""
    paths = [p for p in nodes(doc) if p]
    refs = [p for p in paths if p[-1] == "$ref" and isinstance(at(doc, p), str)]
    # The top of the document is as interesting as what is deep in a schema
    depth = rng.choice([1, 2, 3, 4, 5, 6, 99, 99])
    path = rng.choice([p for p in paths if len(p) <= depth] or paths)
    kind = rng.choice(["delete", "delete", "junk", "junk", "graft", "rename", "key", "ref", "ref", "reref", "cycle", "kind", "deep", "wrap", "type"])
    if kind == "delete":
        remove(doc, path)
    elif kind == "junk":
        put(doc, path, copy.deepcopy(rng.choice(JUNK)))
    elif kind == "graft":
        put(doc, path, copy.deepcopy(at(doc, rng.choice(paths))))
    elif kind == "rename":
        parent = at(doc, path[:-1])
        if isinstance(parent, dict):
            v = parent.pop(path[-1])
            parent[rng.choice(KEYS + ["", "x", "é", "a b", "1", "-", "_", "{x}"])] = v
    elif kind == "key":
        x = at(doc, path)
        if isinstance(x, dict):
            x[rng.choice(KEYS)] = copy.deepcopy(rng.choice(JUNK + [at(doc, rng.choice(paths))]))
    elif kind == "ref":
        put(doc, path, {"$ref": "#/" + "/".join(str(k) for k in rng.choice(paths))} if rng.random() < 0.6 else {"$ref": rng.choice(REFS)})
    elif kind == "reref" and refs:
        p = rng.choice(refs)
        r = at(doc, p)
        put(doc, p, rng.choice([r + "x", r[:rng.randint(0, len(r))], r + "/", r + "/properties/x", r + "/" + rng.choice(KEYS), r.replace("schemas", "messages"), rng.choice(REFS),
                                r.replace("#", "./doc.json#"), r.replace("/", "//", 1), r.upper(), "#/" + "/".join(str(k) for k in rng.choice(paths))]))
    elif kind == "cycle":
        comps = [p for p in paths if len(p) == 3 and p[0] == "components"] + [p for p in paths if len(p) == 2 and p[0] in ("channels", "operations", "servers")]
        if comps:
            p = rng.choice(comps)
            same = [q for q in comps if q[:-1] == p[:-1]]
            ring = [p] + [q for q in rng.sample(same, min(len(same), rng.randint(0, 3))) if q != p]
            for a, b in zip(ring, ring[1:] + ring[:1]):
                put(doc, a, {"$ref": "#/" + "/".join(b)})
            if rng.random() < 0.3:
                x = {rng.choice(["allOf", "anyOf", "oneOf"]): [{"$ref": "#/" + "/".join(ring[0])}]}
                put(doc, ring[-1], x)
    elif kind == "kind" and refs:
        a, b = rng.choice(refs), rng.choice(refs)
        va, vb = at(doc, a), at(doc, b)
        put(doc, a, vb)
        put(doc, b, va)
    elif kind == "deep":
        x = at(doc, path)
        for _ in range(rng.choice([1, 5, 50, 300])):
            x = rng.choice([lambda y: {"type": "object", "properties": {"p": y}}, lambda y: {"type": "array", "items": y}, lambda y: {"allOf": [y]}, lambda y: {"oneOf": [y]},
                            lambda y: {"type": "object", "additionalProperties": y}])(x)
        put(doc, path, x)
    elif kind == "wrap":
        put(doc, path, rng.choice([[at(doc, path)], {"x": at(doc, path)}, str(at(doc, path))[:200]]))
    elif kind == "type":
        types = [p for p in paths if p[-1] == "type"]
        if types:
            put(doc, rng.choice(types), rng.choice(["", "null", "strin", "any", 1, None, [], ["string"], "object", "array", "string", "integer", {}, "number", "boolean", "binary"]))
    return kind


def spoil(text, rng):
    """Changes the text of a file."""
    b = bytearray(text.encode())
    n = len(b)
    kind = rng.choice(["truncated", "flip", "insert", "remove", "repeat", "nul", "latin", "tabs", "crlf", "bom", "unquote", "swap"])
    i = rng.randrange(n) if n else 0
    if kind == "truncated":
        b = b[:i]
    elif kind == "flip":
        for _ in range(rng.choice([1, 1, 3, 20])):
            b[rng.randrange(n)] = rng.randrange(256)
    elif kind == "insert":
        b[i:i] = rng.choice([b"{", b"}", b"[", b"]", b":", b",", b"-", b"\n", b"*x", b"&x ", b"!!binary ", b"!!int ", b"<<: ", b"---\n", b"...\n", b"%", b"@", b"`", b"|", b">", b"'", b'"', b"\t", b"? "])
    elif kind == "remove":
        del b[i:i + rng.choice([1, 2, 10, 100])]
    elif kind == "repeat":
        b[i:i] = b[i:i + rng.choice([1, 10, 100, 1000])]
    elif kind == "nul":
        b[i:i] = b"\0"
    elif kind == "latin":
        b[i:i] = b"\xe9\xff"
    elif kind == "tabs":
        b = bytearray(bytes(b).replace(b"  ", b"\t"))
    elif kind == "crlf":
        b = bytearray(bytes(b).replace(b"\n", b"\r\n"))
    elif kind == "bom":
        b[0:0] = b"\xef\xbb\xbf"
    elif kind == "unquote":
        b = bytearray(bytes(b).replace(rng.choice([b'"', b"'"]), b""))
    elif kind == "swap":
        j = rng.randrange(n) if n else 0
        if n:
            b[i], b[j] = b[j], b[i]
    return "text_" + kind, bytes(b)


FILES = [b"", b"\n", b"null", b"[]", b"{}", b"0", b'""', b"true", b"---", b"--- \n...\n", b"{", b"a", b"a: [", b"\0", b"\xff\xfe", b"asyncapi", b"asyncapi:", b"asyncapi: {}",
         b"asyncapi: 3", b"asyncapi: 2.6", b"asyncapi: [3.0.0]", b"&a [*a]", b"&a {x: *a}", b"{\"asyncapi\": \"3.0.0\"", b"{\"asyncapi\": \"3.0.0\"}}", b"<xml/>", b"package p\n",
         b"[" * 100000, b"{\"a\":" * 100000, b"- " * 100000, b"a: " * 1000, b"x: &x [a, a]\ny: &y [*x, *x, *x, *x]\nz: [*y, *y, *y]\n",
         b"a: &a [x,x,x,x,x,x,x,x,x]\n" + b"".join(b"%c: &%c [%s]\n" % (c, c, b",".join([b"*%c" % (c - 1)] * 9)) for c in range(98, 112))]

VERSIONS = ["2.%d.0" % i for i in range(7)] + ["3.0.0"]
BAD_VERSIONS = ["1.0.0", "1.2.0", "2.7.0", "2.9.0", "2.10.0", "3.0.1", "3.1.0", "4.0.0", "2", "3", "2.6", "3.0", "2.0", "2.6.1", "", " 3.0.0", "3.0.0 ", "v3.0.0", "3.0.0-rc1", "latest",
                "2.6.0.0", "02.6.0", "20.0.0", "3,0,0", "x", 3, 2, 3.0, 2.6, None, True, [], ["3.0.0"], {}, {"3": 0}]
CRASH = re.compile(r"(?m)^(panic: |fatal error: |goroutine \d+ \[|runtime: |unexpected fault|SIG[A-Z]+: )")


def is_json(content):
    """Tells if it is JSON, or something that is close enough to it."""
    try:
        json.loads((content or b"{}").decode(errors="replace") if content != b"" else "", parse_int=str)
    except RecursionError:
        pass
    except ValueError:
        return False
    return True


class Case:
    def __init__(self, name, kind, files, inputs=None, flags=(), expect=None, out="out.go", prepare=None):
        self.name, self.kind, self.files, self.flags, self.expect, self.out, self.prepare = name, kind, files, list(flags), expect, out, prepare
        self.inputs = inputs or [list(files)[0]]
        if self.expect is None and any(n.endswith(".json") and not is_json(files.get(os.path.normpath(n))) for n in self.inputs):
            self.expect = False


def text_of(doc, rng):
    """A file of the document: (extension, content)."""
    try:
        if rng.random() < 0.7:
            return ".json", json.dumps(doc).encode(errors="replace")
        return rng.choice([".yaml", ".yml"]), yamlgen.as_yaml(doc, rng).encode(errors="replace")
    except RecursionError:
        return ".json", b"{}"


STYLES = [gen.Style(), gen.COMPOSED, gen.REFS, gen.INLINE]


def base(rng):
    v = rng.choice([2, 3])
    if rng.random() < 0.7:
        return json.loads(json.dumps(wild.document(rng, v)))
    return json.loads(json.dumps(gen.Renderer(gen.Model(rng, ops=rng.randint(1, 4)), v, rng, rng.choice(STYLES)).doc()))


def mutated(rng, name):
    """A document with one or several changes."""
    doc = base(rng)
    kinds = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        try:
            kinds.append(mutate(doc, rng))
        except (KeyError, IndexError, TypeError):  # What was chosen is not there
            continue
    try:
        doc = json.loads(json.dumps(doc))
    except (RecursionError, ValueError):
        return None
    if rng.random() < 0.25:  # As a dependency
        main = json.loads(json.dumps(doc))
        dep = {"asyncapi": doc.get("asyncapi") if isinstance(doc, dict) else "3.0.0", "components": doc.pop("components", {}) if isinstance(doc, dict) else {}}
        text = json.dumps(doc).replace('"#/components/', '"./dep.json#/components/')
        kind = "dependency " + " ".join(kinds)
        if rng.random() < 0.3:
            k, content = spoil(json.dumps(dep), rng)
            kind += " " + k
        elif rng.random() < 0.1:
            content = rng.choice(FILES)
        else:
            content = json.dumps(dep).encode()
        return Case(name, kind, {"doc.json": text.encode(), "dep.json": content}, inputs=["doc.json", "./dep.json"])
    ext, content = text_of(doc, rng)
    if rng.random() < 0.25:
        k, content = spoil(content.decode(errors="replace"), rng)
        kinds.append(k)
    return Case(name, " ".join(kinds), {"doc" + ext: content})


def accepted(name, rng, version, ext):
    """Each supported version, in the forms that a file can have."""
    v = 3 if version[0] == "3" else 2
    doc = {"info": {"title": "t", "version": "1.0.0"}, "channels": {}}
    if rng.random() < 0.7:
        doc = json.loads(json.dumps(wild.document(rng, v)))
    doc["asyncapi"] = version
    if ext == ".json":
        text = yamlgen.as_json(yamlgen.shuffled(doc, rng), rng)
    else:
        text = yamlgen.as_yaml(doc, rng)
        # All the ways to write the version
        form = rng.choice(["%s", "\"%s\"", "'%s'", "%s # the version", "!!str %s"])
        text = re.sub(r"(?m)^([\"']?asyncapi[\"']?) *:.*$", lambda m: m.group(1) + ": " + form % version, text)
    return Case(name, "version " + version, {"doc" + ext: text.encode()}, expect=True)


def refused_version(name, rng, version):
    v = rng.choice([2, 3])
    doc = json.loads(json.dumps(wild.document(rng, v)))
    doc["asyncapi"] = version
    if rng.random() < 0.1:
        del doc["asyncapi"]
    return Case(name, "bad version %r" % (version,), {"doc.json": json.dumps(doc).encode()}, expect=False)


def dangling(name, rng):
    """A document where a reference goes nowhere."""
    doc = base(rng)
    refs = [p for p in nodes(doc) if p and p[-1] == "$ref" and isinstance(at(doc, p), str)]
    refs = [p for p in refs if refused(doc, p)]
    if not refs:
        return None
    p = rng.choice(refs)
    r = at(doc, p)
    how = rng.choice(["renamed", "removed", "file"])
    if how == "renamed":
        put(doc, p, r + rng.choice(["xqz", "_qz", "0qz", "/properties/nothing"]))
    elif how == "removed":
        try:
            remove(doc, r[2:].split("/"))
        except (KeyError, TypeError):
            return None
        try:
            at(doc, p)
        except (KeyError, IndexError, TypeError):  # It was in what it references
            return None
    else:
        put(doc, p, "./missing.json" + r)
    ext, content = text_of(doc, rng)
    return Case(name, "dangling %s %s" % (how, "/".join(str(k) for k in p)), {"doc" + ext: content}, expect=False)


IGNORED = {"externalDocs", "bindings", "channelBindings", "operationBindings", "messageBindings", "serverBindings", "traits", "messageTraits", "operationTraits", "tags", "security", "servers", "examples"}


def refused(doc, path):
    """If the generator has to look at this reference: not the ones of what doesn't change the code."""
    return not IGNORED & set(path)


def circular(name, rng):
    """References that only go to each other."""
    doc = base(rng)
    kinds = [k for k, v in doc.get("components", {}).items() if k in ("schemas", "messages") and v]
    if not kinds:
        return None
    kind = rng.choice(kinds)
    comp = doc["components"][kind]
    used = [p for p in nodes(doc) if p and p[-1] == "$ref" and str(at(doc, p)).startswith("#/components/%s/" % kind)]
    key = str(at(doc, rng.choice(used))).split("/")[3] if used else rng.choice(list(comp))
    names = ["cycle%d" % i for i in range(rng.randint(0, 3))] + [key]
    for i, n in enumerate(names):
        comp[n] = {"$ref": "#/components/%s/%s" % (kind, names[i - 1])}
    ext, content = text_of(doc, rng)
    return Case(name, "circular %s" % kind, {"doc" + ext: content}, expect=False)


def files(rng):
    """Files that are no document, and paths that are no file."""
    good = json.dumps({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "channels": {}, "operations": {}}).encode()
    for i, content in enumerate(FILES):
        for ext in (".json", ".yaml"):
            yield Case("f%d%s" % (i, ext), "file %r" % content[:20], {"doc" + ext: content},
                       expect=None if ext == ".yaml" and content.startswith(b'{"') else False)
            yield Case("d%d%s" % (i, ext), "dependency file %r" % content[:20], {"doc.json": good, "dep" + ext: content}, inputs=["doc.json", "./dep" + ext])
            ref = json.dumps({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "channels": {"a": {"messages": {"m": {"$ref": "./dep%s#/components/messages/m" % ext}}}},
                              "operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/a"}}}}).encode()
            yield Case("r%d%s" % (i, ext), "used dependency file %r" % content[:20], {"doc.json": ref, "dep" + ext: content}, inputs=["doc.json", "./dep" + ext], expect=False)
    # What comes after a complete document
    doc = json.loads(good)
    doc["components"] = {"messages": {"m": {"payload": {"type": "string"}}}}
    full = json.dumps(doc).encode()
    for i, content in enumerate((full + b"}", full + full, full + b"\n\0", full + b" // comment", full[:-1], full + b"]", full + b",", full + b" null", full + b"\n\n" + full, b"x" + full, full + b"garbage")):
        yield Case("b%d" % i, "document and %r" % content[len(full) - 2:][:20], {"doc.json": content}, expect=False)
        yield Case("c%d" % i, "dependency and %r" % content[len(full) - 2:][:20], {"doc.json": good, "dep.json": content}, inputs=["doc.json", "./dep.json"], expect=False)
        ref = json.dumps({"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "channels": {"a": {"messages": {"m": {"$ref": "./dep.json#/components/messages/m"}}}},
                          "operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/a"}}}}).encode()
        yield Case("e%d" % i, "used dependency and %r" % content[len(full) - 2:][:20], {"doc.json": ref, "dep.json": content}, inputs=["doc.json", "./dep.json"], expect=False)
    for i, n in enumerate(("missing.json", "missing.yaml", "dir.json", "dir.yml", "", ".", "/", "doc.txt", "doc", "doc.json.bak", "DOC.JSON", "dangling.json", "/dev/null", "dir/doc.json/x.json")):
        yield Case("p%d" % i, "input %r" % n, {"doc.txt": good, "doc": good, "doc.json.bak": good, "DOC.JSON": good}, inputs=[n], expect=False)
        if n:
            yield Case("q%d" % i, "dependency %r" % n, {"ok.json": good, "doc.txt": good, "doc": good}, inputs=["ok.json", n], expect=False)
    for i, n in enumerate(("dir.json", "nothing/out.go", "doc.json/out.go", ".", "/dev/full", "dir.json/")):
        yield Case("o%d" % i, "output %r" % n, {"doc.json": good}, out=n, expect=False)
    for f in (["-g", "nothing"], ["-c", "x"], ["-n", "x"], ["--unknown"], ["-p"], ["-i"]):
        yield Case("g" + re.sub(r"\W", "_", "_".join(f)), "flags %r" % f, {"doc.json": good}, flags=f, expect=False)
    yield Case("ok", "a document", {"doc.json": good}, expect=True)


def cases(run, quick, thorough):
    n = thorough if run.thorough else quick

    def rng(name):
        return random.Random("%s/%s/%s" % (run.prop, run.seed, name))
    for c in files(rng("files")):
        yield c.name, lambda c=c: c
    for i, v in enumerate(VERSIONS):
        for j in range(12 if run.thorough else 6):
            name = "v%d_%d" % (i, j)
            yield name, lambda name=name, v=v, j=j: accepted(name, rng(name), v, [".json", ".yaml", ".yml"][j % 3])
    for i, v in enumerate(BAD_VERSIONS):
        name = "bv%d" % i
        yield name, lambda name=name, v=v: refused_version(name, rng(name), v)
    for i in range(n // 8):
        name = "ref%d" % i
        yield name, lambda name=name: dangling(name, rng(name))
        name = "cyc%d" % i
        if i % 2 == 0:
            yield name, lambda name=name: circular(name, rng(name))
    for i in range(n):
        name = "m%d" % i
        yield name, lambda name=name: mutated(rng(name), name)


def judge(run, c, p, path, d):
    """What is wrong with an execution."""
    err = static.no_usage(p.stderr)
    if p.returncode < 0 or p.returncode > 1 or CRASH.search(p.stderr):
        i = CRASH.search(err)
        what = "took too long and was stopped" if p.returncode in (-9, -24) else "crashed (exit status %d)" % p.returncode
        return "crash", "the generator %s: %s" % (what, err[i.start() if i else 0:][:1500])
    if p.returncode == 0 and c.expect is False:
        return "accepted", "the generator accepts it"
    if p.returncode and c.expect is True:
        return "refused", "the generator refuses it: " + err[:500]
    if p.returncode and not p.stderr.strip():
        return "silent", "the generator ends with the status %d and says nothing" % p.returncode
    if p.returncode == 0 and not os.path.isfile(path):
        return "output", "the generator ends well but writes nothing"
    return None, None


def robustness(quick, thorough):
    def one(run, name, make):
        c = make()
        if c is None:
            return name, None, None, (None, None), None
        d = run.path("bad", re.sub(r"\W", "_", name))
        os.makedirs(os.path.join(d, "dir.json"))
        os.makedirs(os.path.join(d, "dir.yml"))
        os.makedirs(os.path.join(d, "dir"))
        os.symlink("nowhere", os.path.join(d, "dangling.json"))
        for f, content in c.files.items():
            with open(os.path.join(d, f), "wb") as w:
                w.write(content)
        flags = list(c.flags)
        rng = random.Random(name)
        if c.expect is None and rng.random() < 0.3:
            flags += rng.choice([["-f"], ["--force-pointers"], ["-g", "types"], ["-c", "snake"], ["-n", "camel"], ["--ignore-string-format"]])
        p = static.run_one(run, ["-i", ",".join(c.inputs), "-o", c.out, "-p", "p"] + flags, d, cpu=60)
        path = os.path.normpath(os.path.join(d, c.out))
        kind, detail = judge(run, c, p, path, d)
        keep = None
        if kind is None and p.returncode == 0:
            keep = run.path("bad", re.sub(r"\W", "_", name) + ".go")
            os.rename(path, keep)
        shutil.rmtree(d)
        return name, c, p.returncode, (kind, detail), keep

    def go(run):
        run.cli()
        tool = run.path("source")
        p = run.go_build(run.module(), "./cmd/source", tool)
        if p.returncode != 0:
            raise NoAnswer("the monitors do not compile:\n" + p.stderr[-3000:])
        todo = [(n, m) for n, m in cases(run, quick, thorough) if not run.only or run.only == n]
        written = {}

        def violate(c, kind, detail):
            run.violate(kind, "%s (%s): %s" % (c.name, c.kind, detail), scenario=c.name,
                        witness={f: t.decode(errors="replace")[:100000] for f, t in c.files.items()})
        with futures.ThreadPoolExecutor(run.cores) as ex:
            for name, c, status, (kind, detail), keep in ex.map(lambda x: one(run, *x), todo):
                if c is None:
                    continue
                run.eval("%s %s" % (c.kind, status))
                run.observed["accepted" if status == 0 else "refused"] += 1
                for k in c.kind.split(" ")[:1] if c.name[0] not in "m" else c.kind.split(" "):
                    run.observed["kind_" + k] += 1
                run.sample("%s (%s): exit status %s" % (name, c.kind, status))
                if kind:
                    violate(c, kind, detail)
                if keep:
                    written[keep] = c
        paths = list(written)
        for i in range(0, len(paths), 200):
            p = run.sh([tool] + paths[i:i + 200])
            if p.returncode != 0:
                raise NoAnswer("the sources are not read: " + p.stderr[-1000:])
            for path, f in json.loads(p.stdout).items():
                run.observed["sources"] += 1
                if f["error"]:
                    violate(written[path], "source", "what is written is not Go: " + f["error"])
    return go
