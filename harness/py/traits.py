"""The processing of the traits (version 3), seen by a program that uses the parser: an
operation or a message that has traits is the one in which their content is written."""
import json
import os
import random

import driver

KINDS = {"string": {"type": "string"}, "integer": {"type": "integer"}, "boolean": {"type": "boolean"},
         "array": {"type": "array", "items": {"type": "string"}}}


class Doc:
    def __init__(self, rng):
        self.rng = rng
        self.comp = {}
        self.count = 0

    def text(self):
        self.count += 1
        return "text %d" % self.count

    def ref(self, kind, x, p=0.4):
        """x, or a reference to it, maybe through another one."""
        rng = self.rng
        if rng.random() >= p:
            return x
        self.count += 1
        key = "%s%d" % (kind[:3], self.count)
        self.comp.setdefault(kind, {})[key] = x
        while rng.random() < 0.3 and kind in ("messageTraits", "operationTraits"):
            self.count += 1
            alias = "%s%s%d" % (rng.choice(["a", "z"]), kind[:3], self.count)
            self.comp[kind][alias] = {"$ref": "#/components/%s/%s" % (kind, key)}
            key = alias
        return {"$ref": "#/components/%s/%s" % (kind, key)}

    def tag(self):
        return {"name": "tag%d" % self.rng.randint(1, 1000000), "description": self.text()}

    def spread(self, kind, single, lists):
        """An object and its traits: each single field is in the object, in one trait,
        or in both, where the one of the object is kept."""
        rng = self.rng
        own, traits, want = {}, [{} for _ in range(rng.randint(1, 3))], {}
        for name, make in single.items():
            x = rng.random()
            if x < 0.25:
                continue
            if x < 0.75:
                rng.choice(traits)[name], want[name] = self.both(make)
            if x >= 0.6:
                own[name], want[name] = self.both(make)
        for name, make in lists.items():
            want[name] = []
            for o in [own] + traits:
                if rng.random() < 0.4:
                    o[name] = []
                    for _ in range(rng.randint(1, 2)):
                        a, b = self.both(make)
                        o[name].append(a)
                        want[name].append(b)
            want[name].sort()
        own["traits"] = traits
        return own, traits, want

    @staticmethod
    def both(make):
        r = make()
        return r if isinstance(r, tuple) else (r, r)

    def docs(self):
        d = {"url": "https://%d" % self.rng.randint(1, 1000), "description": self.text()}
        return self.ref("externalDocs", d), d["url"] + " " + d["description"]

    def bindings(self):
        k = {"a": self.text()}
        return {"kafka": k, "amqp": {"b": 1}}, k

    def described(self, kind, make):
        d = make()
        return self.ref(kind, d), d["description"]

    def headers(self, own, traits, want):
        rng = self.rng
        want["headers"] = {}
        for o in [own] + traits:
            if rng.random() < 0.5:
                h = {"type": "object", "properties": {}}
                for _ in range(rng.randint(1, 3)):
                    self.count += 1
                    n, t = "h%d" % self.count, rng.choice(list(KINDS))
                    h["properties"][n] = self.ref("schemas", dict(KINDS[t]), 0.3)
                    req = rng.random() < 0.4
                    if req:
                        h.setdefault("required", []).append(n)
                    want["headers"][n] = "%s %s" % (t, "true" if req else "false")
                o["headers"] = self.ref("schemas", h, 0.3) if o is own else h
        strings = [n for n, t in want["headers"].items() if t.startswith("string")]
        if strings and rng.random() < 0.7:
            want["correlation"] = "$message.header#/" + rng.choice(strings)
            rng.choice([own] + traits)["correlationId"] = self.ref("correlationIds", {"location": want["correlation"]})

    def document(self):
        rng = self.rng
        channels, operations, ops, msgs = {}, {}, {}, {}
        texts = {k: self.text for k in ("title", "summary", "description")}
        for i in range(rng.randint(1, 4)):
            single = dict(texts, contentType=self.text, externalDocs=self.docs, bindings=self.bindings)
            own, traits, want = self.spread("message", single, {
                "tags": lambda: self.described("tags", self.tag), "examples": lambda: (lambda t: ({"name": "e", "summary": t, "payload": {"a": 1}}, t))(self.text())})
            own["payload"] = {"type": "object", "properties": {"a": {"type": "integer"}}}
            self.headers(own, traits, want)
            own["traits"] = [self.ref("messageTraits", t) for t in traits]
            msgs["ch%d" % i] = want
            channels["ch%d" % i] = {"address": "a%d" % i, "messages": {"content": self.ref("messages", own)}}
            for k in range(rng.randint(1, 2)):
                own, traits, want = self.spread("operation", dict(texts, externalDocs=self.docs, bindings=self.bindings), {
                    "tags": lambda: self.described("tags", self.tag)})
                own["traits"] = [self.ref("operationTraits", t) for t in traits]
                own.update(action=rng.choice(["send", "receive"]), channel={"$ref": "#/channels/ch%d" % i})
                name = "op%d_%d" % (i, k)
                operations[name] = self.ref("operations", own, 0.2)
                ops[name] = want
        return {"asyncapi": "3.0.0", "info": {"title": "T", "version": "1.0.0"}, "channels": channels, "operations": operations,
                "components": self.comp}, ops, msgs


FIELDS = {"title": "title", "summary": "summary", "description": "description", "contentType": "contentType", "externalDocs": "docs",
          "bindings": "kafka", "tags": "tags", "examples": "examples", "headers": "headers", "correlation": "correlation"}


def spec_traits(quick, thorough):
    def go(run):
        prog = run.path("traitsbin")
        p = run.go_build(run.module("traits"), "./cmd/traits", prog)
        if p.returncode != 0:
            raise driver.NoAnswer("the program of the traits does not build:\n" + p.stderr[-3000:])
        d = run.path("traits-docs")
        os.makedirs(d)
        cases, files = [], []
        for i in range(thorough if run.thorough else quick):
            name = "t%d" % i
            if run.only and run.only != name:
                continue
            doc, ops, msgs = Doc(random.Random("%s/%s/%s" % (run.prop, run.seed, name))).document()
            files.append(os.path.join(d, name + ".json"))
            with open(files[-1], "w") as f:
                json.dump(doc, f)
            cases.append((name, doc, {"operations": ops, "messages": msgs}))
        import subprocess
        p = subprocess.run([prog], cwd=d, env=run.env, input=json.dumps(files), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           errors="replace", text=True, timeout=900)
        if p.returncode != 0:
            run.violate("traits", "processing the documents ends with the status %s: %s" % (p.returncode, p.stderr[-2000:]))
            return
        for (name, doc, want), got in zip(cases, json.loads(p.stdout)):
            run.observed["traits_documents"] += 1
            if got["error"]:
                run.violate("traits", "%s: a valid document is refused: %s" % (name, got["error"]), scenario=name, witness={"document": doc})
                continue
            bad = []
            for kind in ("operations", "messages"):
                for key, fields in want[kind].items():
                    o = got[kind].get(key)
                    run.eval("traits %s/%s" % (kind, " ".join(sorted(k for k in fields if fields[k]))))
                    if o is None:
                        bad.append("%s %s is missing" % (kind, key))
                        continue
                    for f, g in FIELDS.items():
                        if kind == "operations" and f in ("contentType", "examples", "headers", "correlation"):
                            continue
                        run.observed["traits_fields"] += 1
                        if (o.get(g) or None) != (fields.get(f) or None):
                            bad.append("%s %s: %s is %r, and it should be %r" % (kind, key, f, o.get(g), fields.get(f)))
            if bad:
                run.violate("traits", "%s: %s" % (name, "; ".join(bad[:3])), scenario=name, witness={"document": doc, "problems": bad})
    return go
