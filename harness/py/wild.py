"""Random documents that use all what a document can say, without a model of what it means: for
the properties about the generator itself."""
import random

KEYWORDS = ["type", "func", "range", "map", "error", "string", "select", "go", "chan", "package", "import", "return", "interface", "var", "default",
            "len", "nil", "true", "int", "make", "new", "context", "json", "time", "fmt", "extensions", "msg", "ctx", "c", "err", "payload", "headers",
            "init", "any", "append", "controller", "App", "User", "validator", "broker", "sub", "fn", "path", "addr", "b", "v", "key", "value"]
TEXTS = ["Some text", "Two\nlines", "Three\n\n\tlines\n", "/* comment */ // other", "*/", "`backquotes` \"quotes\" 'simple'", "back\\slash \\n", "é 日本 🎉",
         "{{ .Template }} {{end}}", "%s %d %", "", "trailing \\", "<b>&amp;</b>", "$ref: '#/nothing'", "# not a comment", "//go:build ignore"]


class Wild:
    def __init__(self, rng, v):
        self.rng, self.v, self.n = rng, v, 0
        self.keywords = list(KEYWORDS)
        rng.shuffle(self.keywords)
        self.c = {}  # Components
        self.depth = 0
        self.shared = []  # Channels of replies

    # --- names -------------------------------------------------------------------
    def word(self):
        self.n += 1
        return self.rng.choice(["order", "User", "item", "x", "evt", "ID", "Room", "data"]) + "".join("abcdefghij"[int(c)] for c in str(self.n))

    def name(self, kind):
        """A name that gives an identifier of its own."""
        rng = self.rng
        if self.keywords and rng.random() < 0.15:
            return self.keywords.pop()
        w = self.word()
        forms = ["%s", "%s", "%s_x", "X_%s", "%s2", "get%s"]
        if kind in ("prop", "header", "component", "message", "channel", "schema"):
            forms += ["%s-x", "x.%s", "x-%s", "%s.y-z"]
        if kind in ("prop", "header"):
            forms += ["%s x", "$%s", "@%s", "_%s", "%s_", "1%s", "%s#", "é%s", "%sé", "%s:x", "%s/x", "(%s)", "日本%s", "%s?", "<%s>", "*%s", "%s%%", "!%s", "%s~", "%s+", "=%s", "%s;x", "a  %s"]
        return rng.choice(forms) % w

    def text(self):
        return self.rng.choice(TEXTS)

    def some(self, p):
        return self.rng.random() < p

    def docs(self, x, *fields):
        """Adds documentation."""
        for f in fields or ("description",):
            if self.some(0.2):
                x[f] = self.text()
        return x

    def tags(self, x):
        if self.some(0.15):
            x["tags"] = [{"name": self.text() or "t", "description": self.text()} for _ in range(self.rng.randint(0, 2))]
            if self.v == 3 and self.some(0.3):
                x["tags"].append(self.ref("tags", lambda: {"name": "t"}, 1))
        if self.some(0.15):
            x["externalDocs"] = {"url": "https://example.org", "description": self.text()}
            if self.v == 3 and self.some(0.3):
                x["externalDocs"] = self.ref("externalDocs", lambda: {"url": "https://example.org"}, 1)
        return x

    def bindings(self, x, kind):
        if self.some(0.15):
            b = self.rng.choice([{}, {"nats": {}}, {"kafka": {"bindingVersion": "0.4.0"}}, {"amqp": {}, "mqtt": {}}, {"nats": {"queue": "q"}}])
            x["bindings"] = self.ref(kind, lambda: b, 0.3)
        return x

    # --- components ----------------------------------------------------------------
    def ref(self, kind, make, p=0.4, chain=0.25):
        """Something, by reference or not."""
        rng = self.rng
        if not self.some(p):
            return make()
        have = [k for k, v in self.c.setdefault(kind, {}).items() if v is not None]
        if have and self.some(0.3) and kind in ("schemas", "tags", "externalDocs"):
            return {"$ref": "#/components/%s/%s" % (kind, rng.choice(have))}
        key = self.name("component")
        self.c[kind][key] = None
        self.c[kind][key] = make()
        if self.some(chain):
            other = self.name("component")
            self.c[kind][other] = {"$ref": "#/components/%s/%s" % (kind, key)}
            key = other
        return {"$ref": "#/components/%s/%s" % (kind, key)}

    # --- schemas ----------------------------------------------------------------------
    def schema(self, p=0.3, kinds=None):
        return self.ref("schemas", lambda: self.inline(kinds), p)

    def inline(self, kinds=None):
        rng = self.rng
        self.depth += 1
        if kinds is None:
            kinds = ["string", "string", "integer", "number", "boolean"]
            if self.depth < 5:
                kinds += ["object", "object", "array", "compose", "map"]
        k = rng.choice(kinds)
        s = getattr(self, "of_" + k)()
        self.docs(s, "description", "title")
        for f, v in (("deprecated", True), ("readOnly", True), ("writeOnly", False), ("$id", "x"), ("$comment", "c"), ("x-extra", {"a": [1]})):
            if self.some(0.03):
                s[f] = v
        self.tags(s).pop("tags", None)
        self.depth -= 1
        return s

    def of_string(self):
        rng = self.rng
        s = {"type": "string"}
        x = rng.random()
        if x < 0.4:
            s["format"] = rng.choice(["date", "date-time", "uuid", "email", "uri", "byte", "binary", "password", "time", "hostname", "ipv4", "regex", "other", "", "json-pointer"])
        elif x < 0.6:
            s["enum"] = rng.sample(["a", "b c", "x,y", "p|q", "é", "1", "", "say \"hi\"", "back\\slash", "tick`s", "type"], rng.randint(1, 5))
        elif x < 0.7:
            s["const"] = rng.choice(["a", "b c", "x,y", "\\", "`"])
        else:
            for f in ("minLength", "maxLength"):
                if self.some(0.3):
                    s[f] = rng.randint(0, 10)
            if self.some(0.2):
                s["pattern"] = rng.choice(["^[a-z]+$", "`\"\\d", "^\\w{1,2}$"])
        if self.some(0.1):
            s["default"] = self.text()
        if self.some(0.1):
            s["examples"] = [self.text(), self.text()]
        return s

    def of_integer(self):
        rng = self.rng
        s = {"type": "integer"}
        if self.some(0.5):
            s["format"] = rng.choice(["int32", "int64", "uint8", "other"])
        self.limits(s, lambda: rng.choice([0, 1, -3, 10, 1 << 40]))
        if self.some(0.1):
            s["enum"] = [1, 2]
        if self.some(0.1):
            s["default"] = 3
        return s

    def of_number(self):
        rng = self.rng
        s = {"type": "number"}
        if self.some(0.5):
            s["format"] = rng.choice(["float", "double", "decimal"])
        self.limits(s, lambda: rng.choice([0, 1.5, -3, 10.25, 1e9]))
        if self.some(0.1):
            s["enum"] = [1, 2.5]
        return s

    def limits(self, s, val):
        for f in ("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"):
            if self.some(0.15):
                s[f] = abs(val()) + 1 if f == "multipleOf" else val()

    def of_boolean(self):
        s = {"type": "boolean"}
        if self.some(0.2):
            s["default"] = True
        return s

    def props(self, s, n=None, kind="prop"):
        rng = self.rng
        names = [self.name(kind) for _ in range(rng.randint(0, 5) if n is None else n)]
        if names or self.some(0.5):
            s["properties"] = {k: self.schema() for k in names}
        req = [k for k in names if self.some(0.4)]
        if req:
            s["required"] = req
        return s

    def of_object(self):
        s = self.props({"type": "object"})
        if self.some(0.15):
            s["additionalProperties"] = self.schema()
        elif self.some(0.15):
            s["additionalProperties"] = self.some(0.3)
        if self.some(0.1):
            s.update(self.rng.choice([{"minProperties": 1}, {"maxProperties": 9}, {"propertyNames": {"pattern": "^[a-z]"}}, {"discriminator": "kind"},
                                      {"patternProperties": {"^x-": self.schema()}}, {"dependencies": {"a": ["b"]}}, {"definitions": {"a": {"type": "string"}}},
                                      {"not": {"type": "object", "required": ["zz"]}}, {"if": {"required": ["a"]}, "then": {"required": ["b"]}, "else": {}},
                                      {"examples": [{"a": 1}]}, {"default": {"a": [None]}}, {"externalDocs": {"url": "https://x"}}]))
        return s

    def of_map(self):
        return {"type": "object", "additionalProperties": self.schema(0.4)}

    def of_array(self):
        rng = self.rng
        s = {"type": "array", "items": self.schema()}
        for f, v in (("minItems", 1), ("maxItems", 3), ("uniqueItems", rng.random() < 0.5)):
            if self.some(0.15):
                s[f] = v
        if self.some(0.1):
            s.update(self.rng.choice([{"contains": {"type": "string"}}, {"additionalItems": False}, {"additionalItems": {"type": "string"}}, {"default": []},
                                      {"examples": [[1], []]}]))
        return s

    def of_compose(self):
        rng = self.rng
        word = rng.choice(["allOf", "allOf", "anyOf", "oneOf"])
        s = {}
        if self.some(0.4):
            s["type"] = "object"
            if self.some(0.5):
                self.props(s)
        s[word] = [self.ref("schemas", lambda: self.props({"type": "object"}), 0.5) for _ in range(rng.randint(1, 3))]
        # Parts are objects
        s[word] = [p if "$ref" not in p or self.is_object(p) else self.props({"type": "object"}) for p in s[word]]
        return s

    def is_object(self, s):
        while s is not None and "$ref" in s:
            s = self.c["schemas"][s["$ref"].split("/")[-1]]
        return s is not None and s.get("type") == "object" and "properties" in s and "additionalProperties" not in s

    # --- messages ---------------------------------------------------------------------
    def message(self, p=0.5):
        return self.ref("messages", self.inline_message, p)

    def one_of(self):
        """A message that is one of several, with payloads that are objects."""
        def part():
            m = {"payload": self.props({"type": "object"}, self.rng.randint(1, 3))}
            if self.some(0.3):
                m["headers"] = self.props({"type": "object"}, self.rng.randint(1, 2), "header")
            if self.some(0.2):
                ref = self.ref("schemas", lambda: self.props({"type": "object"}, 2), 1)
                m["payload"] = ref if self.is_object(ref) else m["payload"]
            return m

        def final(x):
            while "$ref" in x:
                x = self.c["messages"][x["$ref"].split("/")[-1]]
            return x
        parts = [self.ref("messages", part, 0.5) for _ in range(self.rng.randint(1, 3))]
        m = {"oneOf": [x if self.is_object(final(x).get("payload")) else part() for x in parts]}
        return self.docs(m, "description")

    def inline_message(self, reply=False):
        rng = self.rng
        m = {"payload": self.schema(0.5)}
        if self.some(0.3):
            m["name"] = self.name("message")
        self.docs(m, "title", "summary", "description")
        self.tags(m)
        self.bindings(m, "messageBindings")
        if self.some(0.2):
            m["contentType"] = "application/json"
        if self.some(0.5):
            m["headers"] = self.ref("schemas", lambda: self.props({"type": "object"}, rng.randint(1, 4), "header"), 0.3)
            if not self.is_object(m["headers"]) and "$ref" in m["headers"]:
                m["headers"] = self.props({"type": "object"}, 2, "header")
        if self.some(0.3):
            where, name = rng.choice(["header", "payload"]), self.name("component").replace(".", "")
            if where == "header":
                h = m.setdefault("headers", {"type": "object"})
                if "$ref" in h:
                    h = m["headers"] = self.props({"type": "object"}, 2, "header")
                if self.some(0.7):
                    h.setdefault("properties", {})[name] = {"type": "string"}
                    if self.some(0.3):
                        h.setdefault("required", []).append(name)
            else:
                m["payload"] = self.props({"type": "object"}, 2)
                if self.some(0.7):
                    m["payload"]["properties"][name] = {"type": "string"}
            m["correlationId"] = self.ref("correlationIds", lambda: self.docs({"location": "$message.%s#/%s" % (where, name)}), 0.3)
        if self.some(0.15):
            m["examples"] = [{"name": "e", "payload": rng.choice([{"a": [1, None]}, "a", 3, 1.5, [1, {"a": 2}], True, None]), "headers": {"h": 1}}
                             for _ in range(rng.randint(1, 2))]
            if self.some(0.5):
                m["examples"][0]["summary"] = self.text()
        if self.some(0.15) and self.v == 3:
            m["traits"] = [self.ref("messageTraits", lambda: self.tags(self.docs({"examples": [{"payload": "a"}]} if self.some(0.3) else {}, "title", "summary", "description")), 0.5)]
            if "headers" in m and "correlationId" not in m:
                m["traits"].append({"headers": m.pop("headers")})
        return m

    def parameter(self, name):
        rng = self.rng

        def make():
            p = self.docs({})
            if self.v == 2:
                if self.some(0.8):
                    p["schema"] = self.schema(0.3, ["string"])
            else:
                if self.some(0.3):
                    p["enum"] = ["a", "b \"c\""]
                if self.some(0.2):
                    p["default"] = "a"
                if self.some(0.2):
                    p["examples"] = ["a"]
            if self.some(0.2):
                p["location"] = "$message.payload#/" + name
            return p
        return self.ref("parameters", make, 0.3)

    def address(self):
        rng = self.rng
        params, parts = {}, []
        for _ in range(rng.randint(1, 4)):
            if self.some(0.25) and len(params) < 3:
                p = self.name("param")
                params[p] = self.parameter(p)
                parts.append("{%s}" % p)
            else:
                parts.append(self.word() + rng.choice(["", "", "-x", "_y", "%", "é", ":z", "\"", "\\", "`", "*", ">", " w"] if self.some(0.2) else [""]))
        if params and self.some(0.1):
            parts.insert(rng.randint(0, len(parts)), "{%s}" % rng.choice(sorted(params)))
        sep = rng.choice("./-")
        if all(p[0] == "{" for p in parts) or parts[0][0] == "{" and parts[-1][0] == "{":
            parts.insert(0, self.word())
        return rng.choice(["", "", "/"] if sep == "/" else [""]) + sep.join(parts), params

    # --- documents ----------------------------------------------------------------------
    def document(self):
        rng = self.rng
        d = {"asyncapi": "3.0.0" if self.v == 3 else rng.choice(["2.%d.0" % i for i in range(7)])}
        d["info"] = self.docs({"title": self.text() or "t", "version": rng.choice(["1.0.0", "2.1.0-rc.1", "2024-01-01"])}, "description", "termsOfService")
        if self.some(0.2):
            d["info"]["contact"] = {"name": "Me", "url": "https://example.org", "email": "a@b.c"}
            d["info"]["license"] = {"name": "MIT", "url": "https://example.org"}
        if self.v == 3:
            self.tags(d["info"])
        else:
            self.tags(d)
            if self.some(0.2):
                d["id"] = "urn:x:y"
        if self.some(0.3):
            d["defaultContentType"] = "application/json"
        if self.some(0.3):
            self.servers(d)
        (self.channels2 if self.v == 2 else self.channels3)(d)
        # Components that nothing uses
        for _ in range(rng.choice([0, 0, 1, 3])):
            self.c.setdefault("schemas", {})[self.name("schema")] = self.inline()
        for _ in range(rng.choice([0, 0, 0, 1])):
            self.c.setdefault("messages", {})[self.name("message")] = self.inline_message()
        if self.some(0.5) and self.c.get("schemas"):  # Recursion
            key = self.name("component")
            ref = {"$ref": "#/components/schemas/" + key}
            self.c["schemas"][key] = self.props({"type": "object"}, 2)
            self.c["schemas"][key]["properties"][self.name("prop")] = rng.choice([ref, {"type": "array", "items": ref}, {"type": "object", "additionalProperties": ref},
                                                                          {"type": "object", "properties": {"inner": ref}}])
        comp = {k: v for k, v in self.c.items() if v}
        if comp or self.some(0.3):
            keys = list(comp)
            rng.shuffle(keys)
            d["components"] = {k: comp[k] for k in keys}
        return d

    def servers(self, d):
        rng = self.rng
        s = {}
        for _ in range(rng.randint(1, 2)):
            srv = self.docs({"protocol": rng.choice(["nats", "kafka", "secure-mqtt"])})
            if self.v == 2:
                srv["url"] = "{host}.example.org:{port}"
            else:
                srv["host"] = "{host}.example.org:{port}"
                srv["pathname"] = "/x"
            srv["variables"] = {"host": self.docs({"default": "a", "enum": ["a", "b"]}), "port": {"default": "4222"}}
            self.bindings(srv, "serverBindings")
            if self.some(0.4):
                srv["security"] = [{self.security_scheme(): []} for _ in range(rng.randint(1, 2))] if self.v == 2 else [
                    {"$ref": "#/components/securitySchemes/" + self.security_scheme()} if self.some(0.5) else self.scheme() for _ in range(rng.randint(1, 2))]
            s[self.name("component")] = srv
        d["servers"] = s

    def scheme(self):
        """A security scheme."""
        scopes = "availableScopes" if self.v == 3 else "scopes"
        flow = {"authorizationUrl": "https://a", "tokenUrl": "https://b", "refreshUrl": "https://c", scopes: {"a:b": "c"}}
        s = self.rng.choice([{"type": "userPassword", "description": self.text()}, {"type": "apiKey", "in": "user"}, {"type": "X509"}, {"type": "plain"},
                             {"type": "http", "scheme": "bearer", "bearerFormat": "JWT"}, {"type": "httpApiKey", "name": "k", "in": "header"},
                             {"type": "oauth2", "flows": {"implicit": flow, "clientCredentials": flow, "password": flow, "authorizationCode": flow}},
                             {"type": "openIdConnect", "openIdConnectUrl": "https://a"}])
        s = dict(s)
        if self.v == 3 and s["type"] in ("oauth2", "openIdConnect"):
            s["scopes"] = ["a:b"]
        return s

    def security_scheme(self):
        key = self.name("component")
        self.c.setdefault("securitySchemes", {})[key] = self.scheme()
        return key

    def security(self, x):
        if self.some(0.1):
            x["security"] = [self.scheme() if self.v == 3 else {self.security_scheme(): []}]
        return x

    def channels2(self, d):
        rng = self.rng
        d["channels"] = {}
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            addr, params = self.address()
            ch = self.docs({})
            if params:
                ch["parameters"] = params
            both = rng.choice([["publish"], ["subscribe"], ["publish", "subscribe"]])
            for w in both:
                op = self.docs({"message": self.one_of() if self.some(0.15) else self.message()}, "summary", "description")
                if self.some(0.5) and len(both) == 1:
                    op["operationId"] = self.name("operation")
                self.tags(op)
                self.bindings(op, "operationBindings")
                if self.some(0.1):
                    op["traits"] = [self.ref("operationTraits", lambda: self.docs({}), 0.5)]
                ch[w] = op
            if self.some(0.1):
                ch["servers"] = list(d.get("servers", {}))
            self.bindings(ch, "channelBindings")
            d["channels"][addr] = ch

    def channels3(self, d):
        rng = self.rng
        chans, ops = {}, {}
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            key = self.name("channel")
            addr, params = self.address()
            ch = self.docs({"address": addr}, "title", "summary", "description")
            ch["messages"] = {self.name("message"): self.message() for _ in range(rng.choice([1, 1, 1, 2, 3]))}
            if params:
                ch["parameters"] = params
            self.tags(ch)
            self.bindings(ch, "channelBindings")
            if self.some(0.1):
                ch["servers"] = [{"$ref": "#/servers/" + s} for s in d.get("servers", {})]
            if self.some(0.2):
                self.c.setdefault("channels", {})[key] = ch
                chans[key] = {"$ref": "#/components/channels/" + key}
            else:
                chans[key] = ch
            for act in rng.choice([["send"], ["receive"], ["send", "receive"], ["send", "send"], []]):
                op = self.docs({"action": act, "channel": {"$ref": "#/channels/" + key}}, "title", "summary", "description")
                if chans[key] is ch and self.some(0.3):
                    op["messages"] = [{"$ref": "#/channels/%s/messages/%s" % (key, list(ch["messages"])[0])}]
                self.tags(op)
                self.security(op)
                self.bindings(op, "operationBindings")
                if self.some(0.15):
                    op["traits"] = [self.ref("operationTraits", lambda: self.security(self.tags(self.docs({}, "title", "summary", "description"))), 0.5)
                                    for _ in range(rng.randint(1, 2))]
                if self.some(0.25):
                    self.reply(chans, op, ch["messages"][min(ch["messages"])])
                ops[self.name("operation")] = self.ref("operations", lambda: op, 0.15)
        d["channels"] = chans
        if ops or self.some(0.5):
            d["operations"] = ops

    def reply(self, chans, op, msg):
        """NOTE: the channel of a reply can't have parameters (see known_findings.txt)."""
        rng = self.rng
        if self.shared and self.some(0.3):
            op["reply"] = {"channel": {"$ref": "#/channels/" + rng.choice(self.shared)}}
            return
        key = self.name("channel")
        while True:
            addr, params = self.address()
            if not params:
                break
        ch = {"address": addr, "messages": {self.name("message"): self.message()}}
        chans[key] = ch
        r = {"channel": {"$ref": "#/channels/" + key}}
        if self.some(0.2):
            r["messages"] = [{"$ref": "#/channels/%s/messages/%s" % (key, list(ch["messages"])[0])}]
        elif self.some(0.4) and "$ref" not in msg and "traits" not in msg and "$ref" not in msg.get("headers", {}):
            h = msg.setdefault("headers", {"type": "object"}).setdefault("properties", {})
            h["replyTo"] = {"type": "string"}
            if self.some(0.5):
                msg["headers"].setdefault("required", []).append("replyTo")
            r["address"] = self.ref("replyAddresses", lambda: self.docs({"location": "$message.header#/replyTo"}), 0.3)
            ch["address"] = rng.choice(["", None])
        else:
            self.shared.append(key)
        op["reply"] = self.ref("replies", lambda: r, 0.3)


def document(rng, v):
    return Wild(rng, v).document()


if __name__ == "__main__":
    import json
    import sys
    print(json.dumps(document(random.Random(sys.argv[1]), int(sys.argv[2])), indent=1, ensure_ascii=False))
