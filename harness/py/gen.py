"""Random documents: models (what the messages are), and renderings of a model
as AsyncAPI documents, v2 or v3, with or without references, compositions and traits."""
import copy
import json
import random

# Names of the properties: odd but supported ones too.
WORDS = ["id", "name", "kind", "value", "amount", "state", "label", "owner", "zone", "level", "score", "extra", "unit", "ratio", "tag",
         "note", "type", "func", "range", "string", "map", "error", "payload", "headers", "data", "item", "count", "price"]
STYLES = ["{a}", "{a}{B}", "{a}_{b}", "{a}-{b}", "{A}{B}", "{a}.{b}", "{a} {b}", "_{a}", "{a}_", "{a}${b}", "{a}{n}", "{a}@{b}",
          "{AA}", "{a}{BB}", "{a}/{b}", "{a}#{b}", "é{a}", "{a}:{b}"]
HSTYLES = ["{a}", "{a}{B}", "x-{a}-{b}", "{a}_{b}", "X-{A}", "{a}.{b}", "{a}{n}"]
TEXTS = ["a", "b c", "x,y", "p|q", "é", "A&B", "<t>", "100%", "z-9", "k=v", "it;s", "#1", "[x]", "{y}", "a/b", "q?", "日本", "say \"hi\"",
         "back\\slash", "tick`s"]


def namify(s):
    """The identifier a name gives (only used to avoid collisions)."""
    out, prev = "", "_"
    for c in s:
        out += c.upper() if not prev.isalnum() else c
        prev = c
    out = "".join(c for c in out if c.isascii() and c.isalnum()).lstrip("0123456789")
    return out.lower()


def letters(n):
    return "q" + "".join("abcdefghij"[int(c)] for c in str(n))


def plain(rng, words):
    """A name whose words are obvious."""
    s = words[0]
    cap = rng.random() < 0.3
    if cap:
        s = s.capitalize()
    sep = rng.choice(["", "_", "-", " ", None])
    for w in words[1:]:
        x = rng.choice(["", "_", "-", " "]) if sep is None else sep
        s += x + (w.capitalize() if x == "" or cap and rng.random() < 0.5 else w)
    return s, words


def split_words(s):
    return "".join("_" + c.lower() if c.isupper() else c for c in s).split("_")


CONVERT = {
    "none": None,
    "snake": lambda w: "_".join(w),
    "kebab": lambda w: "-".join(w),
    "camel": lambda w: "".join(x.capitalize() for x in w),
}


class Model:
    """What a document says: named types, and operations with their messages."""

    def __init__(self, rng, ops=6, constraints=0.4, formats=True, composed=True, plain_names=False, headers=True, ext=0, requests=0):
        self.rng, self.constraints, self.formats, self.plain = rng, constraints, formats, plain_names
        self.ext, self.requests = ext, requests
        self.imports = {"verif/ext": rng.choice(["", "custom"]), "verif/ext/other": rng.choice(["", "other2"])}
        self.words = {}   # Of the plain names
        self.with_headers = headers
        self.count = 0
        self.types = {}   # Named types, that can be recursive
        self.pool = []    # Nodes that can be shared
        for i in range(rng.randint(1, 3)):
            self.types["Rec%d" % (i + 1)] = None
        self.ready = []
        for name in list(self.types):
            self.types[name] = self.obj(2, rec=name)
            self.ready.append(name)
        self.ops = [self.op(i) for i in range(ops)]

    # --- names ---------------------------------------------------------------
    def number(self):
        self.count += 1
        return self.count

    def propname(self, used, unique, header=False):
        rng = self.rng
        while True:
            a, b = rng.choice(WORDS), rng.choice(WORDS)
            if self.plain:
                s, words = plain(rng, [a, b][:rng.randint(1, 2)] + ([letters(self.number())] if unique else []))
                n = namify(s)
                if n not in used and n != "additionalproperties":
                    used.add(n)
                    self.words[s] = words
                    return s
                continue
            else:
                st = rng.choice(["{a}", "{a}_{b}", "{a}{B}"]) if rng.random() < 0.5 else rng.choice(HSTYLES if header else STYLES)
            s = st.format(a=a, b=b, A=a.capitalize(), B=b.capitalize(), AA=a.upper(), BB=b.upper(), n=rng.randint(1, 9))
            if unique:
                s += "%d" % (100 + self.number())
            n = namify(s)
            if n and n not in used and n != "additionalproperties":
                used.add(n)
                return s

    # --- nodes ---------------------------------------------------------------
    def scalar(self, role):
        rng = self.rng
        k = rng.choice(["str", "str", "int", "int", "num", "bool"])
        n = {"k": k}
        if k == "str":
            f = rng.random()
            if f < 0.15 and self.formats:
                n["fmt"] = "date"
            elif f < 0.35 and self.formats:
                n["fmt"] = "date-time"
            elif f < 0.45:
                n["doc"] = {"format": rng.choice(["uuid", "email", "uri", "byte"])}
        elif k == "int":
            n["bits"] = 64
            f = rng.random()
            if f < 0.3:
                n["bits"] = 32
                n["doc"] = {"format": "int32"}
            elif f < 0.5:
                n["doc"] = {"format": "int64"}
        elif k == "num":
            n["bits"] = 64
            f = rng.random()
            if f < 0.3:
                n["bits"] = 32
                n["doc"] = {"format": "float"}
            elif f < 0.5:
                n["doc"] = {"format": "double"}
        if role in ("prop", "item", "addl", "header", "payload") and rng.random() < self.ext:
            self.custom(n)
        elif role in ("prop", "header") and rng.random() < self.constraints:
            self.constrain(n)
        if rng.random() < 0.15 and "c" not in n:  # Those that have no effect
            d = n.setdefault("doc", {})
            if k == "str":
                d["pattern"] = rng.choice(["^.*$", "^[^z]*$"])
                if not n.get("fmt"):
                    d.update(rng.choice([{}, {"enum": ["a", 1, None]}, {"const": 3}, {"minLength": 0}]))
            elif k == "num":
                d.update(rng.choice([{"default": 1.5}, {"multipleOf": 0.5}, {"enum": [1, 2.5]}]))
            elif k == "int":
                d.update(rng.choice([{"multipleOf": 3}, {"enum": [1, 2]}, {"const": 5}, {"examples": [1, 2]}]))
            elif k == "bool":
                d.update(rng.choice([{"const": True}, {"enum": [True]}, {"default": False}]))
        return n

    def custom(self, n):
        """Gives a custom Go type."""
        rng = self.rng
        if rng.random() < 0.3:
            n["ext"] = {"x-omitempty": rng.random() < 0.5}
            return
        if n.get("fmt") or n["bits" if "bits" in n else "k"] == 32:
            return
        builtin = {"int": "int64", "num": "float64", "bool": "bool", "str": "string"}[n["k"]]
        name = {"int": "Count", "num": "Ratio", "bool": "Flag", "str": "Text"}[n["k"]]
        x = rng.random()
        if x < 0.3:
            n["ext"], n["go"] = {"x-go-type": builtin}, builtin
            return
        path = rng.choice(sorted(self.imports))
        alias = self.imports[path]
        imp = {"path": path}
        if alias:
            imp["name"] = alias
        n["ext"] = {"x-go-type": "%s.%s" % (alias or path.split("/")[-1], name), "x-go-type-import": imp}
        n["go"] = path + "." + name

    def constrain(self, n):
        rng = self.rng
        c = {}
        if n["k"] == "str":
            if n.get("fmt"):
                return
            x = rng.random()
            if x < 0.3:
                vals = rng.sample(TEXTS, rng.randint(1, 4))
                c["enum"] = vals
                if rng.random() < 0.3:
                    c["minLength"] = 2
            elif x < 0.45:
                c["const"] = rng.choice(TEXTS)
            else:
                if rng.random() < 0.7:
                    c["minLength"] = rng.randint(1, 4)
                if rng.random() < 0.7:
                    c["maxLength"] = rng.randint(4, 8)
                elif rng.random() < 0.1 and not c:
                    c["maxLength"] = 0
        elif n["k"] in ("int", "num"):
            big = rng.random() < 0.15 and n["bits"] == 64

            def bound(lo, hi):
                if big:
                    v = rng.choice([-1, 1]) * rng.randint(1000000, 1 << 50)
                    lo = v
                    return v
                v = 0 if rng.random() < 0.2 else rng.randint(lo, hi)
                if n["k"] == "num" and rng.random() < 0.5:
                    v += rng.choice([0.5, 0.25, 0.125])
                return v
            lo = bound(-50, -1) if rng.random() < 0.5 else bound(1, 40)
            hi = 0 if lo < 0 and rng.random() < 0.3 else lo + rng.randint(1, 60)
            if rng.random() < 0.7:
                c[rng.choice(["minimum", "exclusiveMinimum"])] = lo
            if rng.random() < 0.7:
                c[rng.choice(["maximum", "exclusiveMaximum"])] = hi
            if rng.random() < 0.1:
                c["minimum"], c["exclusiveMinimum"] = lo, lo + rng.choice([-1, 0, 1])
            if rng.random() < 0.1:
                c["maximum"], c["exclusiveMaximum"] = hi, hi + rng.choice([-1, 0, 1])
        if c:
            n["c"] = c

    def node(self, depth, role):
        rng = self.rng
        if self.pool and rng.random() < 0.15:
            n = rng.choice(self.pool)
            if not (role != "prop" and n.get("c")) and depth >= n.get("d", 0):
                return n
        if self.ready and rng.random() < 0.15:
            return {"k": "ref", "to": rng.choice(self.ready)}
        x = rng.random()
        if depth <= 0 or x < 0.55:
            n = self.scalar(role)
        elif x < 0.8:
            n = self.obj(depth - 1)
        else:
            n = self.arr(depth - 1, role)
        n["id"] = self.number()
        n["d"] = depth
        if rng.random() < 0.4:
            self.pool.append(n)
        return n

    def arr(self, depth, role="prop"):
        n = {"k": "arr", "items": self.node(depth, "item")}
        n["id"] = self.number()
        it = n["items"]
        if role == "prop" and self.rng.random() < self.constraints and it["k"] in ("str", "int", "bool") and not it.get("fmt"):
            n["c"] = {"uniqueItems": True}
        elif self.rng.random() < 0.1:
            n["doc"] = self.rng.choice([{"minItems": 2}, {"maxItems": 3}, {"uniqueItems": False}])
        return n

    def obj(self, depth, rec=None, nprops=None, header=False):
        rng = self.rng
        n = {"k": "obj", "id": self.number(), "props": []}
        used = set()
        for _ in range(nprops if nprops is not None else rng.choice([1, 2, 2, 3, 3, 4, 5])):
            role = "header" if header else "prop"
            t = self.node(depth, role)
            req = rng.random() < 0.45
            name = self.propname(used, t["k"] in ("obj", "arr"), header)
            n["props"].append({"n": name, "req": req, "t": t})
        if rec and rng.random() < 0.8:
            t = {"k": "ref", "to": rec}
            if rng.random() < 0.5:
                t = {"k": "arr", "items": t, "id": self.number()}
            n["props"].append({"n": self.propname(used, True), "req": False, "t": t})
        if not header and rng.random() < 0.25:
            n["addl"] = self.node(min(depth, 1), "addl")
            n["addl"].pop("c", None)
            if rng.random() < 0.2:
                n["props"] = []
        return n

    # --- operations ----------------------------------------------------------
    def op(self, i):
        rng = self.rng
        o = {"name": "op%d" % i, "sender": rng.choice(["User", "App"]), "msg": "msg%d" % i}
        # Address
        addr, params, used = [], [], set()
        for j in range(rng.randint(1, 4)):
            if rng.random() < 0.3 and len(params) < 2:
                p = rng.choice(["user", "id", "room", "tenant"]) + rng.choice(["", "Id", "_id", "-x"])
                if namify(p) in used:
                    continue
                used.add(namify(p))
                params.append(p)
                addr.append({"p": p})
            else:
                addr.append({"l": rng.choice(["a", "orders", "v1", "x-y", "été", "a_b", "off50%", "%d", "A%s"]) + "%d" % (i * 10 + j)})
        if not any("l" in a for a in addr):
            addr.append({"l": "only%d" % i})
        if params and rng.random() < 0.15:  # The same one again
            addr.insert(rng.randint(0, len(addr)), {"p": rng.choice(params)})
        sep = rng.choice([".", "/", "-", "::"])
        # Names of v2 channels are their address without what is between the first and last parameter
        if "p" in addr[0] and "p" in addr[-1]:
            addr.insert(rng.choice([0, len(addr)]), {"l": "z%d" % i})
        o["addr"], o["sep"], o["params"] = addr, sep, params
        types = random.Random(repr((addr, sep)))
        o["ptypes"] = [types.choice(["string", "string", "string", "integer", "int32", "boolean", "number"]) for _ in params]
        # Messages
        x = rng.random()
        if x < 0.55:
            o["payload"] = self.obj(2, nprops=rng.randint(1, 7))
        elif x < 0.62 and self.ready:
            o["payload"] = {"k": "ref", "to": rng.choice(self.ready)}
        elif x < 0.75:
            o["payload"] = self.arr(2, "payload")
        else:
            o["payload"] = self.scalar("payload")
        if "id" not in o["payload"] and o["payload"]["k"] != "ref":
            o["payload"]["id"] = self.number()
        if self.with_headers and rng.random() < 0.6:
            o["headers"] = self.obj(1, nprops=rng.randint(1, 5), header=True)
        # Correlation ID
        x = rng.random()
        where = None
        if x < 0.3:
            where = "header"
            if "headers" not in o:
                o["headers"] = {"k": "obj", "props": [], "id": self.number()}
        elif x < 0.4 and o["payload"]["k"] == "obj":
            where = "payload"
        if where:
            o["corr"] = self.location(o, where, ["correlationId"] if self.plain else
                                      ["correlationId", "correlationId", "correlation-id", "corr.id", "corr/id", "corr~id", "header", "corr_ID"], True)
        if self.requests and rng.random() < self.requests and i < 1000:
            self.reply(i, o)
        return o

    def location(self, o, where, names, undeclared=False):
        """Makes a text at some place of the message."""
        rng = self.rng
        node, path = o["headers"] if where == "header" else o["payload"], []
        # Inside other objects
        while len(path) < 2 and rng.random() < 0.3:
            mid = self.obj(0, nprops=rng.randint(0, 2))
            mid.pop("addl", None)
            name = self.freename(node, ["meta", "context", "header"])
            node["props"].append({"n": name, "req": rng.random() < 0.4, "t": mid, "corr": True})
            path.append(name)
            node = mid
        name = self.freename(node, names)
        req = rng.random() < 0.3
        missing = undeclared and not path and not req and rng.random() < 0.4
        node["props"].append({"n": name, "req": req, "t": {"k": "str", "id": self.number()}, "corr": True, "undeclared": missing})
        return {"where": where, "path": path + [name]}

    def reply(self, i, o):
        """Makes a request of the operation. NOTE: the channel of a reply can't have parameters (see known_findings.txt)."""
        rng = self.rng
        r = o["reply"] = self.op(1000 + i)
        r["sender"] = "App" if o["sender"] == "User" else "User"
        r["params"], r["ptypes"], r["addr"] = [], [], [{"l": "back%d" % i}]
        if rng.random() < 0.7 and ("corr" in o) != ("corr" in r):  # Most of the times, both are correlated
            for x in (o, r):
                if "corr" not in x:
                    if "headers" not in x:
                        x["headers"] = {"k": "obj", "props": [], "id": self.number()}
                    x["corr"] = self.location(x, "header", ["correlationId", "corr-id"])
        if rng.random() < 0.4:
            where = "payload" if o["payload"]["k"] == "obj" and rng.random() < 0.4 else "header"
            if where == "header" and "headers" not in o:
                o["headers"] = {"k": "obj", "props": [], "id": self.number()}
            o["dyn"] = self.location(o, where, ["replyTo", "reply-to", "reply.to", "reply/to", "ReplyTo", "header", "payload"])
        return o

    def freename(self, node, names):
        used = {namify(p["n"]) for p in node["props"]}
        name = self.rng.choice(names)
        if namify(name) in used:
            name = "corrKey%s" % (letters(self.number()).capitalize() if self.plain else self.number())
        return name

    def address(self, o):
        return o["sep"].join(a["l"] if "l" in a else "{%s}" % a["p"] for a in o["addr"])


class Style:
    """How a model is written."""

    def __init__(self, ref=0.3, chain=0.3, allof=0.25, anyof=0.1, message_ref=0.5, trait=0.2, param_ref=0.3, dep=None, channel_ref=0.2,
                 req_aside=0.3):
        self.ref, self.chain, self.allof, self.anyof = ref, chain, allof, anyof
        self.message_ref, self.trait, self.param_ref, self.channel_ref = message_ref, trait, param_ref, channel_ref
        self.req_aside = req_aside


INLINE = Style(0, 0, 0, 0, 0, 0, 0, None, 0, 0)
REFS = Style(ref=0.7, chain=0.5, allof=0, anyof=0, message_ref=1, trait=0, param_ref=1, channel_ref=0.5)
COMPOSED = Style(ref=0.4, chain=0.2, allof=0.6, anyof=0.3, message_ref=0.5, trait=0.5, param_ref=0.5)


def location(loc):
    return "$message.%s#/%s" % (loc["where"], "/".join(n.replace("~", "~0").replace("/", "~1") for n in loc["path"]))


class Renderer:
    """Writes a model as a document."""

    def __init__(self, model, version, rng, style):
        self.m, self.v, self.rng, self.st = model, version, rng, style
        self.schemas, self.messages, self.parameters, self.traits, self.channels, self.corrs = {}, {}, {}, {}, {}, {}
        self.replies, self.addresses = {}, {}
        self.bynode = {}
        self.paths = {}  # Of the nodes that are written inside a component

    def doc(self):
        m, rng = self.m, self.rng
        for name, n in m.types.items():
            self.schemas[name] = self.schema(n, top=True)
        channels, operations = {}, {}
        for i, o in enumerate(m.ops):
            msg = self.message(o)
            addr = m.address(o)
            params = {}
            for p, t in zip(o["params"], o["ptypes"]):
                d = {"description": "Parameter %s" % p}
                if self.v == 2:
                    d["schema"] = {"type": "integer", "format": "int32"} if t == "int32" else {"type": t}
                if rng.random() < self.st.param_ref:
                    key = "par%d%s" % (i, "".join(c for c in p if c.isalnum()))
                    self.parameters[key] = d
                    d = {"$ref": "#/components/parameters/" + key}
                params[p] = d
            if self.v == 2:
                ch = {("publish" if o["sender"] == "User" else "subscribe"): {"operationId": o["name"], "message": msg}}
                if params:
                    ch["parameters"] = params
                channels[addr] = ch
            else:
                key = "chan%d" % i
                ch = {"address": addr, "messages": {"content": msg}}
                if params:
                    ch["parameters"] = params
                if rng.random() < self.st.channel_ref:
                    self.channels["sharedChan%d" % i] = ch
                    ch = {"$ref": "#/components/channels/sharedChan%d" % i}
                channels[key] = ch
                op = {"action": "receive" if o["sender"] == "User" else "send", "channel": {"$ref": "#/channels/" + key}}
                x = rng.random()
                if x < 0.4:
                    where = ch.get("$ref", "#/channels/" + key)
                    op["messages"] = [{"$ref": where + "/messages/content"}]
                    if "$ref" not in ch and x < 0.25:
                        # Other messages on the channel, which this operation doesn't use
                        for n in rng.sample(["another", "bounced", "zebra"], rng.randint(1, 2)):
                            ch["messages"][n] = {"payload": {"type": "object", "properties": {"decoy": {"type": "string"}}}}
                if "reply" in o:
                    op["reply"] = self.reply(o, i, channels)
                operations[o["name"]] = op
        d = {"asyncapi": "3.0.0" if self.v == 3 else rng.choice(["2.6.0", "2.6.0", "2.5.0", "2.4.0", "2.0.0"]),
             "info": {"title": "Generated", "version": "1.2.3"}, "channels": channels}
        if self.v == 3:
            d["operations"] = operations
        comp = {}
        for k, x in (("schemas", self.schemas), ("messages", self.messages), ("parameters", self.parameters),
                     ("messageTraits", self.traits), ("channels", self.channels),
                     ("correlationIds", self.corrs), ("replies", self.replies), ("replyAddresses", self.addresses)):
            if x:
                items = list(x.items())
                rng.shuffle(items)
                comp[k] = dict(items)
        if comp:
            d["components"] = comp
        return d

    def reply(self, o, i, channels):
        rng, key = self.rng, "back%d" % i
        ch = {"address": self.m.address(o["reply"]), "messages": {"content": self.message(o["reply"])}}
        if "dyn" in o:
            ch["address"] = rng.choice(["", None])
            if rng.random() < 0.3:
                del ch["address"]
        r = {}
        if rng.random() < self.st.channel_ref:
            self.channels["shared" + key] = ch
            ch = {"$ref": "#/components/channels/shared" + key}
        channels[key] = ch
        r["channel"] = {"$ref": ch["$ref"] if "$ref" in ch and rng.random() < 0.3 else "#/channels/" + key}
        if "$ref" not in ch and rng.random() < 0.3:
            r["messages"] = [{"$ref": "#/channels/%s/messages/content" % key}]
            ch["messages"][rng.choice(["another", "zebra"])] = {"payload": {"type": "object", "properties": {"decoy": {"type": "string"}}}}
        if "dyn" in o:
            r["address"] = {"location": location(o["dyn"])}
            if rng.random() < 0.3:
                r["address"]["description"] = "Where"
            if rng.random() < self.st.param_ref:
                self.addresses["addr" + key] = r["address"]
                r["address"] = {"$ref": "#/components/replyAddresses/addr" + key}
        if rng.random() < self.st.param_ref:
            self.replies["rep" + key] = r
            r = {"$ref": "#/components/replies/rep" + key}
        return r

    # --- messages --------------------------------------------------------------
    def message(self, o):
        rng = self.rng
        msg = {"payload": self.schema(o["payload"])}
        if "headers" in o:
            h = o["headers"]
            undeclared = [p for p in h["props"] if p.get("undeclared")]
            if len(undeclared) < len(h["props"]):
                msg["headers"] = self.schema(h)
        if "corr" in o:
            corr = {"location": location(o["corr"])}
            if rng.random() < self.st.param_ref:
                key = "corr_" + o["name"]
                self.corrs[key] = corr
                if rng.random() < self.st.chain:
                    self.corrs[key + "Alias"] = {"$ref": "#/components/correlationIds/" + key}
                    key += "Alias"
                corr = {"$ref": "#/components/correlationIds/" + key}
            msg["correlationId"] = corr
        if rng.random() < 0.3:
            msg["description"] = "Message of %s\non two lines" % o["name"]
        # NOTE: the traits of AsyncAPI v2 are ignored by the generator
        if self.v == 3 and rng.random() < self.st.trait and "headers" in msg:
            traits = [{}]
            x = rng.random()
            if x < 0.45:
                traits[0]["headers"] = msg.pop("headers")
            elif x < 0.8:
                # The headers are given in parts
                traits += [{} for _ in range(rng.randint(0, 2))]
                parts = [[] for _ in range(len(traits) + 1)]
                for p in o["headers"]["props"]:
                    rng.choice(parts).append(p)
                for holder, props in zip([msg] + traits, parts):
                    holder.pop("headers", None)
                    if [p for p in props if not p.get("undeclared")]:
                        holder["headers"] = self.schema({"k": "obj", "props": props})
            if "correlationId" in msg and rng.random() < 0.6 and not self.undeclared(o):
                rng.choice(traits)["correlationId"] = msg.pop("correlationId")
            if any(traits):
                msg["traits"] = []
                for i, tr in enumerate(traits):
                    if rng.random() < 0.3:
                        tr["summary"] = "Trait %d" % i
                    if rng.random() < 0.6:
                        key = "trait%d%s" % (i, o["name"])
                        self.traits[key] = tr
                        if rng.random() < self.st.chain:
                            self.traits[key + "Alias"] = {"$ref": "#/components/messageTraits/" + key}
                            key += "Alias"
                        tr = {"$ref": "#/components/messageTraits/" + key}
                    msg["traits"].append(tr)
        if rng.random() < self.st.message_ref:
            key = o["msg"]
            self.messages[key] = msg
            ref = {"$ref": "#/components/messages/" + key}
            if rng.random() < self.st.chain * 0.3:
                self.messages[key + "Alias"] = ref
                ref = {"$ref": "#/components/messages/" + key + "Alias"}
            return ref
        return msg

    @staticmethod
    def undeclared(o):
        return any(p.get("undeclared") for n in (o.get("headers"), o["payload"]) if n for p in n.get("props", []))

    # --- schemas -----------------------------------------------------------------
    def schema(self, n, top=False, role=""):
        """Writes a node, by reference or not."""
        if n["k"] == "ref":
            return {"$ref": "#/components/schemas/" + n["to"]}
        if top:
            return self.inline(n)
        rng, nid = self.rng, n.get("id")
        if nid in self.paths and rng.random() < self.st.chain:
            return {"$ref": self.paths[nid]}
        if nid is not None and rng.random() < self.st.ref:
            if nid not in self.bynode:
                key = self.component(n)
                self.bynode[nid] = key
            key = self.bynode[nid]
            if rng.random() < self.st.chain:
                alias = "%sAlias%d" % (key, len(self.schemas))
                self.schemas[alias] = {"$ref": "#/components/schemas/" + key}
                key = alias
            return {"$ref": "#/components/schemas/" + key}
        return self.inline(n)

    def component(self, n):
        key = "comp%d" % n["id"]
        key = self.rng.choice([key, "Comp%d" % n["id"], "comp_%d" % n["id"], "comp-%d-x" % n["id"]])
        self.schemas[key] = None
        self.schemas[key] = self.inline(n)
        for p in n.get("props", []):
            x = self.schemas[key].get("properties", {}).get(p["n"])
            if x and "$ref" not in x and "id" in p["t"] and all(c.isalnum() and c.isascii() or c in "/_-" for c in p["n"]):
                self.paths[p["t"]["id"]] = "#/components/schemas/%s/properties/%s" % (key, p["n"].replace("/", "~1"))
        return key

    def inline(self, n):
        rng = self.rng
        k = n["k"]
        s = dict(n.get("doc", {}))
        s.update(copy.deepcopy(n.get("c", {})))
        s.update(n.get("ext", {}))
        if k == "str":
            s["type"] = "string"
            if n.get("fmt"):
                s["format"] = n["fmt"]
        elif k == "int":
            s["type"] = "integer"
        elif k == "num":
            s["type"] = "number"
        elif k == "bool":
            s["type"] = "boolean"
        elif k == "arr":
            s["type"] = "array"
            s["items"] = self.schema(n["items"], role="item")
        else:
            return self.object(n, s)
        if rng.random() < 0.1:
            s["description"] = "Some\ntext \"here\""
        return s

    def object(self, n, s):
        rng = self.rng
        props = [p for p in n["props"] if not p.get("undeclared")]
        composable = props and not n.get("addl")
        x = rng.random()
        if composable and x < self.st.allof:
            return self.allof(props, s, "allOf")
        if composable and x < self.st.allof + self.st.anyof and not any(p["req"] for p in props):
            return self.allof(props, s, rng.choice(["anyOf", "oneOf"]))
        s["type"] = "object"
        self.properties(props, s)
        if n.get("addl"):
            s["additionalProperties"] = self.schema(n["addl"], role="addl")
        elif rng.random() < 0.15:
            s["additionalProperties"] = rng.random() < 0.3  # Nothing is said on them
        if rng.random() < 0.1:
            s.update(rng.choice([{"propertyNames": {"type": "string"}}, {"minProperties": 0}, {"examples": [{}]}, {"x-other": 1}]))
        return s

    def properties(self, props, s, required=True):
        if props:
            items = list(props)
            self.rng.shuffle(items)
            s["properties"] = {p["n"]: self.schema(p["t"], role="prop") for p in items}
        req = [p["n"] for p in props if p["req"]]
        if req and required:
            s["required"] = req

    def allof(self, props, s, word):
        """Splits an object in parts."""
        rng = self.rng
        parts = [[] for _ in range(rng.randint(1, 3))]
        own = []
        for p in props:
            (own if rng.random() < 0.2 else rng.choice(parts)).append(p)
        parts = [p for p in parts if p] or [[]]
        aside = word == "allOf" and rng.random() < self.st.req_aside
        list_ = []
        for p in parts:
            part = {"type": "object"}
            self.properties(p, part, required=not aside)
            if rng.random() < self.st.ref:
                key = "part%d" % self.m.number()
                self.schemas[key] = part
                if rng.random() < self.st.chain:
                    self.schemas[key + "Alias"] = {"$ref": "#/components/schemas/" + key}
                    key += "Alias"
                part = {"$ref": "#/components/schemas/" + key}
            list_.append(part)
        s[word] = list_
        req = [p["n"] for p in props if p["req"]]
        if own:
            s["type"] = "object"
            self.properties(own, s)
        if aside and req:
            if rng.random() < 0.5:
                s["required"] = req
            else:
                list_.append({"type": "object", "required": [r for r in req if r not in s.get("required", [])]})
                if not list_[-1]["required"]:
                    list_.pop()
        elif rng.random() < 0.3:
            s["type"] = "object"
        return s


def split(doc, rng):
    """Moves a part of a document to another one, that it depends on: the types of the schemas
    are those of the components that have the same name in the main document."""
    doc = copy.deepcopy(doc)
    comp = doc.get("components", {})
    dep = {"asyncapi": doc["asyncapi"], "info": {"title": "Dependency", "version": "1.0.0"}, "channels": {},
           "components": {k: copy.deepcopy(comp[k]) for k in ("schemas", "parameters", "messageTraits", "correlationIds") if k in comp}}
    moved = {"#/components/%s/%s" % (k, n) for k in ("parameters", "messageTraits", "correlationIds") for n in comp.get(k, {}) if rng.random() < 0.5}

    def visit(x):
        if isinstance(x, list):
            for e in x:
                visit(e)
        elif isinstance(x, dict):
            r = x.get("$ref")
            if isinstance(r, str) and (r in moved or r.startswith("#/components/schemas/") and rng.random() < 0.5):
                x["$ref"] = "./dep.json" + r
            for e in x.values():
                visit(e)
    visit(doc)
    for r in moved:
        _, _, k, n = r.split("/")
        del comp[k][n]
    return doc, dep


def go_model(model, convert="none"):
    """What the monitors need to know of a model."""
    conv = CONVERT[convert]

    def prop(p):
        r = dict(n=p["n"], req=bool(p["req"]), t=clean(p["t"]))
        if conv:
            r["w"] = conv(model.words.get(p["n"]) or split_words(p["n"]))
        if p["t"].get("ext", {}).get("x-omitempty") is not None:
            r["omit"] = p["t"]["ext"]["x-omitempty"]
        return r
    def clean(n):
        if n is None:
            return None
        r = {"k": n["k"]}
        for k in ("fmt", "bits", "to", "c", "go"):
            if k in n:
                r[k] = n[k]
        if n["k"] == "obj":
            r["props"] = [prop(p) for p in n["props"]]
            if n.get("addl"):
                r["addl"] = clean(n["addl"])
        if n["k"] == "arr":
            r["items"] = clean(n["items"])
        return r

    def op(o):
        r = {
            "name": o["name"], "sender": o["sender"], "params": o["params"], "ptypes": o["ptypes"],
            "address": [a for a in o["addr"]], "sep": o["sep"],
            "payload": clean(o["payload"]), "headers": clean(o.get("headers")), "corr": o.get("corr"),
        }
        if "reply" in o:
            r["reply"], r["dyn"] = op(o["reply"]), o.get("dyn")
        return r
    return {"types": {k: clean(v) for k, v in model.types.items()}, "ops": [op(o) for o in model.ops]}
