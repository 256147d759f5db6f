"""What is run for each property."""
import concurrent.futures as futures
import copy
import glob
import json
import os
import random
import re

import gen
import robust
import static
import traits
from driver import NoAnswer, Run, Violation, VERIF, GO


class Spec:
    def __init__(self, run, rule, level="exploration", least=None, assumptions=(), technique="", note=""):
        self.run, self.rule, self.level = run, rule, level
        self.technique = technique or "runtime monitoring of the real code: randomized workload, online and offline trace oracles"
        self.note = note or ("Held on the executions that were run and monitored (see the evidence); nothing is claimed about "
                             "inputs and schedules that the workload does not reach.")
        self.least = least or {}
        self.assumptions = list(assumptions)


def generate_rt(run: Run, mod):
    """Generates the code of the documents of the runtime monitors."""
    for v in (2, 3):
        doc = os.path.join(VERIF, "harness", "specs", "rt%d.yaml" % v)
        out = os.path.join(mod, "gen", "rt%d" % v, "rt%d.gen.go" % v)
        p = run.generate(doc, out, "rt%d" % v)
        if p.returncode != 0 or not os.path.exists(out):
            raise Violation("generation", "generation of harness/specs/rt%d.yaml failed: %s" % (v, p.stderr[-2000:] + p.stdout[-2000:]))
        c = run.sh([GO, "build", "./gen/rt%d" % v], cwd=mod)
        if c.returncode != 0:
            run.check_repo()
            raise Violation("compilation", "the code generated for harness/specs/rt%d.yaml does not compile:\n%s" % (v, c.stderr[-3000:]))


def rt(race=False):
    def go(run: Run):
        run.cli()
        mod = run.module()
        generate_rt(run, mod)
        binary = run.path("rt")
        p = run.go_build(mod, "./cmd/rt", binary, race)
        if p.returncode != 0:
            run.check_repo()
            raise NoAnswer("the monitors do not compile:\n" + p.stderr[-3000:])
        run.shards(binary, run.prop, race=race)
    return go


def net(race=False):
    """The monitors of the controllers of the brokers."""
    def go(run: Run):
        mod = run.module()
        binary = run.path("net")
        p = run.go_build(mod, "./cmd/net", binary, race)
        if p.returncode != 0:
            run.check_repo()
            raise NoAnswer("the monitors do not compile:\n" + p.stderr[-3000:])
        run.shards(binary, run.prop, race=race)
    return go


QUIET = ("a wait is declared stuck only when every goroutine of the process is blocked and stays so; "
         "executions that cannot be decided in time are inconclusive, not violations")
SYNTH = "the broker is an instrumented in-memory implementation of the public broker interface"

NOT_APPLICABLE = {}

PROPS = {
    "C01": Spec(rt(), "random scenarios of subscriptions, transmissions and cancellations on the controllers generated from two "
                "documents (v2, v3), with perturbed schedules; distinct by operations, capacities and observed event order",
                assumptions=[SYNTH, QUIET]),
    "C02": Spec(rt(), "random scenarios of received messages with outcomes chosen among success, handler error, middleware error, malformed "
                "content, panic and settlement by the error handler; distinct by operation and outcome sequence", assumptions=[SYNTH, QUIET]),
    "C03": Spec(rt(), "random scripts of middlewares (call next 0 to 2 times, modify message and context, fail) on publications, "
                "receptions and replies; distinct by scripts and operation", assumptions=[SYNTH, QUIET]),
    "C04": Spec(rt(), "contexts seen by middlewares, handlers, error handlers, loggers and broker for random messages; distinct by "
                "operation and outcome", assumptions=[SYNTH, QUIET]),
    "C06": Spec(rt(), "every way a request can end (fault points before, during and after subscription, publication and reception) for "
                "random operations and noise; distinct by operation, fault, noise and cause", level="fault_enumeration",
                assumptions=[SYNTH, QUIET]),
    "C07": Spec(rt(), "random histories of subscribe, unsubscribe, close, failures and broker-side ends against a model of the "
                "subscriptions; distinct by sequence of actions", assumptions=[SYNTH, QUIET]),
    "C08": Spec(rt(race=True), technique="Go race detector and deadlock/leak monitors over a concurrent stress workload", rule="random operations from many goroutines on shared controllers, wrapper and subscriptions under the Go race "
                "detector; distinct by counts of observed subscriptions and messages", assumptions=[SYNTH, QUIET]),
    "C09": Spec(rt(), "random histories of subscriptions, publications and receptions of several versions through the wrapper against "
                "a model; distinct by sequence of actions and configuration", assumptions=[SYNTH, QUIET]),
    "C10": Spec(rt(), "one subscription with a transmitter, a receiver and several cancellers in random schedules, and sequences of "
                "settlements; distinct by configuration and received sequence", assumptions=[QUIET]),
}
PROPS["C23"] = Spec(rt(race=True), "random calls of the loggers whose output is captured and parsed, alone and from many goroutines under the race "
                    "detector; bundled middlewares and error handlers called directly and in controllers with failing and panicking handlers and "
                    "publications; distinct by logger, level, context, hostile keys and sequence of outcomes",
                    technique="output and trace oracles over captured logs and executions, under the Go race detector",
                    assumptions=[SYNTH, QUIET])


# --- Random documents ---------------------------------------------------------

REG = """// Package reg lists the generated packages.
package reg

import (
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
%s)

// New creates a controller.
type New func(bc extensions.BrokerController, eh extensions.ErrorHandler) (any, error)

// Entry of a package.
type Entry struct{ App, User New }

// All the packages.
var All = map[string]Entry{
%s}
"""


def write_registry(mod, packages):
    imports, entries = "", ""
    for name, path in packages:
        src = "".join(open(f, encoding="utf-8").read() for f in sorted(glob.glob(os.path.join(os.path.dirname(path), "*.gen.go"))))
        e = ""
        for side in ("App", "User"):
            if re.search(r"(?m)^func New%sController\(" % side, src):
                e += ("\t\t%s: func(bc extensions.BrokerController, eh extensions.ErrorHandler) (any, error) {\n"
                      "\t\t\treturn %s.New%sController(bc, %s.WithErrorHandler(eh))\n\t\t},\n" % (side, name, side, name))
        if e:
            imports += '\t"verif/gen/%s"\n' % name
            entries += '\t"%s": {\n%s\t},\n' % (name, e)
    os.makedirs(os.path.join(mod, "gen", "reg"), exist_ok=True)
    with open(os.path.join(mod, "gen", "reg", "reg.go"), "w") as f:
        f.write(REG % (imports, entries))


def generate_docs(run, mod, docs, parallel=8, probes=None):
    """Generates and compiles packages: docs is a list of (package, document, flags). Returns
    the ones that are usable; the failures are violations. The probes are the documents of the
    known findings: {package: (identifier, expression of all the lines of the failure)}."""
    def one(d):
        name, doc, flags = d[0], d[1], d[2]
        dst = os.path.join(mod, "gen", name)
        os.makedirs(dst)
        inputs = [name + ".json"]
        with open(os.path.join(dst, inputs[0]), "w") as f:
            json.dump(doc, f)
        for other, content in (d[3] if len(d) > 3 else {}).items():
            inputs.append("./" + other)
            with open(os.path.join(dst, other), "w") as f:
                json.dump(content, f)
        out = os.path.join(dst, name + ".gen.go")
        if flags and flags[0] == "PARTS":
            flags = flags[1:]
            for part in ("application", "user"):
                p = run.generate(inputs, os.path.join(dst, part + ".gen.go"), name, "-g", part, *flags, cwd=dst)
                if p.returncode != 0:
                    return name, "generation", p.stderr[:1500]
            flags = ["-g", "types"] + flags
        p = run.generate(inputs, out, name, *flags, cwd=dst)
        if p.returncode != 0 or not os.path.exists(out):
            return name, "generation", re.sub(r"(?s)Usage:.*?\n\nError: ", "Error: ", p.stderr)[:1500] + p.stdout[-500:]
        return name, None, out
    bad, good = {}, []
    with futures.ThreadPoolExecutor(parallel) as ex:
        for name, kind, text in ex.map(one, docs):
            run.observed["documents"] += 1
            if kind:
                bad[name] = (kind, text)
            else:
                good.append((name, text))
    p = run.sh([GO, "build", "./gen/..."], cwd=mod, timeout=1500)
    if p.returncode != 0:
        run.check_repo()
        cur, errs = None, {}
        for line in p.stderr.splitlines():
            m = re.match(r"# verif/gen/(\S+)", line)
            if m:
                cur = m.group(1)
                continue
            if cur:
                errs.setdefault(cur, []).append(line)
        if not errs:
            raise NoAnswer("the generated packages do not build:\n" + p.stderr[-3000:])
        for name, lines in errs.items():
            bad[name] = ("compilation", "\n".join(lines[:10]))
    byname = {d[0]: d for d in docs}
    for name, (kind, text) in sorted(bad.items()):
        if run.only and not run.only.startswith(name):
            continue
        d = byname[name]
        finding, expected = (probes or {}).get(name, (None, ""))
        if finding and not (kind == "compilation" and all(re.search(expected, x) for x in text.splitlines())):
            finding = None
        run.violate(kind, "%s of %s (flags %s): %s" % (kind, name, " ".join(d[2]), text), scenario=name, witness=d[1], finding=finding)
    return [(n, o) for n, o in good if n not in bad]


def run_gen(run, docs, cases, extra_docs=()):
    """Generates the documents, and runs the monitor of the property on them."""
    if run.only and not docs:
        return
    run.cli()
    mod = run.module("godocs")
    usable = generate_docs(run, mod, list(docs))
    names = {n for n, _ in usable}
    write_registry(mod, usable)
    cases = [c for c in cases if c["pkg"] in names and (not c.get("pair") or c["pair"] in names)]
    path = run.path("cases.json")
    with open(path, "w") as f:
        json.dump(cases, f)
    binary = run.path("genmon")
    p = run.go_build(mod, "./cmd/docs", binary)
    if p.returncode != 0:
        run.check_repo()
        raise NoAnswer("the monitors do not compile:\n" + p.stderr[-3000:])
    run.shards(binary, run.prop, extra=["-args", path])


def random_docs(quick, thorough, styles=None, options=None, **model):
    """Random documents, with each style and each (flags, what the case says of them) in turn."""
    def go(run):
        docs, cases = [], []
        n = thorough if run.thorough else quick
        for i in range(n):
            name = "p%d" % i
            if run.only and run.only.split("/")[0] != name:
                continue
            rng = random.Random("%s/%s/%s" % (run.prop, run.seed, i))
            m = gen.Model(rng, **model)
            v = 2 if i % 2 else 3
            st = (styles or [gen.Style()])[i // 2 % len(styles or [0])]
            doc = gen.Renderer(m, v, rng, st).doc()
            flags, extra = (options or [([], {})])[i // 2 // len(styles or [0]) % len(options or [0])]
            docs.append((name, doc, flags))
            cases.append(dict(gen.go_model(m), name=name, pkg=name, version=v, **extra))
        run_gen(run, docs, cases)
    return go


FORCE = [([], {}), (["--force-pointers"], {"force": True})]
STYLES = [gen.Style(), gen.COMPOSED, gen.REFS, gen.INLINE]
EXECUTED = "the documents stay in the supported subset described in DESIGN.md"
PROPS["C05"] = Spec(static.both(rt(), random_docs(160, 1600, STYLES, FORCE + [(["-n", "camel"], {}), (["--ignore-string-format"], {"nodates": True})], requests=0.7, constraints=0)), "concurrent requests on shared reply channels with foreign, "
                    "malformed and duplicated replies in any order, distinct by operations and by the assignment of replies to requests; requests "
                    "and replies of random documents (locations of the correlation ID and of the reply address, references, traits), distinct by "
                    "operation and shape of the reply", assumptions=[SYNTH, QUIET, EXECUTED])
PROPS["C14"] = Spec(random_docs(400, 2400, STYLES), "random values of the messages of random documents, sent by one generated controller and received by the "
                    "other; distinct by operation and shape of the value", assumptions=[SYNTH, EXECUTED])
PROPS["C15"] = Spec(random_docs(400, 2400, STYLES), "mutated payloads and headers (wrong types, truncations, flips, bad dates, out of range numbers, missing and "
                    "unknown keys) given to the controllers generated from random documents, against an independent decoder; distinct by "
                    "operation, shape and mutation", assumptions=[SYNTH, EXECUTED])
PROPS["C16"] = Spec(random_docs(400, 2400, STYLES), "bytes published for random values of random documents against an independent strict decoder, and random "
                    "encodings of instances received and sent again; distinct by operation and shape of the value", assumptions=[SYNTH, EXECUTED])

PROPS["C17"] = Spec(random_docs(400, 2400, STYLES, FORCE, constraints=0.75), "values around the limits of the constraints of random documents "
                    "(half with forced pointers), whose set of rejected properties is compared with what the schemas say; distinct by operation, "
                    "shape and violated constraints", assumptions=[EXECUTED, "the validator is the version of go-playground/validator of the repository"])


def pairs(quick, thorough):
    def go(run):
        docs, cases = [], []
        n = thorough if run.thorough else quick
        for i in range(n):
            a, b = "p%da" % i, "p%db" % i
            if run.only and run.only.split("/")[0] not in (a, b):
                continue
            rng = random.Random("%s/%s/%s" % (run.prop, run.seed, i))
            m = gen.Model(rng, constraints=0.5)
            v = 2 if i % 2 else 3
            flags, extra = FORCE[1 if i % 10 > 7 else 0]
            deps = {}
            dep = i // 2 % 5 > 2
            for o in m.ops if dep else ():
                for p in o["payload"].get("props", []) + o.get("headers", {}).get("props", []):
                    p["undeclared"] = False  # The types are the ones of this document, not of the dependency
            docs.append((a, gen.Renderer(m, v, rng, gen.INLINE).doc(), flags))
            doc = gen.Renderer(m, v, rng, [gen.REFS, gen.COMPOSED, gen.Style(), gen.REFS, gen.COMPOSED][i // 2 % 5]).doc()
            if dep:
                doc, deps["dep.json"] = gen.split(doc, rng)
                run.observed["dependencies"] += 1
            docs.append((b, doc, flags, deps))
            cases.append(dict(gen.go_model(m), name=a, pkg=a, version=v, pair=b, **extra))
        run_gen(run, docs, cases)
    return go


PROPS["C20"] = Spec(static.both(pairs(240, 1600), traits.spec_traits(600, 20000)), "pairs of renderings of the same random model, one inline and the other with references (through references, through "
                    "a dependency), compositions and traits: what both packages send, receive and validate for the same random values and mutated "
                    "bytes is compared; distinct by operation and shape of the value", assumptions=[SYNTH, EXECUTED],
                    technique="runtime monitoring of the real code: differential oracle between the executions of two generated packages")


# --- Options and extensions -----------------------------------------------------

# Flags, what the case says of them, options of the model, conversion of the keys
OPTIONS = [
    ([], {}, {}, "none"),
    (["--force-pointers"], {"force": True}, {}, "none"),
    (["-c", "snake"], {}, {"plain_names": True}, "snake"),
    (["-c", "kebab"], {}, {"plain_names": True}, "kebab"),
    (["-c", "camel"], {}, {"plain_names": True}, "camel"),
    (["-c", "none"], {}, {}, "none"),
    (["-n", "camel"], {}, {"plain_names": True}, "none"),
    (["-n", "none"], {}, {}, "none"),
    (["--ignore-string-format"], {"nodates": True}, {}, "none"),
    ([], {}, {"ext": 0.5}, "none"),
    (["-c", "snake", "--force-pointers", "-n", "camel", "--ignore-string-format"], {"force": True, "nodates": True},
     {"plain_names": True, "ext": 0.3}, "snake"),
    (["-c", "camel", "-n", "camel"], {}, {"plain_names": True, "ext": 0.3}, "camel"),
    (["PARTS"], {}, {"ext": 0.1}, "none"),
    (["PARTS", "-c", "kebab"], {}, {"plain_names": True}, "kebab"),
    (["--force-pointers", "--ignore-string-format"], {"force": True, "nodates": True}, {"ext": 0.3}, "none"),
]


def options_docs(quick, thorough):
    def go(run):
        docs, cases = [], []
        for i in range(thorough if run.thorough else quick):
            name = "p%d" % i
            if run.only and run.only.split("/")[0] != name:
                continue
            rng = random.Random("%s/%s/%s" % (run.prop, run.seed, i))
            flags, extra, model, convert = OPTIONS[i // 2 % len(OPTIONS)]
            m = gen.Model(rng, **model)
            v = 2 if i % 2 else 3
            doc = gen.Renderer(m, v, rng, STYLES[i // 2 // len(OPTIONS) % len(STYLES)]).doc()
            docs.append((name, doc, flags))
            cases.append(dict(gen.go_model(m, convert), name=name, pkg=name, version=v, **extra))
        run_gen(run, docs, cases)
        if not run.only:
            for i in range(200 if run.thorough else 24):
                outputs(run, random.Random("%s/%s/outputs/%s" % (run.prop, run.seed, i)), i)
            for i in range(600 if run.thorough else 80):
                import_names(run, random.Random("%s/%s/imports/%s" % (run.prop, run.seed, i)), i)
        if not run.only or run.only.startswith("customs"):
            custom_types(run, 800 if run.thorough else 256)
    return go


def import_names(run, rng, i):
    """The same package imported with two names: refused, or imported with both."""
    def custom(name):
        n = {"type": "string", "x-go-type": name + ".Text", "x-go-type-import": {"path": "verif/ext", "name": name}}
        for _ in range(rng.randint(0, 3)):
            n = rng.choice([lambda: {"type": "object", "properties": {"in": n, "z": {"type": "string"}}}, lambda: {"type": "array", "items": n},
                            lambda: {"type": "object", "properties": {"z": {"type": "string"}}, "additionalProperties": n}])()
        return {"type": "object", "properties": {"a": {"type": "string"}, rng.choice("ABbz"): n}}
    v = 2 + i % 2
    msg = {k: {"payload": {"type": "object", "properties": {"x": {"type": "string"}}}} for k in ("M", "N", "C")}
    schemas = {"S": {"type": "object", "properties": {"y": {"type": "string"}}}}
    for name, place in zip(("one", "two"), rng.sample([(k, w) for k in msg for w in ("payload", "headers")] + [("S", "")], 2)):
        if place[0] == "S":
            schemas["S"] = custom(name)
        else:
            msg[place[0]][place[1]] = custom(name)
    doc = {"asyncapi": "2.6.0" if v == 2 else "3.0.0", "info": {"title": "t", "version": "1"},
           "components": {"messages": {"C": msg["C"]}, "schemas": schemas}}
    if v == 2:
        doc["channels"] = {k.lower(): {rng.choice(["publish", "subscribe"]): {"message": msg[k]}} for k in "MN"}
    else:
        doc["channels"] = {k.lower(): {"address": k, "messages": {k: msg[k]}} for k in "MN"}
        doc["operations"] = {"op" + k: {"action": rng.choice(["send", "receive"]), "channel": {"$ref": "#/channels/" + k.lower()}} for k in "MN"}
    d = run.path("imports", str(i))
    os.makedirs(d)
    with open(os.path.join(d, "doc.json"), "w") as f:
        json.dump(doc, f)
    out = os.path.join(d, "out.go")
    p = run.generate(os.path.join(d, "doc.json"), out, "p")
    if p.returncode == 0:
        with open(out, encoding="utf-8") as f:
            text = f.read()
        lost = [n for n in ("one", "two") if n + ".Text" in text and not re.search(r'(?m)^\s*(import )?%s "verif/ext"' % n, text)]
        if lost:
            run.violate("imports", "a package is imported with two names: the document is accepted, but the import of %s is lost" % lost[0],
                        scenario="imports/%d" % i, witness=doc)
    run.observed["import_conflicts"] += 1
    run.observed["import_conflicts_refused"] += p.returncode != 0


# Types of x-go-type: type, package, name of the package
CUSTOMS = [("uint8", "", ""), ("[]string", "", ""), ("map[string]any", "", ""), ("ext.Text", "verif/ext", ""), ("time.Duration", "time", ""),
           ("time.Time", "time", ""), ("dur.Duration", "time", "dur"), ("json.RawMessage", "encoding/json", ""), ("url.URL", "net/url", ""),
           ("big.Int", "math/big", ""), ("uuid.UUID", "github.com/google/uuid", ""), ("civil.Date", "cloud.google.com/go/civil", ""),
           ("custom.Count", "verif/ext", "custom"), ("json.Number", "encoding/json", "json"), ("uuid.Domain", "github.com/google/uuid", "uuid"), ("js.Number", "encoding/json", "js")]

CUSTOM_MAIN = """package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

%s)

// Step of the way to a type: a key, an item or the value of an additional property.
func step(t reflect.Type, s string) reflect.Type {
	for t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	switch {
	case t == nil:
		return nil
	case s == "[]":
		if t.Kind() == reflect.Slice {
			return t.Elem()
		}
		return nil
	case t.Kind() != reflect.Struct:
		return nil
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if s == "{}" && f.Name == "AdditionalProperties" && f.Type.Kind() == reflect.Map {
			return f.Type.Elem()
		}
		if s != "" && s[0] >= 'A' && s[0] <= 'Z' && f.Name == s || s != "{}" && strings.Split(f.Tag.Get("json"), ",")[0] == s {
			return f.Type
		}
	}
	return nil
}

func check(name string, t, want reflect.Type, way ...string) {
	for _, s := range way {
		t = step(t, s)
	}
	for t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	got := fmt.Sprint(t)
	if t != nil && t != want {
		got = fmt.Sprint(t, " (", t.Kind(), ")")
	}
	b, _ := json.Marshal(map[string]any{"name": name, "way": strings.Join(way, "/"), "want": fmt.Sprint(want), "got": got,
		"ok": t != nil && t.Kind() == want.Kind() && t.ConvertibleTo(want)})
	fmt.Println(string(b))
}

func main() {
%s}
"""


def custom_types(run, n):
    """The Go types generated for schemas with a custom type, wherever they are and whatever they are."""
    mod = run.module("customs")
    docs = {}
    for i in range(n):
        name = "xt%d" % i
        rng = random.Random("%s/%s/customs/%s" % (run.prop, run.seed, i))
        names = {}  # Package -> its only name in the document
        schemas, checks = {}, []

        def custom():
            usable = [c for c in CUSTOMS if names.get(c[1], c[2]) == c[2]]
            t, path, alias = rng.choice(rng.choice([usable, usable, usable[:3]]))
            node = {"x-go-type": t}
            if path:
                names[path] = alias
                node["x-go-type-import"] = dict({"path": path}, **({"name": alias} if alias else {}))
            base = rng.choice([
                {"type": "string"}, {"type": "string", "format": "date"}, {"type": "string", "format": "date-time"}, {"type": "integer"},
                {"type": "number"}, {"type": "boolean"}, {"type": "array", "items": {"type": "string"}},
                {"type": "array", "items": {"type": "object", "properties": {"in": {"type": "string"}}}},
                {"type": "object", "properties": {"in": {"type": "string"}}}, {"type": "object"}, {"type": "object", "properties": {"in": {"type": "string"}}},
                {"type": "object", "properties": {"in": {"type": "object", "properties": {"deep": {"type": "integer"}}}}, "required": ["in"]},
                {"type": "object", "properties": {"in": {"type": "string"}}, "additionalProperties": {"type": "integer"}}])
            if "properties" in base and rng.random() < 0.6:  # The definitions of what it has do not matter
                deep, _ = custom()
                base = copy.deepcopy(base)
                base["properties"]["in"] = rng.choice([deep, {"type": "object", "properties": {"deep": deep}}])
            return dict(base, **node), (t, path, alias)

        def place(depth):
            """A schema that holds one with a custom type -> schema, way, type."""
            k = rng.choice(["custom", "custom", "ref", "ref", "object", "array", "additional", "all"]) if depth < 3 else "custom"
            if k == "custom":
                node, t = custom()
                return node, [], t
            node, way, t = place(depth + 1)
            if k == "ref":
                key = "S%d" % len(schemas)
                schemas[key] = node
                return {"$ref": "#/components/schemas/" + key}, way, t
            if k == "array":
                return {"type": "array", "items": node}, ["[]"] + way, t
            if k == "all":
                parts = [{"type": "object", "properties": {"o": node}}, {"type": "object", "properties": {"z": {"type": "string"}}}]
                if rng.random() < 0.5:
                    key = "S%d" % len(schemas)
                    schemas[key] = parts[0]
                    parts[0] = {"$ref": "#/components/schemas/" + key}
                return {"type": "object", rng.choice(["allOf", "allOf", "anyOf", "oneOf"]): rng.sample(parts, 2)}, ["o"] + way, t
            if k == "additional":
                return {"type": "object", "properties": {"z": {"type": "string"}}, "additionalProperties": node}, ["{}"] + way, t
            return {"type": "object", "properties": {"o": node, "z": {"type": "string"}}, "required": rng.choice([["o"], ["z"]])}, ["o"] + way, t
        props = {}
        for j in range(rng.randint(1, 5)):
            key = "k%d" % j
            props[key], way, t = place(0)
            checks.append((["Payload", key] + way, t))
        v = 2 + i % 2
        msg = {"payload": {"type": "object", "properties": props, "required": rng.sample(list(props), rng.randint(0, len(props)))}}
        if rng.random() < 0.2:  # The payload itself (that only converts to any type when it is JSON)
            node, t = custom()
            while node["type"] not in ("object", "array"):
                node, t = custom()
            for _ in range(rng.randint(0, 2)):
                key = "S%d" % len(schemas)
                schemas[key] = node
                node = {"$ref": "#/components/schemas/" + key}
            msg["payload"], checks = node, [(["Payload"], t)]
        doc = {"asyncapi": "2.6.0" if v == 2 else "3.0.0", "info": {"title": "t", "version": "1"},
               "components": {"messages": {"Em": msg}, "schemas": schemas}}
        ref = {"$ref": "#/components/messages/Em"}
        if v == 2:
            params = {}
            for j in range(rng.choice([0, 0, 1, 2])):
                node, t = custom()
                params["p%d" % j] = {"schema": node}
                if rng.random() < 0.5:
                    doc["components"].setdefault("parameters", {})["q%d" % j] = params["p%d" % j]
                    params["p%d" % j] = {"$ref": "#/components/parameters/q%d" % j}
                checks.append((["P%d" % j], t))
            doc["channels"] = {".".join(["c"] + ["{%s}" % x for x in params]): {"publish": {"message": ref}}}
            if params:
                list(doc["channels"].values())[0]["parameters"] = params
        else:
            doc["channels"] = {"c": {"address": "c", "messages": {"Em": ref}}}
            doc["operations"] = {"op": {"action": "receive", "channel": {"$ref": "#/channels/c"}}}
        docs[name] = (doc, checks)
    if run.only and run.only != "customs":
        docs = {k: d for k, d in docs.items() if run.only.endswith("/" + k)}
    text = {}

    def produce(name):
        path = os.path.join(mod, "gen", name, "doc.json")
        os.makedirs(os.path.dirname(path))
        with open(path, "w") as f:
            json.dump(docs[name][0], f)
        return name, run.generate(path, os.path.join(mod, "gen", name, "out.go"), name)
    with futures.ThreadPoolExecutor(run.cores) as pool:
        for name, p in pool.map(produce, docs):
            if p.returncode != 0:
                run.violate("custom-type", "a document with custom types is refused: " + p.stderr[-1000:], scenario="customs/" + name, witness=docs[name][0])
                continue
            with open(os.path.join(mod, "gen", name, "out.go"), encoding="utf-8") as f:
                text[name] = f.read()
    p = run.sh([GO, "build", "./gen/..."], cwd=mod)
    for m in re.finditer(r"(?m)^(?:gen/(xt\d+)/out\.go:.*)$", p.stderr):
        if text.pop(m[1], None):
            run.violate("custom-type", "the code of a document with custom types does not compile: " + m[0], scenario="customs/" + m[1], witness=docs[m[1]][0])
    imports, calls = "", ""
    paths = {}
    for name in text:
        em = re.search(r"(?m)^type (Em\w*) struct \{[^}]*^\tPayload ", text[name])
        if not em:
            run.violate("custom-type", "there is no type for the message", scenario="customs/" + name, witness=docs[name][0])
            continue
        imports += '\t"verif/gen/%s"\n' % name
        for way, (t, path, alias) in docs[name][1]:
            if path:
                paths["x%d" % sorted({c[1] for c in CUSTOMS}).index(path)] = path
                t = "x%d.%s" % (sorted({c[1] for c in CUSTOMS}).index(path), t.split(".")[1])
            calls += "\tcheck(%s, reflect.TypeOf(%s.%s{}), reflect.TypeOf((*%s)(nil)).Elem(), %s)\n" % (
                json.dumps(name), name, em[1] if way[0] == "Payload" else "CParameters", t, ", ".join(map(json.dumps, way)))
    os.makedirs(os.path.join(mod, "cmd", "customs"))
    with open(os.path.join(mod, "cmd", "customs", "main.go"), "w") as f:
        f.write(CUSTOM_MAIN % (imports + "".join('\t%s "%s"\n' % x for x in sorted(paths.items())), calls))
    p = run.go_build(mod, "./cmd/customs", run.path("customs.bin"))
    if p.returncode != 0:
        run.check_repo()
        raise NoAnswer("the monitor of the custom types does not compile:\n" + p.stderr[-3000:])
    p = run.sh([run.path("customs.bin")])
    if p.returncode != 0:
        raise NoAnswer("the monitor of the custom types fails:\n" + p.stderr[-3000:])
    for line in p.stdout.splitlines():
        r = json.loads(line)
        run.observed["custom_type_places"] += 1
        if not r["ok"]:
            run.violate("custom-type", "the type of %s is %s instead of %s" % (r["way"], r["got"], r["want"]),
                        scenario="customs/" + r["name"], witness=docs[r["name"]][0])


SIDE = re.compile(r"^(?:New)?(App|User)(?:Controller|Subscriber)$")


def outputs(run, rng, i):
    """What is written, and where, for a document and all the parts."""
    where = "outputs/%d" % i
    tool = run.path("source")
    if not os.path.exists(tool):
        p = run.go_build(run.path("godocs"), "./cmd/source", tool)
        if p.returncode != 0:
            raise NoAnswer("the monitors do not compile:\n" + p.stderr[-3000:])
    flags, _, model, _ = rng.choice([o for o in OPTIONS if "PARTS" not in o[0]])
    m = gen.Model(rng, ops=rng.randint(1, 5), **model)
    doc = gen.Renderer(m, 2 + i % 2, rng, rng.choice(STYLES)).doc()
    root = run.path("outputs", str(i))
    os.makedirs(os.path.join(root, "cwd", "sub"))
    cwd = os.path.join(root, "cwd")
    with open(os.path.join(cwd, "doc.json"), "w") as f:
        json.dump(doc, f)
    package = rng.choice(["p", "events", "my_pkg", "api2", "asyncapi", "main", "Messages"])
    parts = ["application", "user", "types"]
    wanted = {}  # Path of the output -> parts

    def generate(out, which, *more, pkg=package):
        args = [run.cli(), "-i", "doc.json"] + flags + list(more)
        if pkg:
            args += [rng.choice(["-p", "--package"]), pkg]
        if out:
            args += [rng.choice(["-o", "--output"]), out]
        if which is not None:
            args += [rng.choice(["-g", "--generate"]), ",".join(which)]
        p = run.sh(args, cwd=cwd, timeout=120)
        path = os.path.join(cwd, out or "asyncapi.gen.go")
        if p.returncode != 0 or not os.path.exists(path):
            run.violate("output", "%s does not write %s (exit status %d): %s" % (" ".join(args[1:]), path, p.returncode, p.stderr[-300:]),
                        scenario=where, witness=doc)
            return None
        wanted[path] = which if which is not None else parts
        run.observed["outputs"] += 1
        return path

    full = generate("full.go", rng.choice([None, ["user", "application", "types"], ["types", "user", "application"]]))
    raw = generate("raw.go", None, rng.choice(["-f", "--disable-formatting"]))
    default = generate(None, None, pkg=None)
    singles = {p: generate(rng.choice([os.path.join("sub", p + ".go"), os.path.join(root, p + ".go"), "./" + p + ".x"]), [p]) for p in parts}
    pair = rng.sample(parts, 2)
    both = generate("both.go", pair)
    if None in (full, raw, default, both) or None in singles.values():
        return
    # Nothing else is written
    for d, _, files in os.walk(root):
        for f in files:
            path = os.path.join(d, f)
            if path not in {os.path.normpath(w) for w in wanted} and f != "doc.json":
                run.violate("output", "an unexpected file is written: %s" % path, scenario=where, witness=doc)
                return
    p = run.sh([tool] + list(wanted))
    if p.returncode != 0:
        raise NoAnswer("the sources are not read: " + p.stderr[-1000:])
    src = json.loads(p.stdout)
    for path, f in src.items():
        if f["error"]:
            run.violate("output", "%s is not Go: %s" % (path, f["error"]), scenario=where, witness=doc)
            return
        name = "asyncapi" if path == default else package
        if f["package"] != name:
            run.violate("package", "%s is of the package %s instead of %s" % (path, f["package"], name), scenario=where, witness=doc)
            return
    if src[raw]["formatted"] != open(full, encoding="utf-8").read():
        run.violate("formatting", "disabling the formatting changes more than the formatting (flags %s)" % flags, scenario=where, witness=doc)
        return
    run.observed["unformatted"] += 1

    def decls(*paths):
        return sorted((d["recv"], d["name"], d["text"]) for q in paths for d in src[q]["decls"])

    def differ(a, b):
        return [x[:2] for x in a if x not in b][:5], [x[:2] for x in b if x not in a][:5]
    for what, a, b in (("all the parts", decls(full), decls(*singles.values())),
                       (",".join(pair), decls(both), decls(*[singles[q] for q in pair]))):
        if a != b:
            run.violate("parts", "%s together are not the parts generated one by one: %s (flags %s)" % (what, differ(a, b), flags),
                        scenario=where, witness=doc)
            return
    for part, side in (("application", "App"), ("user", "User"), ("types", None)):
        ds = src[singles[part]]["decls"]
        if part == "types" and not any(d["name"] == "AsyncAPIVersion" for d in ds):
            run.violate("parts", "the types part has not the version of the document", scenario=where, witness=doc)
        if side and not any(d["name"] == "New%sController" % side for d in ds):
            run.violate("parts", "the %s part has no controller" % part, scenario=where, witness=doc)
        for d in ds:
            run.observed["declarations"] += 1
            name = d["recv"] or d["name"]
            s = SIDE.match(name)
            if name[0].isupper() and (s and s.group(1)) != side:
                run.violate("parts", "the %s part has %s %s" % (part, d["recv"], d["name"]), scenario=where, witness=doc)
                return
    # Wrong options are refused
    bad = rng.choice([["-g", "nothing"], ["-g", "types,users"], ["-c", "pascal"], ["-n", "snake"], ["-c", ""], ["--unknown"], ["-g", "Types"]])
    p = run.sh([run.cli(), "-i", "doc.json", "-o", "bad.go"] + bad, cwd=cwd, timeout=120)
    if p.returncode == 0 or os.path.exists(os.path.join(cwd, "bad.go")):
        run.violate("options", "%s is accepted" % bad, scenario=where, witness=doc)
    run.observed["refused_options"] += 1


PROPS["C21"] = Spec(options_docs(336, 2400), "random documents (with extensions) generated with each combination of options: types, pointers, tags and names of the "
                    "generated types, and what is sent and received; distinct by operation and shape of the value", assumptions=[SYNTH, EXECUTED])


# --- The generator itself --------------------------------------------------------

GENERATOR = "the command line tool is run as a user does, and only its files, messages and exit status are observed"
PROPS["C19"] = Spec(static.both(static.determinism(480, 3000, 4, 6, OPTIONS, STYLES), static.yaml_booleans, static.series(160, 1500, STYLES)), "random documents generated several times, then from equivalent files (shuffled keys, YAML of any "
                    "style with comments and anchors, JSON of any format), with each combination of options: all outputs are compared byte for byte; "
                    "distinct by document, flags and size of the output", assumptions=[EXECUTED, GENERATOR],
                    technique="runtime monitoring of the real tool: differential oracle over the outputs of repeated executions, each with its own "
                              "map iteration order")
PROPS["C18"] = Spec(static.compilation(1500, 8000), "random documents that use all what a document can say (v2 and v3: hostile names, texts, tags and bindings, "
                    "references to references, replies of every form, compositions, validations) generated with several combinations of options and parts; "
                    "the code must be generated, compile and have no unused import or variable; distinct by options and size of the document",
                    assumptions=[EXECUTED, GENERATOR],
                    technique="randomized workload on the real tool, whose output is judged by the Go compiler",
                    note="Held for the random documents that were generated; what a document can't use is listed in DESIGN.md (unsupported constructs).")
PROPS["C22"] = Spec(robust.robustness(3000, 20000), "files that are no document, unreadable paths, all the supported and other versions, dangling and circular references, "
                    "and random documents with nodes removed, replaced, moved, renamed, referenced wrongly or circularly, and text altered: exit status, "
                    "messages and files written are observed; distinct by changes and exit status", assumptions=[GENERATOR],
                    technique="fault injection in the input of the real tool, with crash, hang and outcome oracles on its executions")

KAFKA = "the cluster is an implementation of the Kafka protocol made for the monitors, on the loopback network; the client library is the real one"
NATS = "the server is an implementation of the NATS protocol made for the monitors, on the loopback network; the client library is the real one"
PROPS["C11"] = Spec(net(race=True), "random controllers (queue groups, options), subscriptions (exact and wildcard subjects), concurrent publications, "
                    "cancellations and closings, and faults (refused, broken and lost connections, sizes, subjects) against a recording "
                    "NATS server, under the race detector; distinct by configuration and order of the events on the server",
                    level="fault_enumeration", assumptions=[NATS, QUIET],
                    technique="protocol-level recording server with offline trace oracles (delivery, order, exactly-once, cleanup), fault injection and race detector")
PROPS["C12"] = Spec(net(race=True), "random controllers (streams, consumers, shared and own connections, delays), competing and overlapping subscriptions, "
                    "concurrent publications, settlements (acknowledged, rejected, both, twice, never) and cancellations, and faults (API errors, "
                    "silence, missing streams and consumers, broken connections) against a recording JetStream server, under the race detector; "
                    "distinct by configuration and order of the events on the server",
                    level="fault_enumeration", assumptions=[NATS, QUIET],
                    technique="protocol-level recording server with offline trace oracles (storage, delivery, settlement, order, cleanup), fault injection and race detector")

PROPS["C13"] = Spec(net(race=True), "random clusters (nodes, versions of the protocol, TLS, authentication, controller, batches, compression, gaps), "
                    "controllers (groups, automatic and manual commits, partitions, sizes), concurrent publications, settlements, cancellations and "
                    "subscriptions again, rebalances, and faults (error codes of each request, silence, garbage, broken connections, restarts, topics that "
                    "are missing, hidden or refused, bad options and credentials) against a recording cluster, under the race detector; "
                    "distinct by configuration and receptions, or by case and trace",
                    level="fault_enumeration", assumptions=[KAFKA, QUIET],
                    technique="protocol-level recording cluster with offline trace oracles (storage, delivery, order, commits, resumption, cleanup), fault injection and race detector")
