"""The checks of what the generator itself does: determinism, robustness, compilation."""
import concurrent.futures as futures
import copy
import difflib
import json
import os
import random
import re
import resource

import driver
import gen
import wild
import yamlgen


def no_usage(text):
    return re.sub(r"(?s)Usage:.*?\n\nError: ", "Error: ", text)


def run_one(run, args, cwd, cpu=120):
    """Runs the command line tool, with a limit of processor time only."""
    import subprocess

    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return subprocess.run([run.cli()] + args, cwd=cwd, env=run.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, errors="replace", text=True, preexec_fn=limit, timeout=900)


# --- Determinism ---------------------------------------------------------------

def determinism(quick, thorough, same, variants, options, styles):
    """Generates each document `same` times, then from `variants` equivalent files."""
    def one(run, i):
        name = "p%d" % i
        rng = random.Random("%s/%s/%s" % (run.prop, run.seed, i))
        flags, _, model, _ = options[i // 2 % len(options)]
        flags = [f for f in flags if f != "PARTS"]
        if rng.random() < 0.2:
            flags = flags + ["-f"]
        if rng.random() < 0.3:
            flags = flags + ["-g", ",".join(rng.sample(["types", "user", "application"], rng.randint(1, 2)))]
        model = dict(model)
        model.setdefault("ext", rng.choice([0, 0, 0.2]))
        files = {}
        if i // 2 % 3 == 2:
            doc = wild.document(rng, 2 + i % 2)
        else:
            m = gen.Model(rng, constraints=0.3, ops=rng.randint(3, 9), **model)
            dep = i // 2 // len(options) % 4 == 3
            if dep:
                for o in m.ops:
                    for p in o["payload"].get("props", []) + o.get("headers", {}).get("props", []):
                        p["undeclared"] = False
            doc = gen.Renderer(m, 2 + i % 2, rng, styles[i // 2 // len(options) % len(styles)]).doc()
            if dep:
                doc, files["dep.json"] = gen.split(doc, rng)
        doc = json.loads(json.dumps(doc))
        outs, first, problems = set(), None, []
        kinds = [("again", ".json", doc)] * same
        for k in range(variants):
            kinds.append(("json", ".json", yamlgen.shuffled(doc, rng)) if k % 3 == 0 else
                         ("yaml", rng.choice([".yaml", ".yml"]), yamlgen.shuffled(doc, rng)))
        for k, (kind, ext, content) in enumerate(kinds):
            d = run.path("det", name, str(k))
            os.makedirs(d)
            src = "doc" + ext
            text = json.dumps(doc) if kind == "again" else yamlgen.as_json(content, rng) if kind == "json" else yamlgen.as_yaml(content, rng)
            with open(os.path.join(d, src), "w", encoding="utf-8") as f:
                f.write(text)
            inputs = [src]
            for other, c in files.items():
                with open(os.path.join(d, other), "w", encoding="utf-8") as f:
                    f.write(json.dumps(c) if kind == "again" else yamlgen.as_json(yamlgen.shuffled(c, rng), rng))
                inputs.append("./" + other)
            p = run_one(run, ["-i", ",".join(inputs), "-o", "out.go", "-p", "p"] + flags, d)
            out = None
            if p.returncode == 0 and os.path.exists(os.path.join(d, "out.go")):
                with open(os.path.join(d, "out.go"), encoding="utf-8", errors="replace") as f:
                    out = f.read()
            res = (p.returncode, out)
            outs.add(res)
            if first is None:
                first = res
            elif res != first:
                diff = "%s\n%s" % (no_usage(p.stderr)[:500], "\n".join(list(difflib.unified_diff(
                    (first[1] or "").splitlines(), (out or "").splitlines(), "first", kind, n=1, lineterm=""))[:40]))
                problems.append((kind, diff, text if kind != "again" else None))
                break
        return name, doc, flags, len(kinds), kinds, first, problems

    def go(run):
        run.cli()
        ids = [i for i in range(thorough if run.thorough else quick) if not run.only or run.only.split("/")[0] == "p%d" % i]
        with futures.ThreadPoolExecutor(run.cores) as ex:
            for name, doc, flags, n, kinds, first, problems in ex.map(lambda i: one(run, i), ids):
                run.observed["documents"] += 1
                run.observed["generations"] += n
                if first[1] is None:
                    run.observed["not_generated"] += 1
                else:
                    run.observed["bytes"] += len(first[1])
                for kind, _, _ in kinds:
                    run.observed["kind_" + kind] += 1
                    run.eval(None)
                run.distinct.add("%s/%s/%s" % (name, " ".join(flags), len(first[1] or "")))
                run.sample("%s: %d generations with %s, %d bytes" % (name, n, " ".join(flags) or "no flag", len(first[1] or "")))
                for kind, diff, text in problems:
                    what = "another generation of the same file" if kind == "again" else "an equivalent document in %s" % kind
                    run.violate("determinism", "%s gives another output (flags %s):\n%s" % (what, " ".join(flags), diff),
                                scenario=name, witness={"document": doc, "equivalent": text})
    return go


YAML_BOOLEANS = """asyncapi: 2.6.0
info: {title: t, version: "1"}
channels:
  point:
    publish:
      message:
        payload:
          type: object
          properties:
            x: {type: number}
            %s: {type: number}
"""


def yaml_booleans(run):
    """The known finding on the words that are booleans in YAML 1.1, but not in YAML 1.2."""
    if run.only and run.only != "yaml-booleans":
        return
    for word in ("y", "n", "yes", "No", "ON", "off"):
        outs = []
        for k, text in (("plain", YAML_BOOLEANS % word), ("quoted", YAML_BOOLEANS % ('"%s"' % word))):
            d = run.path("yaml-booleans", word + k)
            os.makedirs(d)
            with open(os.path.join(d, "doc.yaml"), "w") as f:
                f.write(text)
            p = run_one(run, ["-i", "doc.yaml", "-o", "out.go", "-p", "p"], d)
            if p.returncode != 0:
                run.violate("determinism", "the property %s (%s) is refused: %s" % (word, k, no_usage(p.stderr)), scenario="yaml-booleans")
                return
            with open(os.path.join(d, "out.go")) as f:
                outs.append(re.findall(r'json:"([^",]*)', f.read()))
        run.eval("yaml-booleans " + word)
        if outs[1].count(word) == 0:
            run.violate("determinism", "there is no property %s in the code: %s" % (word, outs[1]), scenario="yaml-booleans")
        elif outs[0] != outs[1]:
            boolean = "true" if word.lower() in ("y", "yes", "on") else "false"
            same = sorted(boolean if x == word else x for x in outs[1]) == sorted(outs[0])
            run.violate("determinism", "the property %s without quotes is %s" % (word, outs[0]), scenario="yaml-booleans",
                        finding="yaml-1.1-booleans" if same else None)


def series(quick, thorough, styles):
    """Generates several documents, with several options, in the same process:
    each output has to be the one of a process of its own."""
    def go(run):
        mod = run.module("series")
        prog = run.path("seriesbin")
        p = run.go_build(mod, "./cmd/series", prog)
        if p.returncode != 0:
            raise driver.NoAnswer("the program of the series does not build:\n" + p.stderr[-3000:])

        def call(jobs, cwd):
            import subprocess
            return subprocess.run([prog], cwd=cwd, env=run.env, input=json.dumps(jobs), stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, errors="replace", text=True, timeout=900)

        def one(i):
            name = "s%d" % i
            rng = random.Random("%s/%s/%s" % (run.prop, run.seed, name))
            d = run.path("series-out", name)
            os.makedirs(d)
            files = []
            for k in range(rng.randint(1, 3)):
                ver = rng.choice([2, 3])
                if rng.random() < 0.4:
                    doc = wild.document(rng, ver)
                else:
                    doc = gen.Renderer(gen.Model(rng, constraints=0.3, ops=rng.randint(2, 5)), ver, rng, rng.choice(styles)).doc()
                files.append("doc%d.json" % k)
                with open(os.path.join(d, files[-1]), "w") as f:
                    json.dump(doc, f)
            jobs = []
            for k in range(rng.randint(2, 4)):
                parts = rng.sample(["Types", "User", "Application"], rng.choice([1, 2, 3, 3]))
                job = {"inputs": [rng.choice(files)], "options": {
                    "OutputPath": "together%d.go" % k, "PackageName": rng.choice(["p", "q"]), "Generate": {x: True for x in parts},
                    "DisableFormatting": rng.random() < 0.3, "ConvertKeys": rng.choice(["none", "none", "snake", "kebab", "camel"]),
                    "NamingScheme": rng.choice(["none", "none", "camel"]), "IgnoreStringFormat": rng.random() < 0.4,
                    "ForcePointers": rng.random() < 0.4}}
                jobs.append(job)
            p = call(jobs, d)
            if p.returncode != 0:
                return name, jobs, [("crash", "the generations in one process end with the status %s: %s" % (p.returncode, p.stderr[:2000]))], 0
            got, bad, n = json.loads(p.stdout), [], 0
            for k, job in enumerate(jobs):
                alone = json.loads(json.dumps(job))
                alone["options"]["OutputPath"] = "alone%d.go" % k
                q = call([alone], d)
                if q.returncode != 0:
                    bad.append(("crash", "a generation ends with the status %s: %s" % (q.returncode, q.stderr[:2000])))
                    break
                want = json.loads(q.stdout)[0]
                texts = []
                for f in ("together%d.go" % k, "alone%d.go" % k):
                    f = os.path.join(d, f)
                    texts.append(open(f, errors="replace").read() if os.path.exists(f) else "")
                n += 1
                if (got[k] == "") != (want == "") or texts[0] != texts[1]:
                    diff = "\n".join(list(difflib.unified_diff(texts[1].splitlines(), texts[0].splitlines(), "alone", "together", n=1, lineterm=""))[:40])
                    bad.append(("series", "the generation number %d of the process (%s) is not the same as in a process of its own: %s\n%s" % (
                        k + 1, job, got[k][:300] or want[:300], diff)))
            return name, jobs, bad, n

        ids = [i for i in range(thorough if run.thorough else quick) if not run.only or run.only == "s%d" % i]
        with futures.ThreadPoolExecutor(run.cores) as ex:
            for name, jobs, bad, n in ex.map(one, ids):
                run.observed["series"] += 1
                run.observed["series_generations"] += n
                run.eval("%s %s" % (name, len(jobs)))
                for kind, what in bad[:1]:
                    run.violate(kind, what, scenario=name)
    return go


def both(*fs):
    def go(run):
        for f in fs:
            f(run)
    return go


# --- Compilation -----------------------------------------------------------------

FLAGS = [[], [], ["--force-pointers"], ["-c", "snake"], ["-c", "kebab"], ["-c", "camel"], ["-n", "none"], ["-n", "camel"], ["--ignore-string-format"],
         ["PARTS"], ["-c", "snake", "--force-pointers", "--ignore-string-format", "-n", "camel"], ["PARTS", "--force-pointers", "-n", "camel"]]


def _reply_with_parameters():
    return {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, "channels": {
        "a": {"address": "a", "messages": {"m": {"payload": {"type": "string"}}}},
        "r": {"address": "r/{id}", "parameters": {"id": {}}, "messages": {"m": {"payload": {"type": "string"}}}}},
        "operations": {"o": {"action": "receive", "channel": {"$ref": "#/channels/a"}, "reply": {"channel": {"$ref": "#/channels/r"}}}}}


def _several_parameters():
    op = {"message": {"payload": {"type": "string"}}}
    p = {"x": {"schema": {"type": "string"}}, "y": {"schema": {"type": "string"}}}
    return {"asyncapi": "2.6.0", "info": {"title": "t", "version": "1"}, "channels": {
        "a/{x}/b/{y}/c": {"parameters": p, "subscribe": op}, "a/{x}/d/{y}/c": {"parameters": p, "subscribe": op}}}


# The documents of the known findings: {identifier: (document, expression of each line of the failure)}
PROBES = {
    "reply-channel-parameters": (_reply_with_parameters(), r"SendAsReplyTo|have \(context\.Context, MMessageFromRChannel\)|want \(context\.Context, RChannelParameters, |undefined: params$"),
    "several-parameters": (_several_parameters(), r"ACParameters redeclared|other declaration of ACParameters|AC\w* redeclared|other declaration of AC"),
}


def compilation(quick, thorough, batch=300):
    def go(run):
        import props
        run.cli()
        n = thorough if run.thorough else quick
        docs, probes = [], {}
        for i, (finding, (doc, expected)) in enumerate(sorted(PROBES.items())):
            if not run.only or run.only == "probe%d" % i:
                docs.append(("probe%d" % i, doc, []))
                probes["probe%d" % i] = (finding, expected)
        for i in range(n):
            name = "w%d" % i
            if run.only and run.only != name:
                continue
            rng = random.Random("%s/%s/%s" % (run.prop, run.seed, name))
            docs.append((name, wild.document(rng, 2 + i % 2), FLAGS[i // 2 % len(FLAGS)]))
        for b in range(0, len(docs), batch):
            mod = run.module("mod%d" % b)
            part = docs[b:b + batch]
            ok = props.generate_docs(run, mod, part, probes=probes)
            for name, doc, flags in part:
                run.eval("%s %s" % (" ".join(flags), len(json.dumps(doc))))
                run.sample("%s: %d bytes, flags %s" % (name, len(json.dumps(doc)), " ".join(flags) or "none"))
            run.observed["packages"] += len(ok)
    return go
