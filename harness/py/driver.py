"""Common machinery of the checks: builds, shards, verdicts and evidence."""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.24.13/bin/go"
MODULE = "github.com/lerenn/asyncapi-codegen"


class NoAnswer(Exception):
    """The check cannot decide (exit 2)."""


class Violation(Exception):
    """A violation found out of the monitors."""

    def __init__(self, kind, detail, witness=None):
        super().__init__(detail)
        self.kind, self.detail, self.witness = kind, detail, witness


class Run:
    """One run of a check."""

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.thorough = tier == "thorough"
        env = dict(os.environ)
        for k in ("GOROOT", "GOWORK", "ASYNCAPI_DOCKERIZED", "GORACE", "GODEBUG"):
            env.pop(k, None)
        env.update(
            PATH="/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
            GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
            GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
            HOME="/root", TMPDIR=self.tmp)
        self.env = env
        self.cores = os.cpu_count() or 4
        # What is observed
        self.evaluations = 0
        self.distinct = set()
        self.observed = collections.Counter()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.known = []
        self.cli_path = None

    # --- results -----------------------------------------------------------
    def eval(self, key=None):
        self.evaluations += 1
        if key is not None:
            self.distinct.add(key)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violate(self, kind, detail, scenario="", witness=None, finding=None):
        self.violations.append({"kind": kind, "scenario": scenario, "detail": detail[:6000], "witness": witness})
        if finding:
            self.violations[-1]["finding"] = finding

    def merge(self, d):
        self.evaluations += d.get("evaluations") or 0
        self.distinct.update(d.get("distinct_keys") or [])
        self.observed.update(d.get("observed") or {})
        for s in d.get("samples") or []:
            self.sample(s)
        self.violations += d.get("violations") or []
        self.inconclusive += d.get("inconclusive") or []

    # --- processes ----------------------------------------------------------
    def sh(self, args, cwd=None, timeout=600, env=None, stdin=None):
        e = dict(self.env)
        if env:
            e.update(env)
        return subprocess.run(args, cwd=cwd, env=e, timeout=timeout, input=stdin, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, errors="replace", text=True)

    def path(self, *p):
        return os.path.join(self.tmp, *p)

    # --- builds -------------------------------------------------------------
    def cli(self):
        """Builds the command line tool from /repo's working tree."""
        if self.cli_path is None:
            out = self.path("acg")
            p = self.sh([GO, "build", "-o", out, "./cmd/asyncapi-codegen"], cwd=REPO)
            if p.returncode != 0:
                raise NoAnswer("the repository does not build:\n" + p.stderr[-3000:])
            self.cli_path = out
        return self.cli_path

    def generate(self, inputs, out, package, *flags, cwd=None):
        """Generates a document; returns the process."""
        os.makedirs(os.path.dirname(out), exist_ok=True)
        return self.sh([self.cli(), "-i", ",".join(inputs) if isinstance(inputs, list) else inputs,
                        "-o", out, "-p", package, *flags], cwd=cwd or self.tmp, timeout=120)

    def module(self, name="go", source="go"):
        """Creates the Go module of the monitors, that uses the working tree."""
        dst = self.path(name)
        if source:
            shutil.copytree(os.path.join(VERIF, "harness", source), dst,
                            ignore=shutil.ignore_patterns("gen", "bin", "go.mod", "go.sum"))
        else:
            os.makedirs(dst)
        with open(os.path.join(REPO, "go.mod")) as f:
            mod = f.read()
        mod = re.sub(r"(?m)^module .*$", "module verif", mod, count=1)
        mod += "\nrequire %s v0.0.0\nreplace %s => %s\n" % (MODULE, MODULE, REPO)
        with open(os.path.join(dst, "go.mod"), "w") as f:
            f.write(mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(dst, "go.sum"))
        return dst

    def go_build(self, mod, pkg, out, race=False):
        args = [GO, "build"] + (["-race"] if race else []) + ["-o", out, pkg]
        return self.sh(args, cwd=mod, timeout=800)

    def check_repo(self):
        """The repository has to build."""
        p = self.sh([GO, "build", "./..."], cwd=REPO)
        if p.returncode != 0:
            raise NoAnswer("the repository does not build:\n" + p.stderr[-3000:])

    # --- monitors -----------------------------------------------------------
    def shards(self, binary, prop, extra=(), race=False, shards=None, timeout=None):
        """Runs a monitor in parallel shards, and merges what they observed."""
        n = 1 if self.only else (shards or self.cores)
        timeout = timeout or (3 * 3600 if self.thorough else 700)
        procs = []
        for i in range(n):
            out = self.path("%s-%s-%d.json" % (os.path.basename(binary), prop, i))
            log = open(out + ".log", "w")
            env = dict(self.env, GOTRACEBACK="all")
            if race:
                env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s.race" % out
            args = [binary, "-prop", prop, "-seed", str(self.seed), "-tier", self.tier, "-out", out,
                    "-shard", str(i), "-shards", str(n), *extra]
            if self.only:
                args += ["-only", self.only]
            procs.append((subprocess.Popen(args, env=env, cwd=self.tmp, stdout=log, stderr=log), out, log))
        end = time.time() + timeout
        bad = None
        for p, out, log in procs:
            late = False
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                late = True
                p.send_signal(3)  # Dump the goroutines
                try:
                    p.wait(20)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
            log.close()
            text = open(out + ".log", errors="replace").read()
            cur = ""
            if os.path.exists(out + ".cur"):
                cur = open(out + ".cur").read()
            if os.path.exists(out):
                self.merge(json.load(open(out)))
            else:  # What was seen before its bad end
                if os.path.exists(out + ".viol"):
                    self.violations += [json.loads(l) for l in open(out + ".viol")]
            if os.path.exists(out):
                pass
            elif late:
                self.inconclusive.append("%s: not ended in time" % cur)
                print("shard not ended in time in scenario %s:\n%s" % (cur, text[-3000:]))
            else:
                try:
                    self.crash(p.returncode, cur, text)
                except NoAnswer as e:
                    bad = e
            if race:
                self.races(out, cur)
        if bad:
            raise bad

    def crash(self, code, scenario, text):
        """The monitor crashed: because of the code under test, or of the harness?"""
        m = re.search(r"(?m)^(panic: .*|fatal error: .*|SIG[A-Z]+: .*)$", text)
        if m:
            block = text[m.start():]
            # The first goroutine of the dump is the one that failed
            first = re.split(r"\n\ngoroutine ", block)
            body = "\n\ngoroutine ".join(first[:2])
            frames = re.findall(r"(?m)^([\w./\-]+(?:\.\(?\*?[\w\[\].]+\)?)*\.?[\w.()*]*)\(", body)
            blame = None
            for f in frames:
                if f.startswith("verif/gen/") or f.startswith(MODULE):
                    blame = f
                    break
                if f.startswith("main.") or f.startswith("verif/"):
                    continue
            if blame:
                self.violate("crash", "crash in %s: %s" % (blame, body[:4000]), scenario)
                return
        raise NoAnswer("a monitor ended with status %s in scenario %s:\n%s" % (code, scenario, text[-4000:]))

    def races(self, out, scenario):
        d, base = os.path.split(out + ".race")
        seen = set()
        for f in sorted(os.listdir(d)):
            if not f.startswith(base):
                continue
            text = open(os.path.join(d, f), errors="replace").read()
            for rep in re.split(r"={10,}", text):
                if "DATA RACE" not in rep:
                    continue
                # The two accesses are the first frames of the first two stacks
                stacks = re.split(r"\n\n", rep.strip())
                acc = []
                for s in stacks[:2]:
                    fr = re.findall(r"(?m)^  ([^\s(].*)\(\)$", s)
                    acc.append(fr)
                names = [f for a in acc for f in a]
                if not any(f.startswith("verif/gen/") or f.startswith(MODULE) for f in names):
                    self.observed["races_out_of_scope"] += 1
                    continue
                key = "|".join(sorted((a[0] if a else "?") for a in acc))
                if key in seen or len(seen) > 10:
                    continue
                seen.add(key)
                self.violate("race", rep.strip(), scenario)
        self.observed["race_detector_runs"] += 1

    # --- the end ------------------------------------------------------------
    def close(self):
        if not os.environ.get("KEEPTMP"):
            shutil.rmtree(self.tmp, ignore_errors=True)


def findings(prop):
    """The known findings of a property: {identifier: text}."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)$", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0]
    if prop == "--setup":  # Nothing is kept from a run to another: the checks build all they need
        return 0 if os.path.exists(GO) else 2
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    import props
    spec = props.PROPS[prop]
    run = Run(prop, tier, seed, only)
    t0 = time.time()
    status = 0
    error = None
    try:
        try:
            spec.run(run)
        except Violation as v:
            run.violate(v.kind, v.detail, witness=v.witness)
        except NoAnswer as e:
            error = str(e)
        except subprocess.TimeoutExpired as e:
            error = "a command did not end: %s" % (e,)
        except Exception:
            error = traceback.format_exc()
        known = findings(prop)
        listed = collections.OrderedDict()
        real = []
        for v in run.violations:
            i = v.get("finding")
            if i and i in known:
                listed[i] = known[i]
            else:
                real.append(v)
        if not real and not error and not run.only:
            if run.evaluations == 0:
                error = "nothing has been observed"
            for name, least in spec.least.items():
                if run.observed.get(name, 0) < least:
                    error = "too few %s observed: %d" % (name, run.observed.get(name, 0))
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.level,
            "coverage": {
                "evaluations": run.evaluations,
                "distinct_nontrivial": len(run.distinct),
                "rule": spec.rule,
                "samples": run.samples,
                "observed": dict(sorted(run.observed.items())),
                "inconclusive": run.inconclusive[:20],
                "inconclusive_count": len(run.inconclusive),
                "known_findings_seen": list(listed),
            },
            "assumptions": spec.assumptions,
            "violations": len(real),
            "wall_s": round(time.time() - t0, 2),
        }
        if error:
            evidence["coverage"]["error"] = error[:3000]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)
        for i, text in listed.items():
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, i, text))
        replay = os.path.join(VERIF, "evidence", prop + ".violation.json")
        if os.path.exists(replay):
            os.remove(replay)
        if real:
            replay = os.path.join(VERIF, "evidence", prop + ".violation.json")
            with open(replay, "w") as f:
                json.dump({
                    "property": prop, "seed": seed, "tier": tier, "violations": real,
                    "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --only '%s'" % (
                        seed, tier, prop, real[0].get("scenario", "")),
                }, f, indent=1, ensure_ascii=False, default=str)
            for v in real[:6]:
                print("[%s] %s: %s" % (v["kind"], v.get("scenario", ""), v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            status = 1
        elif error:
            print("NO ANSWER: " + error)
            status = 2
        print("%s: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s; %s" % (
            prop, run.evaluations, len(run.distinct), len(real), len(run.inconclusive), time.time() - t0,
            ", ".join("%s=%d" % kv for kv in sorted(run.observed.items()))))
    finally:
        run.close()
    sys.stdout.flush()
    return status
