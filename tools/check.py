#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY.

Three legs, all driven by the TLA+ specification in ../spec:
  model  TLC explores the specification (small constants) and checks the
         user-level invariants on every behaviour it allows;
  run    the harness (built from /repo's working tree) executes scenarios
         enumerated by TLC and scenarios drawn from VERIF_SEED against the
         real code and records traces;
  bind   TLC replays every trace through the specification; a clause of this
         property broken by the real code, reproduced in a fresh process, is a
         violation.
Anything else that goes wrong (build, TLC, harness) is an error: exit 2.
"""
import sys
sys.dont_write_bytecode = True
import json, os, random, re, shutil, subprocess, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

TLA = "/opt/veriftools/tla"


def known_findings():
    """known: property=ID clause="..." what - committed, never written here."""
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) clause="([^"]*)" (.*)', line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


KNOWN = known_findings()


class CheckError(Exception):
    pass


def env_go():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    out = subprocess.run(["bash", "-c", "source /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env)
    for kv in out.stdout.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    return env


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.cfg = CHECKS[prop]
        # A check has one or more suites: kinds of scenario with their own
        # harness mode and trace specification.
        first = {k: self.cfg[k] for k in ("trace", "mode", "model", "enum", "n", "profile", "chunk") if k in self.cfg}
        self.suites = ([first] if "mode" in first else []) + self.cfg.get("more", [])
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "0"))
        except ValueError:
            self.seed = 0
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.mkdir(os.path.join(self.dir, "scratch"))
        self.env = env_go()
        self.env["VH_SCRATCH"] = os.path.join(self.dir, "scratch")
        self.states = 0
        self.transitions = 0
        self.model_runs = []
        self.traces = 0
        self.events = 0
        self.unsupported = 0
        self.enumerated = 0
        self.samples = []
        self.clauses = {}
        self.notes = []

    def pick(self, v):
        return v[self.tier] if isinstance(v, dict) and self.tier in v else v

    # -- tools -------------------------------------------------------------
    def tlc(self, module, cfg, extra_env=None, timeout=800, workers="8", metadir="meta"):
        meta = os.path.join(self.dir, metadir)
        env = dict(os.environ)
        env["JAVA_TOOL_OPTIONS"] = "-Xss128m"
        env.update(extra_env or {})
        cmd = ["tlc"] + ["-workers", workers, "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout + p.stderr
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if "Model checking completed. No error has been found." not in out or not m:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith(("Semantic", "Parsing", "Linting")))
            raise CheckError("TLC failed on %s/%s:\n%s" % (module, cfg, tail[-6000:]))
        return out, int(m.group(1)), int(m.group(2))

    def build(self):
        self.bin = os.path.join(self.dir, "harness")
        p = subprocess.run(["go", "build", "-tags=fts5", "-o", self.bin, "."], cwd=HARNESS, env=self.env, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("building the harness failed:\n" + p.stderr[-4000:])

    def harness(self, mode, out, *args, timeout=800):
        cmd = [self.bin, mode, "-out", out, "-seed", str(self.seed), "-tier", self.tier] + [str(a) for a in args]
        try:
            p = subprocess.run(cmd, env=self.env, cwd=self.dir, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: " + " ".join(cmd))
        if p.returncode != 0:
            raise CheckError("harness failed: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))

    # -- legs --------------------------------------------------------------
    def model_leg(self):
        for m in [m for suite in self.suites for m in self.pick(suite.get("model", []))]:
            module, cfg = m
            t = time.time()
            _, gen, distinct = self.tlc(module, cfg)
            self.states += distinct
            self.transitions += gen
            self.model_runs.append({"config": cfg, "distinct_states": distinct, "transitions": gen, "wall_s": round(time.time() - t, 1)})

    def enumerate(self, suite):
        """Scenarios enumerated by TLC from the specification."""
        out = []
        for g in self.pick(suite.get("enum", [])):
            module, cfg, limit = g
            text, _, _ = self.tlc(module, cfg)
            rows = []
            for line in text.splitlines():
                if line.startswith('"SCENARIO '):
                    rows.append(json.loads(json.loads(line)[len("SCENARIO "):]))
            rows.sort(key=lambda r: json.dumps(r, sort_keys=True))
            if not rows:
                raise CheckError("no scenarios from %s" % module)
            self.enumerated += len(rows)
            if limit and len(rows) > limit:
                rows = random.Random(self.seed).sample(rows, limit)
            for i, r in enumerate(rows):
                r["id"] = "%s-%d" % (module, i)
            out += rows
        return out

    def validate(self, suite, path, metadir="meta"):
        """Replays traces through the specification; returns broken clauses."""
        module = suite["trace"]
        out, gen, distinct = self.tlc(module, module + ".cfg", {"TRACES": path}, metadir=metadir)
        broken = []
        for line in out.splitlines():
            if line.startswith('"BROKEN '):
                s = json.loads(line)
                m = re.match(r'BROKEN <<(\d+), (\d+), \{(.*)\}>>$', s)
                if not m:
                    raise CheckError("cannot parse " + s)
                pairs = re.findall(r'<<"((?:[^"\\]|\\.)*)", "((?:[^"\\]|\\.)*)">>', m.group(3))
                broken.append((int(m.group(1)), int(m.group(2)), pairs))
        return broken, gen

    def load(self, raw, path, first=False):
        """Keeps the traces that say something; TLC sees them without the scenario."""
        kept = []
        n_events = 0
        with open(raw) as f, open(path, "w") as g:
            for line in f:
                t = json.loads(line)
                if t.get("unsupported"):
                    self.unsupported += 1
                    if len(self.notes) < 3:
                        self.notes.append("stand-in limit: " + t["unsupported"][:200])
                    continue
                kept.append({"id": t["id"], "scenario": t.pop("scenario", None), "events": len(t["events"])})
                t["id"] = len(kept)
                n_events += len(t["events"])
                g.write(json.dumps(t) + "\n")
        if not kept:
            raise CheckError("no usable traces")
        return kept, n_events

    def run(self):
        self.build()
        self.model_leg()
        bad = []
        for suite in self.suites:
            bad += self.run_suite(suite)
        if self.unsupported > 3 * self.traces:
            raise CheckError("the stand-in database does not understand the statements: %s" % self.notes)
        for key, cnt in sorted(self.clauses.items()):
            other, _, clause = key.partition(": ")
            if other != self.prop and clause not in KNOWN.get(other, {}):
                print("NOTE: clause of another property broken %d times: %s" % (cnt, key))
        for clause, what in KNOWN.get(self.prop, {}).items():
            cnt = self.clauses.get("%s: %s" % (self.prop, clause), 0)
            if cnt:
                print("KNOWN-FINDING: property=%s %s [%s] (%d times in this run)" % (self.prop, what, clause, cnt))
        return self.confirm(bad)

    def run_suite(self, suite):
        mode = suite["mode"]
        scen = self.enumerate(suite)
        raws = []
        if scen:
            p = os.path.join(self.dir, "enum.ndjson")
            with open(p, "w") as f:
                for s in scen:
                    f.write(json.dumps(s) + "\n")
            raws.append(os.path.join(self.dir, "raw-enum"))
            self.harness(mode, raws[-1], "-in", p)
        n = self.pick(suite.get("n", 0))
        if n:
            raws.append(os.path.join(self.dir, "raw-rand"))
            self.harness(mode, raws[-1], "-n", n, "-profile", suite.get("profile", self.prop))
        raw = os.path.join(self.dir, "raw")
        with open(raw, "wb") as f:
            for r in raws:
                with open(r, "rb") as g:
                    shutil.copyfileobj(g, f)
        # Validate in chunks: one TLC per chunk keeps memory bounded.
        chunk = suite.get("chunk", 8000)
        parts, cur, k = [], None, 0
        with open(raw) as f:
            for line in f:
                if cur is None or k >= chunk:
                    if cur:
                        cur.close()
                    parts.append(os.path.join(self.dir, "part%d" % len(parts)))
                    cur, k = open(parts[-1], "w"), 0
                cur.write(line)
                k += 1
        if cur is None:
            raise CheckError("the harness recorded nothing")
        cur.close()
        total = 0
        bad = []
        for part in parts:
            path = part + ".tla.ndjson"
            kept, n_events = self.load(part, path)
            total += len(kept)
            broken, gen = self.validate(suite, path)
            if gen < n_events + len(kept):
                raise CheckError("only %d of %d trace steps were replayed" % (gen, n_events + len(kept)))
            self.traces += len(kept)
            self.events += n_events
            rnd = random.Random(self.seed)
            if len(self.samples) < 6:
                t = kept[rnd.randrange(len(kept))]
                self.samples.append({"id": t["id"], "events": t["events"], "scenario": t["scenario"]})
            for k, i, pairs in broken:
                for prop, clause in pairs:
                    key = prop + ": " + clause
                    self.clauses[key] = self.clauses.get(key, 0) + 1
                mine = self.mine(pairs)
                if mine:
                    bad.append((suite, kept[k - 1], i, mine))
        return bad

    def mine(self, pairs):
        """Clauses of this property, except those recorded as known findings."""
        return [c for p, c in pairs if p == self.prop and c not in KNOWN.get(self.prop, {})]

    def confirm(self, bad):
        """A violation is reported only if it happens again in a fresh process."""
        if not bad:
            return 0
        order, seen = [], set()
        for b in bad:  # one per clause first
            key = tuple(b[3])
            (order.insert(len(seen), b) if key not in seen else order.append(b))
            seen.add(key)
        unconfirmed = []
        for suite, sc, i, clauses in order[:6]:
            hit = self.mine(self.replay(suite, sc["scenario"]))
            if hit:
                rdir = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s.json" % self.prop)
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "mode": suite["mode"], "clauses": hit, "event": i, "scenario": sc["scenario"]}, f, indent=1)
                print("broken: %s (scenario %s, event %d; %d traces affected)" % ("; ".join(sorted(set(hit))), sc["id"], i, len(bad)))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                self.violations = len(bad)
                return 1
            unconfirmed.append((sc["id"], i, clauses))
        raise CheckError("not reproduced: %s" % unconfirmed)

    def replay(self, suite, scenario):
        p = os.path.join(self.dir, "again.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(scenario) + "\n")
        out = os.path.join(self.dir, "again.raw")
        found = []
        for _ in range(2):
            self.harness(suite["mode"], out, "-in", p, "-of", 1)
            path = os.path.join(self.dir, "again.tla.ndjson")
            saved = self.unsupported
            try:
                self.load(out, path)
            except CheckError:
                return []
            finally:
                self.unsupported = saved
            broken, _ = self.validate(suite, path)
            found = [pc for _, _, pairs in broken for pc in pairs]
            if self.mine(found):
                break
        return found

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.cfg.get("level", "model_checking"),
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "trace_events": self.events,
                "scenarios_enumerated_by_spec": self.enumerated,
                "stand_in_limits": self.unsupported,
                "model_runs": self.model_runs, "samples": self.samples,
                "clauses_broken": self.clauses,
            },
            "assumptions": self.cfg.get("assumptions", []),
            "violations": violations, "wall_s": round(time.time() - self.t0, 2),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        c = Check(r["property"])
        try:
            c.build()
            suite = [u for u in c.suites if u["mode"] == r["mode"]][0]
            print(c.replay(suite, r["scenario"]))
        finally:
            shutil.rmtree(c.dir, ignore_errors=True)
        return 0
    c = Check(sys.argv[1])
    c.violations = 0
    try:
        rc = c.run()
        c.evidence(c.violations)
        print("%s %s: %d model states, %d traces (%d events) replayed, %d violations, %.1fs" % (c.prop, c.tier, c.states, c.traces, c.events, c.violations, time.time() - c.t0))
        return rc
    except CheckError as e:
        print("ERROR %s: %s" % (c.prop, e), file=sys.stderr)
        c.evidence(0)
        return 2
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
