#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property.

 1. TLC explores the models registered for the property (exhaustively, and by
    random walks seeded with VERIF_SEED), checks the invariants of the
    specification, and hands over every document together with the HTML the
    specification says it stands for.
 2. The documents are converted by the real library, built from /repo.
 3. Observed and specified HTML are compared as token sequences; for the
    properties about arbitrary text the observed tokens are given back to TLC,
    which validates them against spec/Monitor.tla.

exit 0: held on everything explored; 1: VIOLATION line; 2: the check failed."""
import collections
import hashlib
import json
import os
import re
import sys
import threading
import time
import traceback
import zlib
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import canon
import imgserver
import registry
import vf


class Finding:
    def __init__(self, kind, ops, expected, observed, model):
        self.kind, self.ops, self.expected, self.observed, self.model = kind, ops, expected, observed, model


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.replayed = 0
        self.models, self.samples, self.findings, self.known = {}, [], [], []
        self.extra = {}
        self.exhaustive = True
        self.binary = None
        self.t0 = time.time()

    def log(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # -------------------------------------------------------------- exploring
    def explore(self, runs):
        """Runs TLC on all the runs, several at a time; yields (run, result)."""
        jobs = []
        for r in runs:
            if r.sim:
                for k in range(r.par):
                    jobs.append((r, k))
            else:
                jobs.append((r, None))
        # random walks are single-threaded and long: start them first
        jobs.sort(key=lambda j: (j[1] is None, -j[0].weight))

        def one(job):
            r, k = job
            consts = {"Depth": r.depth, "Model": '"%s"' % r.model}
            if r.module != "Chaos":
                consts["LabelOrder"] = "<- MCLabels"
            consts.update(r.consts)
            name = "%s-%s-%d%s" % (r.module, r.model, runs.index(r), "" if k is None else "-%d" % k)
            if r.sim:
                res = vf.tlc(r.module, consts, r.inv, simulate=max(1, r.sim // r.par), depth=r.walk, name=name, init=r.init,
                             nxt=r.next, workers=1, seed=self.seed * 1000 + k + 1 + r.salt + zlib.crc32(name.encode()) % 900 * 100000, heap="2g", timeout=r.timeout)
            else:
                res = vf.tlc(r.module, consts, r.inv, name=name, init=r.init, nxt=r.next, workers=r.workers,
                             heap="6g", timeout=r.timeout)
            return r, res

        with ThreadPoolExecutor(max_workers=7 if any(r.sim for r in runs) else 4) as ex:
            yield from ex.map(one, jobs)

    def note(self, run, res, cases):
        self.states += res.states
        self.transitions += res.transitions
        self.replayed += cases
        key = run.label()
        m = self.models.setdefault(key, {"states": 0, "cases": 0})
        m["states"] += res.states
        m["cases"] += cases
        if run.sim:
            self.exhaustive = False

    def replay(self, jobs, **kw):
        self.wait_build()
        return vf.replay(self.binary, jobs, **kw)

    # ------------------------------------------------------------- conforming
    def conform(self, runs, prepare=None):
        seen = set()
        for run, res in self.explore(runs):
            cases = []
            for c in res.cases:
                key = hashlib.md5(json.dumps([c["c"], c["s"]], sort_keys=True).encode()).digest()
                if key not in seen:
                    seen.add(key)
                    cases.append(prepare(c) if prepare else c)
            if not res.cases:
                raise vf.ToolError("the model %s produced no documents" % run.label())
            jobs = [vf.ops_for(c["c"], c["s"]) for c in cases]
            results = self.replay(jobs)
            bad = 0
            for c, ops, r in zip(cases, jobs, results):
                d = compare(c, r, run)
                if d:
                    bad += 1
                    if bad <= 3:
                        self.findings.append(Finding(d[0], ops, d[1], d[2], run.label()))
            self.note(run, res, len(cases))
            if cases:
                c = cases[len(cases) // 2]
                self.samples.append({"model": run.label(), "settings": settings_of(c["c"]), "textile": c["s"],
                                     "html_tokens": canon.show(canon.canon(c["e"], c["c"]["uid"]))})
            self.log("%-28s %7d cases  %d mismatches" % (run.label(), len(cases), bad))

    def sizes(self, runs):
        """Like conform, with a server for the images; it must be asked for
        the images of the documents and for nothing else."""
        due = collections.Counter()
        with imgserver.Server() as server:
            def here(case):
                for q in case["q"]:
                    due[q[len("http://SERVER"):].split("#")[0]] += 1
                return json.loads(json.dumps(case, ensure_ascii=False).replace("SERVER", server.name))
            self.conform(runs, here)
            asked = {p: n for p, n in server.asked.items() if not p.endswith("?moved") and p != "/loop"}
        for path, n in sorted(asked.items()):
            if n > due[path]:
                self.findings.append(Finding("requests", [["request", path]], "at most %d requests" % due[path], "%d requests" % n, "MC_Sizes"))
        self.extra["requests_served"] = sum(asked.values())
        self.log("%d requests, %d due" % (sum(asked.values()), sum(due.values())))

    # -------------------------------------------------------------- histories
    def histories(self, runs):
        """Every conversion of a history returns what the specification says,
        and equal settings and texts give equal strings, in all the histories."""
        seen, strings = set(), {}
        for run, res in self.explore(runs):
            if not res.cases:
                raise vf.ToolError("the model %s produced no histories" % run.label())
            cases = []
            for c in res.cases:
                key = hashlib.md5(json.dumps(c["ops"]).encode()).digest()
                if key not in seen:
                    seen.add(key)
                    cases.append(c)
            results = self.replay([c["ops"] for c in cases])
            bad = parses = 0
            for c, rs in zip(cases, results):
                for n, x in enumerate(c["want"]):
                    r = rs[n] if n < len(rs) else {"k": "no result"}
                    parses += 1
                    d = compare({"c": x["c"], "e": x["e"]}, [r], run)
                    if not d and "o" in r:
                        key = json.dumps([x["t"], {k: v for k, v in x["c"].items() if k != "uid"}], sort_keys=True)
                        s = canon.anonymous(r["o"], x["c"]["uid"])
                        if strings.setdefault(key, s) != s:
                            d = ("the result depends on the history", strings[key], s)
                    if d:
                        bad += 1
                        if bad <= 3:
                            self.findings.append(Finding(d[0], c["ops"], d[1], d[2], run.label()))
                        break
            self.note(run, res, len(cases))
            self.extra["conversions"] = self.extra.get("conversions", 0) + parses
            if cases:
                self.samples.append({"model": run.label(), "history": cases[len(cases) // 2]["ops"]})
            self.log("%-28s %7d histories, %d conversions  %d mismatches" % (run.label(), len(cases), parses, bad))

    # -------------------------------------------------------------- observing
    def observe(self, runs, rules):
        """Arbitrary texts: what the converter does is validated by Monitor."""
        seen, obs, docs = set(), {}, 0
        for run, res in self.explore(runs):
            if not res.cases:
                raise vf.ToolError("the model %s produced no documents" % run.label())
            cases = []
            for c in res.cases:
                key = hashlib.md5(json.dumps([c["c"], c["s"]], sort_keys=True).encode()).digest()
                if key not in seen:
                    seen.add(key)
                    cases.append(c)
            jobs = [vf.ops_for(c["c"], c["s"]) for c in cases]
            results = self.replay(jobs, limit_ms=60000)
            for c, ops, r in zip(cases, jobs, results):
                for o in observations(c, r[0], rules):
                    obs.setdefault(json.dumps(o, ensure_ascii=False), (ops, r[0], run.label()))
            self.note(run, res, len(cases))
            if cases:
                c = cases[len(cases) // 2]
                self.samples.append({"model": run.label(), "settings": settings_of(c["c"]), "textile": c["s"][:400]})
            self.log("%-28s %7d texts" % (run.label(), len(cases)))
        keys = list(obs)
        bad = 0
        for at in range(0, len(keys), 150000):
            part = keys[at:at + 150000]
            os.makedirs(vf.OUT, exist_ok=True)
            path = os.path.join(vf.OUT, "obs-%s-%d.json" % (self.pid, os.getpid()))
            with open(path, "w") as fh:
                fh.write("\n".join(part) + "\n")
            res = vf.tlc("Monitor", {"Rules": "{%s}" % ", ".join('"%s"' % x for x in rules)}, env={"OBS": path},
                         name="Monitor-" + self.pid, timeout=1800)
            os.remove(path)
            if res.states < 2 * len(part):
                raise vf.ToolError("Monitor has not judged all the observations")
            self.states += res.states
            self.transitions += res.transitions
            for b in res.cases:
                bad += 1
                if bad <= 5:
                    o = part[b["i"] - 1]
                    ops, r, label = obs[o]
                    self.findings.append(Finding("rule " + ",".join(b["r"]), ops, "no such observation: " + o[:600],
                                                 json.dumps(r, ensure_ascii=False), label))
        self.extra["observations_judged_by_Monitor"] = self.extra.get("observations_judged_by_Monitor", 0) + len(keys)
        self.extra["rules"] = sorted(set(self.extra.get("rules", [])) | set(rules))
        self.log("Monitor: %d observations, %d rejected" % (len(keys), bad))

    # ------------------------------------------------------------------ build
    def start_build(self):
        self._err = None

        def go():
            try:
                self.binary = vf.build()
            except Exception as e:  # reported by wait_build
                self._err = e
        self._builder = threading.Thread(target=go)
        self._builder.start()

    def wait_build(self):
        self._builder.join()
        if self._err:
            raise self._err

    # ---------------------------------------------------------------- results
    def finish(self):
        spec = registry.CHECKS[self.pid]
        wall = time.time() - self.t0
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": spec.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.replayed,
                           "exhaustive": self.exhaustive, "models": self.models,
                           "samples": self.samples[:8], **self.extra},
              "assumptions": spec.assumptions, "wall_s": round(wall, 2), "violations": len(self.findings)}
        os.makedirs(os.path.join(vf.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(vf.ROOT, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=False)
        if self.findings:
            os.makedirs(vf.OUT, exist_ok=True)
            path = os.path.join(vf.OUT, "violation-%s.json" % self.pid)
            with open(path, "w") as fh:
                json.dump([vars(f) for f in self.findings[:20]], fh, indent=1, ensure_ascii=False)
            for f in self.findings[:5]:
                self.log("MISMATCH (%s) in %s\n  ops      %s\n  expected %s\n  observed %s"
                         % (f.kind, f.model, json.dumps(f.ops, ensure_ascii=False)[:1500], str(f.expected)[:1500], str(f.observed)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d documents=%d wall=%.1fs" % (self.pid, self.states, self.replayed, wall))
        return 0


def settings_of(c):
    return {k: v for k, v in c.items() if vf.DEFAULTS.get(k) != v}


def observations(c, r, rules):
    if "skip" in r:
        return
    if "ends" in rules or "o" not in r:
        yield {"k": "end", "r": "ok" if "o" in r else "panic: %s" % r["p"] if "p" in r else "hang" if "h" in r else "crash"}
    if "o" not in r or set(rules) == {"ends"}:
        return
    s = c["s"]
    cf = {"restricted": c["c"]["restricted"], "uid": c["c"]["uid"],
          "forged": any(x in s for x in ("textileRef", "linkStartMarker", ":shelve", ":ospan", ":cspan", ":glyph:"))}
    need = {"lite": ("lite", "block_tags"), "blocks": ("block_tags",), "images": ("images",), "kind": ("html", "align_class"),
            "rel": ("rel", "sanitize"), "sanitized": ("sanitize",)}
    for x in rules:
        for k in need.get(x, ()):
            cf[k] = c["c"][k]
    nest, text = [], []
    for t in canon.tokenize(r["o"], slash="kind" in rules):
        if t[0] in ("o", "v"):
            yield {"k": "tag", "c": cf, "n": t[1], "a": [list(x) for x in t[2].items()]}
            if t[0] == "o":
                nest.append("+" + t[1])
        elif t[0] == "c":
            nest.append("-" + t[1])
        elif t[0] == "t":
            text.append(t[1])
        else:
            yield {"k": "lex", "c": cf, "w": t[1]}
    if "nesting" in rules or "sanitized" in rules:
        yield {"k": "nest", "c": cf, "s": nest}
    if "words" in rules:
        toks = canon.tokenize(r["o"])
        yield {"k": "words", "w": words(s), "t": words("".join(t[1] for t in toks if t[0] == "t")),
               "a": words(" ".join(v for t in toks if t[0] in ("o", "v") for v in t[2].values()))}
    if "placeholders" in rules:
        yield {"k": "txt", "c": cf, "s": "".join(text)}


NAMES = ("alfa bravo charlie denver echo foxtrot golf hotel india juliett kilo lima mike november oscar papa quebec romeo sierra "
         "tango uniform victor whiskey xray yankee zulu").split()
NAME = re.compile("|".join(NAMES))


def words(s):
    return [NAMES.index(x) for x in NAME.findall(s)]


def compare(case, result, run):
    """None, or (kind, expected, observed)"""
    uid = case["c"]["uid"]
    exp = canon.canon(case["e"], uid, run.fold)
    r = result[0]
    if "skip" in r:
        return None
    if "o" not in r:
        return ("no result", canon.show(exp), json.dumps(r))
    obs = canon.canon(canon.tokenize(r["o"], slash=True), uid, run.fold)
    if exp != obs:
        return ("different HTML", canon.show(exp), canon.show(obs))
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = registry.CHECKS[pid]
    c = Check(pid, tier, seed)
    c.start_build()
    try:
        spec.decide(c, tier)
        c.wait_build()
        code = c.finish()
    except vf.ToolError as e:
        c._builder.join()
        print("ERROR property=%s %s" % (pid, e))
        code = 2
    except Exception:
        c._builder.join()
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
