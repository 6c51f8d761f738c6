"""Common machinery: building the replay driver, running TLC, replaying."""
import json
import os
import re
import resource
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(ROOT, "target"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
UID = "uid0"


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"],
                       cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("cannot build the replay driver:\n" + p.stdout[-4000:])
    return os.path.join(TARGET, "release", "rtx")


# ------------------------------------------------------------------------ TLC
class Tlc:
    """One TLC run: the emitted cases and what TLC reports about the run."""
    def __init__(self):
        self.cases, self.states, self.transitions, self.log = [], 0, 0, ""
        self.prints = []


def _value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    return v  # already TLA+


def tlc(module, consts=None, invariants=(), simulate=None, depth=None, seed=1, workers=None, timeout=600,
        name=None, init="Init", nxt="Next", heap="6g", postcondition=None, env=None, constraint=None):
    os.makedirs(OUT, exist_ok=True)
    name = name or module
    cfg = ["INIT " + init, "NEXT " + nxt, "CHECK_DEADLOCK FALSE"]
    if consts:
        cfg.append("CONSTANTS")
        for k, v in consts.items():
            cfg.append(("  %s %s" % (k, v)) if isinstance(v, str) and v.startswith("<-") else "  %s = %s" % (k, _value(v)))
    cfg += ["INVARIANT " + i for i in invariants]
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    wd = os.path.join(OUT, "tlc-%s-%d" % (name, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    cfgfile = os.path.join(wd, name + ".cfg")
    open(cfgfile, "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue",
           "-Djava.io.tmpdir=" + wd, "-cp", CP, "tlc2.TLC", "-metadir", wd, "-noGenerateSpecTE", "-config", cfgfile, "-seed", str(seed), "-fp", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-workers", str(workers or 1)]
    else:
        cmd += ["-workers", str(workers or 8)]
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    r = Tlc()
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish in %d s on %s" % (timeout, name))
    finally:
        subprocess.run(["rm", "-rf", wd])
    rest = []
    for line in p.stdout.decode("utf-8", "replace").split("\n"):
        if line.startswith('"@@'):
            r.cases.append(json.loads(json.loads(_tla_string(line))[2:]))
        elif line.startswith("<<\"") or line.startswith('"'):
            r.prints.append(line)
        elif line.strip():
            rest.append(line)
    r.log = "\n".join(rest)
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.log)
    if m:
        r.transitions, r.states = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    else:
        m = None
        for m in re.finditer(r"(\d[\d,]*) states (?:checked|generated)", r.log):
            pass
        if m:
            r.transitions = r.states = int(m.group(1).replace(",", ""))
    if p.returncode != 0:
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (name, p.returncode, r.log[-3000:]))
    return r


def _tla_string(line):
    """A TLA+ string literal as printed by TLC -> a JSON string literal."""
    return line.rstrip("\r").replace("\t", "\\t")


# --------------------------------------------------------------------- replay
DEFAULTS = {"restricted": False, "lite": False, "images": True, "html": "html5", "rel": "", "block_tags": True,
            "align_class": "unset", "raw_blocks": False, "sanitize": False, "adjust": "", "get_sizes": False, "uid": ""}


def ops_for(cfg, text):
    ops = []
    for k, v in cfg.items():
        if k in DEFAULTS and v == DEFAULTS[k]:
            continue
        if k == "sanitize" and cfg.get("adjust"):
            continue
        if k == "align_class":
            v = v == "on"
        ops.append(["set", k, v])
    ops.append(["parse", text])
    return ops


def _limits():
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(binary, jobs, limit_ms=20000, threads=8, env=None):
    """jobs: a list of operation lists -> a list of results (one list per job).

    A job which kills the process (stack overflow, abort, out of memory) is
    isolated and reported as {"k": ...}; that is data, not an error."""
    results = [None] * len(jobs)
    todo = list(range(len(jobs)))
    e = dict(os.environ, RTX_LIMIT_MS=str(limit_ms), RTX_THREADS=str(threads), RUST_BACKTRACE="0")
    e.update(env or {})
    single = False
    while todo:
        batch = todo[:1] if single else todo
        data = "".join(json.dumps({"id": i, "ops": jobs[i]}) + "\n" for i in batch).encode()
        p = subprocess.run([binary], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e,
                           preexec_fn=_limits)
        for line in p.stdout.decode("utf-8").split("\n"):
            if line:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue  # cut off by the death of the process
                results[d["id"]] = d["r"]
        rest = [i for i in todo if results[i] is None]
        if p.returncode == 42:
            # too many hanging conversions: that's enough to decide
            for i in rest:
                results[i] = [{"skip": True}]
            return results
        if p.returncode == 0 and len(rest) == len(todo):
            raise ToolError("the replay driver produced nothing")
        if p.returncode != 0:
            if single:
                if results[batch[0]] is None:
                    results[batch[0]] = [{"k": "the process died with status %d" % p.returncode}]
                rest = [i for i in rest if results[i] is None]
                single = False
            else:
                # unwritten results of many jobs may be lost: find the culprit
                rest = _bisect(binary, jobs, rest, results, e)
                if sum(1 for r in results if r and "k" in r[0]) >= MAX_DEATHS:
                    for i in rest:
                        results[i] = [{"skip": True}]
                    return results
        todo = rest
    return results


MAX_DEATHS = 3


def _bisect(binary, jobs, ids, results, e):
    if not ids or sum(1 for r in results if r and "k" in r[0]) >= MAX_DEATHS:
        return ids
    if len(ids) == 1:
        p = subprocess.run([binary], input=(json.dumps({"id": ids[0], "ops": jobs[ids[0]]}) + "\n").encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, preexec_fn=_limits)
        for line in p.stdout.decode().split("\n"):
            if line:
                results[ids[0]] = json.loads(line)["r"]
        if results[ids[0]] is None:
            results[ids[0]] = [{"k": "the process died with status %d" % p.returncode}]
        return []
    mid = len(ids) // 2
    for part in (ids[:mid], ids[mid:]):
        p = subprocess.run([binary], input="".join(json.dumps({"id": i, "ops": jobs[i]}) + "\n" for i in part).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, preexec_fn=_limits)
        if p.returncode == 0:
            for line in p.stdout.decode().split("\n"):
                if line:
                    d = json.loads(line)
                    results[d["id"]] = d["r"]
        else:
            _bisect(binary, jobs, part, results, e)
    return [i for i in ids if results[i] is None]
