"""Shared machinery: run TLC on the specifications, export behaviours from it,
validate traces recorded from the real code against it, and report.

Nothing in here decides a property.  The decision is always TLC's: either an
invariant of an exhaustive model run, or the `Failures` operator a
specification defines over recorded transitions of the real code.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")

# Sentinels: the only non-quantised values that appear in a trace.
NAN = 2000000001      # not-a-number (or NaT, or a masked sample)
BADQ = 2000000002     # a finite value that is not representable at the scale
INF = 2000000003      # +-infinity or |value * scale| beyond 1e9
LIM = 1000000000


class MachineryError(Exception):
    pass


def q(x, scale=1, tol=None):
    """Quantise to integers for TLC.  With `tol` the scaled value must be
    within `tol` of an integer, else BADQ; without it, plain rounding."""
    import numpy as np
    a = np.asarray(x)
    if a.dtype.kind in "bui" and scale == 1:
        a = a.astype(np.int64)
        out = np.where(np.abs(a) > LIM, INF, a)
        return out.tolist()
    if a.dtype.kind in "Mm":
        raise MachineryError("quantise times explicitly")
    a = a.astype(np.float64) * scale
    with np.errstate(all="ignore"):
        bad = ~np.isfinite(a)
        big = np.abs(a) > LIM
        r = np.where(bad | big, 0, np.rint(np.where(bad | big, 0, a)))
        out = r.astype(np.int64)
        if tol is not None:
            out = np.where(np.abs(np.where(bad | big, 0, a) - r) > tol,
                           BADQ, out)
        out = np.where(big, INF, out)
        out = np.where(np.isnan(a), NAN, out)
    return out.tolist()


def _tlc(args, cwd, workers, timeout, xmx="6g", env=None, extra=()):
    meta = tempfile.mkdtemp(prefix="tlcmeta_", dir=cwd)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss16m",
           "-Dtlc2.TLC.stopAfter=%d" % int(timeout),
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE"] + list(extra) + list(args)
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout + 60,
                       universal_newlines=True)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def _trim(out):
    keep = [l[:400] for l in out.splitlines()
            if not re.match(r'Parsing file|Semantic proc|Linting of|"CASE|"BAD', l)]
    return "\n".join(keep[-60:]) + "\n"


_STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def _stats(out):
    m = _STAT.findall(out.replace(",", "", 0))
    if not m:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(str(g).replace(",", "")), int(str(d).replace(",", ""))


TRACE_TEMPLATE = """---- MODULE TraceRun ----
EXTENDS {spec}, Json, IOUtils
\\* Each recorded transition of the real code is one step; the verdict is total:
\\* a step that is no behaviour of {spec} is reported with the names of the
\\* clauses it breaks and checking goes on with the next step.
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
TN == Len(Trace)
TChunk == {chunk}
TCeil(a, b) == (a + b - 1) \\div b
VARIABLES tl, tend
TInit == \\E c \\in 0..(TCeil(TN, TChunk) - 1) :
            /\\ tl = c * TChunk
            /\\ tend = IF (c + 1) * TChunk < TN THEN (c + 1) * TChunk ELSE TN
TNext == /\\ tl < tend
         /\\ tl' = tl + 1
         /\\ UNCHANGED tend
         /\\ LET f == IF Trace[tl + 1].k = "error" THEN {{"unexpected-error"}}
                     ELSE Failures(Trace[tl + 1]) IN
              IF f = {{}} THEN TRUE
              ELSE PrintT("BAD " \\o ToJson([i |-> tl + 1, f |-> f]))
TSpec == TInit /\\ [][TNext]_<<tl, tend>>
====
"""


class Ctx:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.scratch = tempfile.mkdtemp(prefix="dlfn_%s_" % pid)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.mc_runs = []
        self.events = []          # (event, origin)
        self.canaries = []        # events that the spec must reject
        self.notes = []
        self.chunk = None
        self.batch = 60 * 10 ** 6
        self.kinds = {}
        self.violations = []
        self.known_hits = []
        self.validated = 0
        self.workers = os.cpu_count() or 4
        self.assumptions = []
        self.seen_samples = {}

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def np_rng(self, salt=0):
        import numpy as np
        return np.random.RandomState((self.seed * 7919 + salt * 104729 +
                                      sum(map(ord, self.pid))) % (2**31))

    # ---- model checking ------------------------------------------------
    def mc(self, module, cfg_lines, name, timeout=600, cases=False,
           workers=None, extra=()):
        """Exhaustively check `module` with the given configuration.  An
        invariant violation here is an error in the specification (it does not
        depend on /repo), so it is a machinery error.  When `cases`, lines
        'CASE <json>' printed by the model are returned."""
        d = tempfile.mkdtemp(prefix="mc_", dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write("\n".join(cfg_lines) + "\n")
        t = time.time()
        rc, out = _tlc(["-config", "MC.cfg", module + ".tla"], d,
                       workers or self.workers, timeout, extra=extra)
        gen, dist = _stats(out)
        if rc != 0:
            sys.stderr.write(_trim(out))
            raise MachineryError("TLC failed on %s/%s (rc %d)"
                                 % (module, name, rc))
        res = []
        if cases:
            seen = set()
            for line in out.splitlines():
                if line.startswith('"CASE '):
                    s = json.loads(line)[5:]
                    if s not in seen:
                        seen.add(s)
                        res.append(json.loads(s))
            res.sort(key=lambda c: json.dumps(c, sort_keys=True))
        self.states += dist
        self.transitions += gen
        self.mc_runs.append({"module": module, "config": name,
                             "distinct_states": dist,
                             "states_generated": gen,
                             "cases_exported": len(res),
                             "wall_s": round(time.time() - t, 2)})
        shutil.rmtree(d, ignore_errors=True)
        return res

    # ---- recording -------------------------------------------------------
    def emit(self, ev, case=None):
        """Record one transition of the real code.  `case` is the stable id
        used to match known findings and to replay."""
        ev["case"] = case or ev.get("case") or str(len(self.events))
        self.events.append(ev)
        k = ev.get("k", "?")
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def canary(self, ev):
        """A corrupted copy of a transition that TLC must reject."""
        ev = json.loads(json.dumps(ev))
        ev["case"] = "canary"
        self.canaries.append(ev)

    # ---- trace validation --------------------------------------------------
    def validate(self, timeout=800, chunk=None):
        evs = self.events + self.canaries
        n = len(evs)
        if not self.events:
            raise MachineryError("no transition recorded")
        d = tempfile.mkdtemp(prefix="tv_", dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        chunk = chunk or self.chunk or max(1, -(-n // (self.workers * 4)))
        with open(os.path.join(d, "TraceRun.tla"), "w") as f:
            f.write(TRACE_TEMPLATE.format(spec=self.spec, chunk=chunk))
        with open(os.path.join(d, "TraceRun.cfg"), "w") as f:
            f.write("SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n")
        tf = os.path.join(d, "trace.ndjson")
        bad, gen, dist, wild = {}, 0, 0, 0
        lines, size, idx = [], 0, []
        for i in range(n + 1):
            s = json.dumps(evs[i]) + "\n" if i < n else None
            # TLC holds a whole trace in memory: hand over what fits
            if lines and (s is None or size + len(s) > self.batch):
                while lines:
                    with open(tf, "w") as f:
                        f.writelines(lines)
                    g, k, j = self._validate(d, tf, idx, chunk, bad, timeout)
                    gen, dist = gen + g, dist + k
                    if j is None:
                        break
                    # the specification gives this observation no meaning at
                    # all (wrong shape, out of the range of TLC's integers):
                    # it is no behaviour of the specification; go on without
                    bad[idx[j]] = ["no-meaning"]
                    del lines[j], idx[j]
                    wild += 1
                    if wild > 12:
                        break
                lines, size, idx = [], 0, []
                if wild > 12:
                    break
            if s is not None:
                lines.append(s)
                idx.append(i)
                size += len(s)
        self.validated += len(self.events)
        self.states += dist
        self.transitions += gen
        known = load_known(self.pid)
        for i in sorted(bad):
            if i >= len(self.events):
                continue
            ev = self.events[i]
            for clause in bad[i]:
                hit = match_known(known, ev, clause)
                if hit is not None:
                    self.known_hits.append((hit, ev, clause))
                else:
                    self.violations.append((clause, ev))
        shutil.rmtree(d, ignore_errors=True)
        # corrupted copies of sound transitions must all be rejected
        if not self.violations:
            for i in range(len(self.events), n):
                if i not in bad:
                    raise MachineryError("canary accepted: %s" % json.dumps(evs[i])[:800])

    def _validate(self, d, tf, idx, chunk, bad, timeout):
        n = len(idx)
        rc, out = _tlc(["-config", "TraceRun.cfg", "TraceRun.tla"], d,
                       self.workers, timeout, env={"TRACE_FILE": tf})
        if rc != 0:
            m = re.findall(r"^/\\ tl = (\d+)\s*$", out, re.M)
            if ("The error occurred when TLC was evaluating the nested" in out
                    and m and int(m[-1]) < n
                    and not re.search(r"OutOfMemory|StackOverflow|heap space", out)):
                j = int(m[-1])
                sys.stderr.write("%s\nTLC could not evaluate the transition %d\n" % (
                    "\n".join(l for l in out.splitlines() if l.startswith(
                        ("Error:", "Attempted", "Overflow", "The ")))[:600], idx[j]))
                return 0, 0, j
            sys.stderr.write(_trim(out))
            raise MachineryError("TLC failed while validating the trace")
        gen, dist = _stats(out)
        # one state per consumed transition plus the chunks' initial states
        nch = -(-n // chunk)
        if dist != n + nch:
            raise MachineryError("trace not consumed: %d states for %d events"
                                 " in %d chunks" % (dist, n, nch))
        for line in out.splitlines():
            if line.startswith('"BAD '):
                r = json.loads(json.loads(line)[4:])
                bad[idx[r["i"] - 1]] = sorted(r["f"])
        return gen, dist, None

    # ---- reporting -----------------------------------------------------------
    def finish(self):
        out = os.path.join(VERIF, "evidence")
        os.makedirs(out, exist_ok=True)
        byclause = {}
        for clause, ev in self.violations:
            byclause.setdefault(clause, []).append(ev)
        for clause in sorted(byclause):
            evs = byclause[clause]
            rd = os.path.join(out, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (
                self.pid, re.sub(r"\W+", "_", clause)))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "clause": clause,
                           "tier": self.tier, "seed": self.seed,
                           "occurrences": len(evs),
                           "cases": [e["case"] for e in evs[:50]],
                           "events": evs[:3]}, f, indent=1)
            print("  %s: clause '%s' fails on %d transition(s), e.g. %s" % (
                self.pid, clause, len(evs), evs[0]["case"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        done = set()
        for hit, ev, clause in self.known_hits:
            if hit["id"] not in done:
                done.add(hit["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, hit["what"]))
        samples = []
        per = {}
        for ev in self.events:
            k = ev.get("k", "?")
            if per.get(k, 0) < 1:
                per[k] = per.get(k, 0) + 1
                s = json.dumps(ev)
                samples.append(json.loads(s) if len(s) < 3000
                               else {"case": ev["case"], "k": k,
                                     "truncated": s[:1500]})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking",
              "coverage": {
                  "states": self.states, "transitions": self.transitions,
                  "traces_validated_against_impl": self.validated,
                  "recorded_transitions_by_kind": self.kinds,
                  "distinct_cases": len({e["case"] for e in self.events}),
                  "model_runs": self.mc_runs,
                  "corrupted_transitions_rejected": len(self.canaries),
                  "known_findings_hit": sorted(done),
                  "notes": self.notes,
                  "samples": samples[:12] or [{}]},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(byclause)}
        with open(os.path.join(out, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d transitions of the real code validated, "
              "%d model states, %d violation(s), %.1fs" % (
                  self.pid, self.tier, self.validated, self.states,
                  len(byclause), time.time() - self.t0))
        return 1 if byclause else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                if r.get("property") == pid and r.get("status") == "known":
                    res.append(r)
    return res


def match_known(known, ev, clause):
    for r in known:
        if clause in r["clauses"] and re.fullmatch(r["case"], ev["case"]):
            return r
    return None


def guard(fn, *a, **k):
    """Call into the code under test: ('ok', value) or ('raise', text)."""
    try:
        return "ok", fn(*a, **k)
    except MachineryError:
        raise
    except Exception as e:          # what the code raised is an observation
        guard.exc = e
        return "raise", "%s: %s" % (type(e).__name__, str(e)[:200])


def run_pool(fn, items, workers=None, chunksize=1):
    """Run fn over items in forked worker processes, in order."""
    import multiprocessing as mp
    workers = workers or os.cpu_count() or 4
    if len(items) < 2 or workers == 1:
        return [fn(i) for i in items]
    with mp.get_context("fork").Pool(min(workers, len(items))) as p:
        return p.map(fn, items, chunksize)
