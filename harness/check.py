#!/usr/bin/env python3
"""Decides one property:  check.py Pxx [quick|thorough]

Explores the specification with TLC, replays what it generates on the code in
/repo and validates recorded executions of that code against the
specification.  Exit 0: the property held on everything explored, 1: it is
broken (VIOLATION line), anything else: the check itself failed.
"""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PYTHON = os.environ.get("VERIF_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
CPUS = max(2, min(8, os.cpu_count() or 2))

sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))
import lexer  # noqa: E402
import worker  # noqa: E402
from families import FAMILIES, LEVEL, LEVELS  # noqa: E402


class CheckError(Exception):
    pass


class Check:
    def __init__(self, prop: str, tier: str, seed: int):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.tmp = Path(tempfile.mkdtemp(prefix="verif-"))
        self.states = self.transitions = 0
        self.families = []
        self.violations = []
        self.known = {}
        self.samples = []
        self.totals = {}
        self.traces = 0

    # ------------------------------------------------------------------ TLC
    def env(self, **extra):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=str(REPO), TMPDIR=str(self.tmp), TMP=str(self.tmp))
        env.update({k: str(v) for k, v in extra.items()})
        return env

    def tlc(self, module: str, env: dict, on_line, workers=CPUS, timeout=3600):
        """Runs TLC on a module; on_line gets every line of its output that starts with a quote."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", f"{module}.cfg", f"{module}.tla"]
        jvm = f"-Djava.io.tmpdir={self.tmp} -Xss64m -Xmx6g -XX:+UseParallelGC"
        p = subprocess.Popen(cmd, cwd=SPEC, env=self.env(JAVA_TOOL_OPTIONS=jvm, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, encoding="utf-8")
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        tail = []
        try:
            for line in p.stdout:
                if line.startswith('"'):
                    on_line(line)
                else:
                    tail.append(line)
                    if len(tail) > 200:
                        del tail[:100]
            rc = p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                p.kill()
        shutil.rmtree(meta, ignore_errors=True)
        text = "".join(tail)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        if rc != 0 or not m:
            raise CheckError(f"TLC failed on {module} {env} (exit {rc}):\n{text[-3000:]}")
        generated, distinct = map(int, m[-1])
        self.states += distinct
        self.transitions += generated
        return distinct

    # ------------------------------------------------------------- replaying
    def workers(self, job: dict, n=CPUS):
        procs = []
        for i in range(n):
            # an odd worker has no UTF-8 locale
            env = self.env() if i % 2 == 0 else self.env(LC_ALL="C", LANG="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", PYTHONIOENCODING="utf-8")
            # sets have another order in each worker; one runs without assertions, and those that look for
            # what is not refused, as nothing else is refused with assertions
            env["PYTHONHASHSEED"] = str(i)
            env["PYTHONOPTIMIZE"] = "1" if i == 6 or (self.prop == "P18" and i != 0) else ""
            out = self.tmp / f"res-{len(self.families)}-{i}.json"
            p = subprocess.Popen([PYTHON, str(HERE / "worker.py")], stdin=subprocess.PIPE, env=env, cwd=self.tmp, text=True,
                                 encoding="utf-8")
            p.stdin.write(json.dumps(dict(job, out=str(out))) + "\n")
            procs.append((p, out))
        return procs

    # a call had no outcome: exploring further would take too long
    hung = False

    def finish(self, procs, name, distinct, broken=False):
        results = []
        for p, _ in procs:
            try:
                p.stdin.close()
            except BrokenPipeError:
                broken = True
        for p, out in procs:
            rc = p.wait()
            if rc < 0:
                # neither a result nor an error
                self.violations.append({"family": name, "id": name, "style": "", "text": "", "diffs": [f"a call ended the process with signal {-rc}"], "doc": None})
                self.hung = True
            elif rc > 0:
                raise CheckError(f"worker failed on {name}")
            else:
                results.append(json.loads(out.read_text()))
        if broken and not self.hung:
            raise CheckError(f"worker failed on {name}")
        self.hung = self.hung or any(r["hung"] for r in results)
        fam = {"family": name, "model_states": distinct}
        for k in ("docs", "bad_docs", "runs", "distinct", "parses", "tokens"):
            fam[k] = sum(r[k] for r in results)
            self.totals[k] = self.totals.get(k, 0) + fam[k]
        fam["known"] = sum(r["known"][0] for r in results)
        fam["not_renderable"] = sum(r["harness"][0] for r in results)
        for r in results:
            for k, v in r["notes"].items():
                fam[k] = fam.get(k, 0) + v
        self.families.append(fam)
        if fam["not_renderable"] > max(5, fam["docs"] // 20):
            raise CheckError(f"{name}: {fam['not_renderable']} templates could not be rendered: {[r['harness'][1:2] for r in results][:3]}")
        if not fam["docs"] and not self.hung:
            raise CheckError(f"{name}: no templates were generated")
        for r in results:
            self.samples += r["samples"][:1]
            for v in r["violations"]:
                self.violations.append(dict(v, family=name))
            if r["known"][0]:
                self.known.setdefault("KF-01", [0, ""])
                self.known["KF-01"] = [self.known["KF-01"][0] + r["known"][0], r["known"][1]]

    def generate(self, module: str, env: dict, job: dict, name: str):
        """Replays every template that TLC finds in a generator module."""
        if self.hung:
            return
        job = dict({"seed": self.seed, "styles": ["auto"]}, **job)
        procs = self.workers(job)
        batch, turn, tables = [], 0, False

        def flush():
            nonlocal turn
            procs[turn % len(procs)][0].stdin.write("".join(batch))
            batch.clear()
            turn += 1

        def on_line(line):
            nonlocal tables
            if line.startswith('"TABLE '):
                if not tables:
                    tables = True
                    for p, _ in procs:
                        p.stdin.write(line)
            elif line.startswith('"DOC '):
                batch.append(line)
                if len(batch) >= 64:
                    flush()

        try:
            distinct = self.tlc(module, env, on_line)
            if batch:
                flush()
        except BrokenPipeError:
            self.finish(procs, name, 0, broken=True)
            return
        except BaseException:
            for p, _ in procs:
                p.kill()
            raise
        self.finish(procs, name, distinct)

    # ------------------------------------------------------------- variations
    def bases(self, profiles, count, fuel, extra=(), longest=160):
        """File with the tokens of templates that are to be varied: pseudo-random ones of GenDoc, and the given texts."""
        texts = [(f"text {i}", t) for i, t in enumerate(extra)]
        for profile in profiles:
            got = []
            env = {"PROFILE": profile, "SEED": self.seed + 100, "COUNT": count, "FIRST": 1, "FUEL": fuel}
            self.tlc("GenDoc", env, lambda line: got.append(line) if line.startswith('"DOC ') else None)
            docs = sorted((json.loads(json.loads(line)[4:])["t"] for line in got), key=json.dumps)
            texts += [(f"{profile} {i}", worker.render(t, "spaces")) for i, t in enumerate(docs)]
        path = self.tmp / f"bases-{len(self.families)}.ndjson"
        n = 0
        with open(path, "w", encoding="utf-8") as f:
            for ident, text in texts:
                try:
                    toks = lexer.lex(worker.marked(text))
                except lexer.LexError:
                    continue
                if len(toks) <= longest and worker.marked(text).isascii():
                    n += 1
                    f.write(json.dumps({"id": ident, "toks": toks}) + "\n")
        if not n:
            raise CheckError("no templates to vary")
        return path

    def pool(self, texts):
        """File with the tokens of the templates that histories or schedules use; texts: {id: (text, core, pair)}."""
        r = subprocess.run([PYTHON, str(HERE / "sched.py")], input=json.dumps([t for t, _, _ in texts.values()]), env=self.env(), cwd=self.tmp,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"counting steps failed:\n{r.stderr[-2000:]}")
        path = self.tmp / f"pool-{len(self.families)}.ndjson"
        with open(path, "w", encoding="utf-8") as f:
            for (ident, (text, core, pair)), steps in zip(texts.items(), json.loads(r.stdout)):
                try:
                    toks = lexer.lex(worker.marked(text, keep_cr=True))
                except lexer.LexError:
                    toks = [lexer.tok("bad", text), lexer.tok("eof", "")]
                f.write(json.dumps({"id": ident, "toks": toks, "core": core, "pair": pair, "steps": steps, "group": ident.split(":")[0]}) + "\n")
        return path

    # ---------------------------------------------------------------- traces
    def validate(self, source: str, lines: bool):
        """Validates recorded executions against the machine with TraceDoc."""
        if self.hung:
            return
        log = self.tmp / f"trace-{source}.ndjson"
        r = subprocess.run([PYTHON, str(HERE / "record.py"), source, str(log), str(self.seed)], env=self.env(), cwd=self.tmp, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"recording {source} failed:\n{r.stderr[-2000:]}")
        out = []
        n = self.tlc("TraceDoc", {"TRACE_LOG": log, "LINES": 1 if lines else 0}, out.append, workers=1)
        done = None
        for line in out:
            text = json.loads(line)
            if text.startswith("TRACEDONE "):
                done = json.loads(text[10:])
            elif text.startswith("TRACE "):
                rec = json.loads(text[6:])
                if rec["kind"] == "known":
                    self.known.setdefault("KF-01", [0, ""])
                    self.known["KF-01"] = [self.known["KF-01"][0] + 1, rec["id"]]
                else:
                    self.violations.append({"family": f"trace:{source}", "id": rec["id"], "style": "recorded", "text": self.trace_text(log, rec["id"]),
                                            "diffs": [json.dumps(rec)], "doc": None})
        if done is None:
            raise CheckError("trace validation did not reach the end of the log")
        self.traces += done["docs"]
        self.families.append({"family": f"trace:{source}", "model_states": n, **done})

    @staticmethod
    def trace_text(log, ident):
        for line in open(log, encoding="utf-8"):
            d = json.loads(line)
            if d["id"] == ident:
                return d.get("text", ident)
        return ident

    def probe(self, ident, text, wrong):
        """Does the known finding still show: exactly this template with exactly this result?"""
        code = "import json, sys; from pycep import BicepParser; print(json.dumps(BicepParser().parse(text=sys.stdin.read())))"
        r = subprocess.run([PYTHON, "-c", code], input=text, env=self.env(PYTHONPATH=str(REPO)), cwd=self.tmp, capture_output=True, text=True)
        if r.returncode == 0 and json.loads(r.stdout) == wrong:
            self.known[ident] = [1, text]

    # --------------------------------------------------------------- results
    def report(self) -> int:
        evidence = VERIF / "evidence"
        evidence.mkdir(exist_ok=True)
        total = len(self.violations)
        level = LEVELS.get(self.prop, LEVEL)
        doc = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.totals.get("runs", 0) + self.traces,
                "recorded_executions_among_them": self.traces, "distinct_templates_replayed": self.totals.get("distinct", 0),
                "malformed_templates": self.totals.get("bad_docs", 0), "calls_of_the_code_by_replay": self.totals.get("parses", 0),
                "families": self.families, "samples": self.samples[:6] or [f["family"] for f in self.families],
            },
            "assumptions": ["tokenizer and projection of the harness (harness/lexer.py, harness/project.py)", "TLC 1.8"],
            "wall_s": round(time.time() - self.start, 1), "violations": total,
        }
        if level == "exploration":
            doc["coverage"] = {"evaluations": self.totals["parses"], "distinct_nontrivial": self.totals["distinct"], "templates_enumerated_by_tlc": self.totals["docs"],
                               "rule": "distinct templates, each of one or more parts of the specification repeated to fill the length, and timed at two lengths at least",
                               "families": self.families, "samples": self.samples[:6] or [f["family"] for f in self.families]}
        (evidence / f"{self.prop}.json").write_text(json.dumps(doc, indent=1) + "\n")
        for line in self.known_lines():
            print(line)
        print(f"{self.prop} {self.tier}: {self.states} states, {self.totals.get('runs', 0)} replays, {self.traces} recorded executions, "
              f"{total} violations, {time.time() - self.start:.1f} s")
        replay = evidence / "replay"
        if not total:
            (replay / f"{self.prop}.json").unlink(missing_ok=True)
            return 0
        replay.mkdir(exist_ok=True)
        path = replay / f"{self.prop}.json"
        # the shortest one is the easiest to read
        self.violations.sort(key=lambda v: len(v["text"]))
        path.write_text(json.dumps(self.violations[:20], indent=1, ensure_ascii=False) + "\n", encoding="utf-8")
        v = self.violations[0]
        print(f"first violation ({v['family']}, {v['id']}, {v['style']}): {v['text']!r}")
        for d in v["diffs"][:5]:
            print("   ", d[:500])
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1

    def known_lines(self):
        listed = json.loads((VERIF / "known_findings.json").read_text())["findings"]
        for kf in listed:
            if self.prop in kf["properties"] and (kf["id"] in self.known):
                yield f"KNOWN-FINDING: property={self.prop} {kf['id']} {kf['what']} (seen {self.known[kf['id']][0]} times)"


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = Check(prop, tier, seed)
    try:
        FAMILIES[prop](check, tier == "thorough")
        return check.report()
    except CheckError as e:
        print(f"check failed: {e}", file=sys.stderr)
        if check.violations:
            # what has been found does not become wrong by a later failure
            return check.report()
        return 2
    finally:
        shutil.rmtree(check.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
