"""Conformance worker: replays templates of the specification on the code under test.

Runs under the interpreter that has the code's dependencies.  The first line of
standard input is the job (JSON), every further line is one line of TLC's
output with a template; the result is written to the file named in the job.
"""
from __future__ import annotations

import json
import os
import random
import sys
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

import lexer  # noqa: E402
import modes  # noqa: E402
import project  # noqa: E402

# markers of the specification for characters TLC's strings are not used with
MARKS = {"~U1~": "\u00e4\u00df", "~U2~": "\u65e5\u672c", "~U3~": "\U0001F680", "~U4~": "e\u0301\u200b\u00a0", "~CR~": "\r",
         "~U5~": "\ufeff\u2028\u0085\x0b\x0c", "~U6~": "\u05d0\u202e\x00\x7f\ud7ff\uffff",
         "~U7~": "e\u0301", "~U8~": "\uff11\ufb01", "~ID~": "\u00e9"}


def marked(text: str, keep_cr=False) -> str:
    """The text with marks in place of the characters."""
    for mark, repl in MARKS.items():
        if repl != "\r" or not keep_cr:
            text = text.replace(repl, mark)
    return text


_pair_cache: dict = {}


def glue_ok(a: str, b: str) -> bool:
    """May the texts of two tokens stand next to each other?"""
    k = (a, b)
    if k not in _pair_cache:
        try:
            got = [t["x"] for t in lexer.lex(a + b)[:-1]]
        except lexer.LexError:
            got = None
        _pair_cache[k] = got == [a, b] and not (a.endswith("'") and b.startswith("'")) and not (a.endswith("/") and b.startswith(("/", "*")))
    return _pair_cache[k]


def render(toks, style: str, rnd=None) -> str:
    """Text of a token sequence [[class, text], ...]. Layout tokens are explicit, spaces are chosen here."""
    out = []
    prev = None
    for c, x in toks:
        if c == "eof":
            break
        if c not in ("ws", "nl") and prev is not None and prev[0] not in ("ws", "nl"):
            if style == "spaces":
                out.append(" ")
            elif style == "min":
                out.append("" if glue_ok(prev[1], x) else " ")
            else:
                free = glue_ok(prev[1], x)
                out.append(rnd.choice(["", "", " ", "  ", "\t"] if free else [" ", " ", "\t", " \t "]))
        out.append(x)
        prev = (c, x)
    return "".join(out)


def same_tokens(toks, text) -> bool:
    """Does the text consist of exactly these tokens (for the tokenizer of the harness)?"""
    try:
        got = [(t["c"], t["x"]) for t in lexer.lex(text) if t["c"] not in ("ws", "nl")]
    except lexer.LexError:
        return False
    return got == [(c, x) for c, x in toks if c not in ("ws", "nl")]


def variants(doc, styles, rnd, job_mode=None):
    """(name, text) renderings of a document that are to be replayed."""
    toks = doc["t"]
    if "hist" in doc:
        yield "history", modes.describe(doc["hist"])
        return
    if "sched" in doc:
        yield "schedule", json.dumps([doc["pair"], doc["same"], doc["sched"]])
        return
    if doc.get("raw"):
        # the text itself is the subject
        if job_mode == "time":
            yield "time", modes.stretched(toks, 200)
            return
        if job_mode == "work":
            yield "work", toks[0][1]
            return
        yield "raw", "".join(x for _, x in toks)
        return
    for style in styles:
        if style == "auto":
            style = "spaces" if rnd.random() < 0.5 else "min"
        crlf = style.startswith("crlf-")
        base = style.removeprefix("crlf-")
        use = [(c, x.replace("\n", "\r\n") if crlf and c in ("ws", "nl") else x) for c, x in toks]
        if any(c == "bad" for c, _ in use):
            yield style, render(use, "spaces")
            continue
        text = render(use, base, rnd)
        if same_tokens(use, text):
            yield style, text
            continue
        text = render(use, "spaces")
        if same_tokens(use, text):
            yield style.replace(base, "spaces"), text
        else:
            yield "harness", text


def main() -> None:
    job = json.loads(sys.stdin.readline())
    sys.setrecursionlimit(6000)
    run = modes.Runner(job)
    res = {"docs": 0, "runs": 0, "bad_docs": 0, "tokens": 0, "known": [], "violations": [], "harness": [], "samples": [], "kinds": {},
           "parses": 0, "distinct": 0}
    seen = set()
    for line in sys.stdin:
        for mark, repl in MARKS.items():
            if mark in line:
                line = line.replace(mark, json.dumps(json.dumps(repl)[1:-1])[1:-1])
        if line.startswith('"TABLE '):
            job["table"] = json.loads(json.loads(line)[6:])
            continue
        doc = json.loads(json.loads(line)[4:])
        crc = zlib.crc32(json.dumps([doc["id"], doc["t"], doc.get("hist") or doc.get("sched")]).encode())
        rnd = random.Random(job["seed"] * 1000003 + crc)
        res["docs"] += 1
        res["bad_docs"] += not doc["ok"]
        res["tokens"] += len(doc["t"])
        res["kinds"][doc["id"]] = res["kinds"].get(doc["id"], 0) + 1
        if len(res["violations"]) >= job.get("max_violations", 20) or run.hung:
            continue
        for style, text in variants(doc, job["styles"], rnd, job.get("mode")):
            if style == "harness":
                if doc["ok"]:
                    res["harness"].append(text)
                continue
            res["runs"] += 1
            h = hash(text)
            if h not in seen:
                seen.add(h)
                res["distinct"] += 1
            diffs, known = run.check(doc, text, rnd)
            if known:
                res["known"].append(text)
            if diffs:
                res["violations"].append({"id": doc["id"], "style": style, "text": text, "diffs": diffs[:10], "doc": doc})
            if len(res["samples"]) < 2 and (len(doc["t"]) > 10 or job.get("mode") in ("time", "work")) and crc % 50 == 0:
                res["samples"].append(text)
    res["parses"] = run.parses
    res["hung"] = bool(run.hung)
    res["notes"] = run.notes
    res["known"] = [len(res["known"])] + res["known"][:3]
    res["harness"] = [len(res["harness"])] + res["harness"][:3]
    with open(job["out"], "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
