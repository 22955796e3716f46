"""Records executions of the code under test:  record.py SOURCE LOG SEED

Every line of the log is one call of parse: the tokens of the template, and
whether it was accepted with which elements.  spec/TraceDoc.tla decides.
"""
from __future__ import annotations

import json
import os
import random
import signal
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import lexer  # noqa: E402
import modes  # noqa: E402
import project  # noqa: E402


def corpus(_seed):
    """The example templates that come with the code."""
    for p in sorted(Path(REPO).glob("tests/**/*.bicep")):
        yield str(p.relative_to(REPO)), p.read_bytes().decode("utf-8")


# templates whose gaps are probed with every kind of line break
GAPS = [
    "@a(b)\n@c()\nparam p (int|string)[]? = q", "var v = f(a,[b,c],{d:e\ng:h})", "var v = a.b[c].listKeys(d,e)!",
    "resource r 'a/b@1' existing = if(c){\nn:m\nresource s 'x' = {\nk:l\n}\n}", "output o array = [for x in y:if(z){a:b}]",
    "output o array = [for (x,i) in items(y):x]", "var v = [for x in items (y): x]", "type t = 'a'|null|{\na:b?\n}", "var v = a ? [b] : (c)",
    "import {a as b, c} from 'x.bicep'", "func f(a string,b int) string => map(a,(x,y)=>x+y)",
    "module m 'a.bicep' = [for x in y: {\na:b\n}]\nvar z = - a + !b", "extension e with {\na:b\n} as f\ntargetScope='tenant'",
    "var v = [\na\nb, c\n]", "metadata m = 'x'\nvar s = '''a'''",
    "resource r 'a/b@1' = [for x in y: if (c) {\nresource s 'x' = [for z in w: {\nk:l\n}]\n}]",
]
BREAKS = ["\n", "//c\n", "\n  \n", "\n //c\n", "//c\n //d\n", "//c\n   \n", "//c\n   \n  \n", "\r\n", "#x\n", "\n/* c */ //d\n", "// c\r\n#y\r\n"]


def gaps(seed, breaks=None):
    rnd = random.Random(seed)
    for i, d in enumerate(GAPS):
        toks = lexer.lex(d)[:-1]
        for at in range(len(toks) + 1):
            for k, brk in enumerate(BREAKS):
                if breaks is not None and rnd.randrange(len(BREAKS)) >= breaks:
                    continue
                yield f"gap {i}:{at}:{k}", join(toks[:at]) + " " + brk + join(toks[at:])


def join(toks):
    s = ""
    for t in toks:
        s += t["x"] if not s or s.endswith((" ", "\n")) or t["c"] == "nl" else " " + t["x"]
    return s


SOURCES = {"corpus": corpus, "gaps": lambda seed: gaps(seed, 3), "gaps-all": gaps}


def main() -> None:
    source, log, seed = sys.argv[1:]
    from pycep import BicepParser
    from pycep.models import BicepElement

    parser = BicepParser(add_line_numbers=True)
    sys.setrecursionlimit(6000)
    signal.signal(signal.SIGVTALRM, modes.endless)
    hung = False
    with open(log, "w", encoding="utf-8") as f:
        for ident, text in SOURCES[source](int(seed)):
            try:
                toks = lexer.lex(text)
            except lexer.LexError:
                continue
            rec = {"id": ident, "text": text, "toks": toks, "ok": False, "els": [], "plain": True}
            if hung:
                break
            signal.setitimer(signal.ITIMER_VIRTUAL, modes.ENDLESS)
            try:
                result = parser.parse(text=text)
            except Exception as e:
                hung = "no outcome within" in str(e)
            else:
                rec["ok"] = True
                try:
                    rec["els"] = project.elements(result, BicepElement)
                except project.NotPlain:
                    rec["plain"] = False
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            f.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
