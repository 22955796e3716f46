------------------------------ MODULE TraceDoc ------------------------------
(* Validation of recorded executions: every line of the log is one call of   *)
(* parse with the tokens of the template and the result it returned.  The    *)
(* tokens drive the machine of Bicep.tla; at the end of a template its       *)
(* elements must be those of the recorded result.                            *)
EXTENDS Bicep, Json, IOUtils, TLCExt

Log == ndJsonDeserialize(IOEnv.TRACE_LOG)
Lines == IOEnv.LINES = "1"     \* whether line numbers are compared

RECURSIVE Match(_, _)
Match(v, w) ==
  CASE v[1] = "o" -> /\ w[1] = "d" /\ Len(v[2]) = Len(w[2])
                     /\ \A i \in 1..Len(v[2]) : v[2][i][1] = w[2][i][1] /\ Match(v[2][i][2], w[2][i][2])
    [] v[1] = "d" -> /\ w[1] = "d" /\ Len(v[2]) = Len(w[2])
                     /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(w[2]) :
                          v[2][i][1] = w[2][j][1] /\ Match(v[2][i][2], w[2][j][2])
    [] v[1] = "a" -> /\ w[1] = "a" /\ Len(v[2]) = Len(w[2])
                     /\ \A i \in 1..Len(v[2]) : Match(v[2][i], w[2][i])
    [] v[1] = "w" -> w[1] = "s"
    [] OTHER -> v[1] = w[1] /\ v[2] = w[2]

SameElement(e, r) == /\ e.cat = r.cat /\ e.name = r.name /\ Match(e.attrs, r.attrs)
                     /\ Lines => e.sl = r.sl /\ e.el = r.el

DefaultScope == [cat |-> "globals", name |-> "scope", sl |-> 0, el |-> 0,
                 attrs |-> D(<<<<"value", S("resourceGroup")>>>>)]
WithScope(q) == IF \E i \in 1..Len(q) : q[i].cat = "globals" THEN q ELSE <<DefaultScope>> \o q

SameDoc(q, rec) ==
  LET e == WithScope(q) IN
  /\ Len(e) = Len(rec)
  /\ \A i \in 1..Len(e) : \E j \in 1..Len(rec) : SameElement(e[i], rec[j])

Unmatched(q, rec) == LET e == WithScope(q) IN
   {e[i].cat \o "." \o e[i].name : i \in {i \in 1..Len(e) : ~\E j \in 1..Len(rec) : SameElement(e[i], rec[j])}}

VARIABLES d, l, st, bad, known
vars == <<d, l, st, bad, known>>

Init == d = 1 /\ l = 1 /\ st = Fresh /\ bad = 0 /\ known = 0

Rec == Log[d]

\* the machine follows the next token of the template
Follow == /\ d <= Len(Log) /\ l <= Len(Rec.toks) /\ st.err = ""
          /\ st' = Consume(st, Rec.toks[l])
          /\ l' = l + 1 /\ UNCHANGED <<d, bad, known>>

Verdict(kind) ==
  IF kind \in {"ok", "open"} THEN TRUE
  ELSE PrintT("TRACE " \o ToJson([kind |-> kind, id |-> Rec.id, tok |-> l - 1, err |-> st.err,
         unmatched |-> IF Rec.ok /\ st.err = "" THEN Unmatched(Elements(st), Rec.els) ELSE {}]))

\* the template is read, or it is not one of the language
Return ==
  /\ d <= Len(Log) /\ (l > Len(Rec.toks) \/ st.err # "")
  /\ LET kind == IF st.err # "" THEN IF Rec.ok THEN "accepted" ELSE "ok"
                 ELSE IF ~st.done THEN "incomplete"
                 ELSE IF ~Rec.ok THEN "rejected"
                 ELSE IF ~Rec.plain THEN "not plain data"
                 ELSE IF SameDoc(Elements(st), Rec.els) THEN "ok"
                 ELSE IF SameDoc(ElementsKF(st), Rec.els) THEN "known"
                 ELSE "differs"
     IN /\ Verdict(kind)
        /\ bad' = bad + (IF kind \in {"ok", "open", "known"} THEN 0 ELSE 1)
        /\ known' = known + (IF kind = "known" THEN 1 ELSE 0)
  /\ d' = d + 1 /\ l' = 1 /\ st' = Fresh

Next == Follow \/ Return
Spec == Init /\ [][Next]_vars

\* frames are properly stacked and lines only grow, in every state of every run
Sane == /\ st.ctl # <<>> /\ st.ctl[Len(st.ctl)].k = "top"
        /\ st.last <= st.line
        /\ \A i \in 1..Len(st.els) : st.els[i].sl <= st.els[i].el
Done == d > Len(Log) => PrintT("TRACEDONE " \o ToJson([docs |-> Len(Log), bad |-> bad, known |-> known]))
=============================================================================
