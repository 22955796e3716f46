-------------------------------- MODULE Emit --------------------------------
(* Output of generated templates: one line of JSON per template with its     *)
(* tokens and the elements the specification derives from them.              *)
EXTENDS Bicep, Json, IOUtils

\* e: expected elements, k: elements with the known deviation, if different
Expected(s) ==
  LET e == Elements(s)
      k == ElementsKF(s)
  IN [e |-> e, k |-> IF s.kids = s.kidsKF THEN <<>> ELSE <<k>>]

EmitDoc(id, toks, s) ==
  PrintT("DOC " \o ToJson([id |-> id, t |-> [i \in 1..Len(toks) |-> <<toks[i].c, toks[i].x>>],
                           ok |-> TRUE] @@ Expected(s)))
EmitBad(id, toks, why) ==
  PrintT("DOC " \o ToJson([id |-> id, t |-> [i \in 1..Len(toks) |-> <<toks[i].c, toks[i].x>>],
                           ok |-> FALSE, why |-> why]))

(******************************* tokens ************************************)
Lf == "\n"
T(c) == Tok(c, c, c, 0)
Id(n) == Tok("id", n, n, 0)
Num(x, v) == Tok("int", x, v, 0)
Str(content) == Tok("str", "'" \o content \o "'", content, 0)
Fn(name) == Tok("fn", name \o "(", name, 0)
Nl == Tok("nl", Lf, "nl", 1)
Eof == Tok("eof", "", "", 0)
=============================================================================
