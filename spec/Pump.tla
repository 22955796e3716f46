-------------------------------- MODULE Pump ---------------------------------
(* Growth: templates in which one construct is repeated or nested n times.   *)
(*   size   every construct with n from 0 to a bound; the machine says what  *)
(*          the template means                                               *)
(*   work   every construct at three sizes, each twice the one before        *)
(*   time   long ones, also unterminated and of strange characters, of which *)
(*          only the end of the call matters                                 *)
EXTENDS Hosts, SequencesExt, FiniteSetsExt

Mode == IOEnv.PROFILE
Scale == atoi(IOEnv.SCALE)
Q(a, b) == IF Scale = 0 THEN a ELSE b
Seed == atoi(IOEnv.SEED)

Nm(x, i) == Id(x \o ToString(i))
N1(i) == Num(ToString(i * 37), ToString(i * 37))
TopPat == {"decls", "params", "imports", "decorators", "nested", "funcargs", "aliases", "members", "typearr", "typenest", "typeunion", "children", "extensions"}
ValPat == {"arr", "obj", "par", "call", "not", "minus", "plus", "lplus", "ternthen", "ternelse", "terncond", "lam", "index", "inindex", "loop", "dot", "safe", "steps", "nest", "coalesce",
           "items", "itemsnl", "props", "propsnl", "args", "known", "accargs", "lamvars", "interp", "quotes", "mlquotes", "mllines", "lines", "comments", "mixed", "wide",
           "longstr", "longname", "longkey", "longml", "longcomment"}
Pats == TopPat \union ValPat
\* the constructs that belong to a property
Of == IOEnv.OF
Mine == CASE Of = "P01" -> {"decls", "params", "imports", "extensions", "children", "nested", "obj", "comments"}
  [] Of = "P02" -> {"members", "typearr", "typenest", "typeunion", "aliases", "funcargs", "extensions", "params", "imports"}
  [] Of = "P03" -> {"items", "itemsnl", "props", "propsnl", "arr", "obj", "par", "mixed", "wide", "loop", "args", "longkey"}
  [] Of = "P04" -> {"interp", "quotes", "mlquotes", "mllines", "propsnl", "members", "longstr", "longml", "longkey"}
  [] Of = "P05" -> {"longname", "longkey", "longstr"}
  [] Of = "P06" -> {"par", "not", "minus", "plus", "lplus", "ternthen", "ternelse", "terncond", "coalesce", "mixed"}
  [] Of = "P07" -> {"index", "inindex", "dot", "safe", "steps", "nest", "accargs", "call", "longname"}
  [] Of = "P08" -> {"known", "args", "call", "accargs", "wide"}
  [] Of = "P09" -> {"lam", "lamvars", "funcargs"}
  [] Of = "P10" -> {"decorators", "params"}
  [] Of = "P11" -> {"nested", "children", "obj"}
  [] Of = "P12" -> {"loop"}
  [] Of = "P14" -> TopPat \union {"itemsnl", "propsnl", "mllines", "lines", "comments", "mlquotes", "longcomment", "longml"}
  [] Of = "P16" -> {"longcomment", "itemsnl", "propsnl", "lines", "comments", "decorators", "nested"}
  [] OTHER -> Pats

\* what stands before, what the i-th repetition adds before and after the middle
Pre(p) == CASE p = "decorators" -> <<>>
  [] p = "nested" -> ResHead \o <<T("{"), Nl>>
  [] p = "children" -> <<>>
  [] p = "funcargs" -> <<Id("func"), Fn("f"), Id("a"), Id("int")>>
  [] p = "aliases" -> <<Id("import"), T("{"), Id("a"), Id("as"), Id("b")>>
  [] p = "members" -> <<Id("type"), Id("t"), T("="), Str("m")>>
  [] p = "typearr" -> <<Id("param"), Id("p"), Id("int")>>
  [] p \in {"typenest", "typeunion"} -> <<Id("output"), Id("p")>> \o (IF p = "typeunion" THEN <<T("("), Id("a")>> ELSE <<>>)
  [] p \in TopPat -> <<>>
  [] p \in {"items", "itemsnl"} -> <<T("["), Id("a")>>
  [] p \in {"props", "propsnl"} -> <<T("{"), Id("a"), T(":"), Id("b")>>
  [] p = "args" -> <<Fn("foo"), Id("a")>>
  [] p = "known" -> <<Fn("union"), Id("a"), T(","), Id("b")>>
  [] p = "accargs" -> <<Id("x"), T("."), Fn("listKeys"), Id("a")>>
  [] p = "lamvars" -> <<Fn("map"), Id("x"), T(","), T("("), Id("a"), T(","), Id("b")>>
  [] p \in {"lplus", "dot", "safe", "steps", "nest", "index", "terncond"} -> <<Id("x")>>
  [] p \in {"lines", "comments"} -> <<T("[")>>
  [] OTHER -> <<>>
Open(p, i) == CASE p = "decls" -> <<Id("var"), Nm("v", i), T("="), N1(i), Nl>>
  [] p = "params" -> <<T("@"), Fn("minValue"), N1(i), T(")"), Nl, Id("param"), Nm("p", i), Id("int"), T("="), N1(i), Nl>>
  [] p = "imports" -> <<Id("import"), T("{"), Nm("a", i), T("}"), Id("from"), Str("f" \o ToString(i % 3)), Nl>>
  [] p = "extensions" -> <<Id("extension"), Nm("e", i), Nl>>
  [] p = "decorators" -> <<T("@"), Fn(IF i % 3 = 0 THEN "custom" ELSE IF i % 3 = 1 THEN "description" ELSE "sys.maxLength"), N1(i), T(")"), Nl>>
  [] p = "nested" -> <<Id("resource"), Nm("c", i), Str("t" \o ToString(i)), T("="), T("{"), Nl, Id("k"), T(":"), N1(i), Nl>>
  [] p = "children" -> <<Id("resource"), Nm("r", i), Str("A/b@" \o ToString(i)), T("="), T("{"), Nl, Id("resource"), Nm("c", i), Str("d" \o ToString(i)), T("="), T("{"), T("}"), Nl, T("}"), Nl>>
  [] p = "funcargs" -> <<T(","), Nm("a", i), Id(IF i % 2 = 0 THEN "int" ELSE "string")>>
  [] p = "aliases" -> <<T(","), Nm("a", i)>> \o (IF i % 2 = 0 THEN <<Id("as"), Nm("b", i)>> ELSE <<>>)
  [] p = "members" -> <<T("|"), Str("m" \o ToString(i))>>
  [] p = "typearr" -> <<T("["), T("]")>>
  [] p = "typenest" -> <<T("("), Nm("a", i), T("|")>>
  [] p = "typeunion" -> <<T("|"), Nm("a", i)>>
  [] p = "arr" -> <<T("[")>>
  [] p = "obj" -> <<T("{"), Nm("k", i), T(":")>>
  [] p = "par" -> <<T("(")>>
  [] p = "call" -> <<Fn("f" \o ToString(i))>>
  [] p = "not" -> <<T("!")>>
  [] p = "minus" -> <<T("-")>>
  [] p = "plus" -> <<Nm("a", i), T(IF i % 2 = 0 THEN "+" ELSE "==")>>
  [] p = "coalesce" -> <<Nm("a", i), T("??")>>
  [] p = "lplus" -> <<T(IF i % 3 = 0 THEN "*" ELSE IF i % 3 = 1 THEN "-" ELSE "&&"), Nm("a", i)>>
  [] p = "ternthen" -> <<Nm("a", i), T("?")>>
  [] p = "ternelse" -> <<Nm("a", i), T("?"), Nm("b", i), T(":")>>
  [] p = "terncond" -> <<T("?"), Nm("b", i), T(":"), Nm("a", i)>>
  [] p = "lam" -> <<Fn("map"), Id("q"), T(","), Nm("x", i), T("=>")>>
  [] p = "index" -> <<T("["), N1(i), T("]")>>
  [] p = "inindex" -> <<Nm("a", i), T("[")>>
  [] p = "loop" -> <<T("{"), Id("k"), T(":"), T("["), Id("for"), Nm("x", i), Id("in"), Nm("y", i), T(":")>>
  [] p = "dot" -> <<T("."), Nm("a", i)>>
  [] p = "safe" -> <<T("."), T("?"), Nm("a", i)>>
  [] p = "nest" -> <<T("::"), Nm("a", i)>>
  [] p = "steps" -> CASE i % 4 = 0 -> <<T("."), Nm("a", i)>> [] i % 4 = 1 -> <<T("["), N1(i), T("]")>> [] i % 4 = 2 -> <<T("."), Fn("listKeys"), Nm("b", i), T(")")>> [] OTHER -> <<T("!")>>
  [] p = "items" -> <<T(","), N1(i)>>
  [] p = "itemsnl" -> <<Nl, N1(i)>>
  [] p = "props" -> <<T(","), Nm("k", i), T(":"), N1(i)>>
  [] p = "propsnl" -> <<Nl, Str("k " \o ToString(i)), T(":"), N1(i)>>
  [] p \in {"args", "known", "accargs"} -> <<T(","), N1(i)>>
  [] p = "lamvars" -> <<T(","), Nm("x", i)>>
  [] p = "wide" -> <<T("["), Nm("a", i), T(","), T("{"), Nm("k", i), T(":"), Fn("f"), N1(i), T(","), T("(")>>
  [] p = "mixed" -> CASE i % 5 = 0 -> <<T("[")>> [] i % 5 = 1 -> <<T("{"), Nm("k", i), T(":")>> [] i % 5 = 2 -> <<Fn("f")>> [] i % 5 = 3 -> <<T("(")>> [] OTHER -> <<Nm("a", i), T("[")>>
  [] OTHER -> <<>>
Close(p, i) == CASE p = "nested" -> <<T("}"), Nl>>
  [] p = "typenest" -> <<T(")")>>
  [] p = "arr" -> <<T("]")>> [] p = "obj" -> <<T("}")>> [] p = "par" -> <<T(")")>> [] p = "call" -> <<T(")")>>
  [] p = "ternthen" -> <<T(":"), Nm("b", i)>>
  [] p = "lam" -> <<T(")")>>
  [] p = "inindex" -> <<T("]")>>
  [] p = "loop" -> <<T("]"), T("}")>>
  [] p = "wide" -> <<T(")"), T(")"), T("}"), T("]")>>
  [] p = "mixed" -> CASE i % 5 = 0 -> <<T("]")>> [] i % 5 = 1 -> <<T("}")>> [] i % 5 = 2 -> <<T(")")>> [] i % 5 = 3 -> <<T(")")>> [] OTHER -> <<T("]")>>
  [] OTHER -> <<>>
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN x \o Rep(x, n - 1) ELSE LET h == Rep(x, n \div 2) IN h \o h
Mid(p, n) == CASE p = "decorators" -> <<Id("param"), Id("p"), Id("int")>>
  [] p = "typenest" -> <<Id("int")>>
  [] p = "typeunion" -> <<T("|"), Id("z"), T(")")>>
  [] p = "nested" -> <<Id("m"), T(":"), Id("x"), Nl>>
  [] p = "interp" -> <<Str(Rep("a${", n) \o "b" \o Rep("}c", n) \o Rep("${d}", n))>>
  [] p = "quotes" -> <<Str(Rep("\\'", n) \o "${f('" \o Rep("\\'", n) \o "')}" \o Rep("\\\\", n))>>
  [] p = "mlquotes" -> <<Tok("ml", "'''" \o Rep("''a", n) \o "'''", Rep("''a", n), 0)>>
  [] p = "mllines" -> <<Tok("ml", "'''" \o Rep(Lf, n + 1) \o "'''", Rep(Lf, n), n + 1)>>
  [] p = "longstr" -> <<Str(Rep("1\\n b-", n) \o Rep("a", n))>>
  [] p = "longname" -> <<Id("_" \o Rep("aB9_", n))>>
  [] p = "longkey" -> <<T("{"), Id("k" \o Rep("ab", n)), T(":"), Id("k" \o Rep("ba", n)), T(","), Str(Rep("c ", n)), T(":"), Str("true"), T("}")>>
  [] p = "longml" -> <<Tok("ml", "'''" \o Rep(" a" \o Lf \o "\\ ${b", n) \o "'''", Rep(" a" \o Lf \o "\\ ${b", n), n)>>
  [] p = "longcomment" -> <<T("["), Tok("nl", "/* " \o Rep("a* ' ${", n) \o "*/" \o Lf \o "// " \o Rep("'''b ", n) \o Lf, "cm", 2), Id("a"), Tok("nl", "//" \o Rep("/*", n) \o Lf, "cm", 1), T("]")>>
  [] p = "lines" -> <<Tok("nl", Rep(Lf, n + 1), "nl", n + 1), Id("a")>>
  [] p = "comments" -> <<Tok("nl", Rep("// x" \o Lf \o "/* y */ ", n) \o Lf, IF n = 0 THEN "nl" ELSE "cm", n + 1), Id("a")>>
  [] p = "lamvars" -> <<T(")"), T("=>"), Id("y"), T(")")>>
  [] p \in {"args", "known", "accargs"} -> <<T(")")>>
  [] p \in {"items", "itemsnl"} -> <<T("]")>>
  [] p \in {"props", "propsnl"} -> <<T("}")>>
  [] p \in {"lplus", "dot", "safe", "steps", "nest", "index", "terncond"} -> <<>>
  [] p \in ValPat -> <<Id("z")>>
  [] OTHER -> <<>>
Suf(p) == CASE p = "nested" -> <<T("}")>>
  [] p = "funcargs" -> <<T(")"), Id("int"), T("=>"), Id("a")>>
  [] p = "aliases" -> <<T("}"), Id("from"), Str("x.bicep")>>
  [] p \in {"typenest", "typeunion"} -> <<T("="), Id("v")>>
  [] p \in {"lines", "comments"} -> <<T("]")>>
  [] OTHER -> <<>>
RECURSIVE Opens(_, _, _), ClosesIn(_, _, _)
Opens(p, i, n) == IF i > n THEN <<>> ELSE IF i = n THEN Open(p, i) ELSE LET k == (i + n) \div 2 IN Opens(p, i, k) \o Opens(p, k + 1, n)
ClosesIn(p, i, n) == IF i > n THEN <<>> ELSE IF i = n THEN Close(p, i) ELSE LET k == (i + n) \div 2 IN ClosesIn(p, k + 1, n) \o ClosesIn(p, i, k)
Closes(p, n) == ClosesIn(p, 1, n)

\* a place, and how many repetitions
Wheres(p) == IF p \in TopPat THEN {[name |-> "top", pre |-> <<>>, suf |-> IF p \in {"decls", "params", "imports", "extensions", "children"} THEN Tail(Sentinel) ELSE Sentinel]}
             ELSE {HostVar} \union (IF p \in {"terncond", "lplus"} THEN {} ELSE {HostNamed(h) : h \in {"obj1", "resprop", "fn2"}})
Most == Q(14, 40)

(******************************** time *************************************)
\* a template of the time modes is a sequence of texts, some of which are repeated: the harness chooses how often
Raw(x) == <<"raw", x>>
Again(x) == <<"rep", x>>
RECURSIVE TextIn(_, _, _)
TextIn(toks, i, j) == IF i > j THEN "" ELSE IF i = j THEN toks[i].x \o (IF toks[i].c = "nl" THEN "" ELSE " ")
                      ELSE LET k == (i + j) \div 2 IN TextIn(toks, i, k) \o TextIn(toks, k + 1, j)
TextOf(toks) == TextIn(toks, 1, Len(toks))

Units == <<"a", "'", "${", "}", "{", "\\", "''", "*", "/", "/*", "//", Lf, " ", "#", "*/", "(", "[", "?", ":", ".", "@", "|", "!", "=>", "-", ",", "0", "if(", "a.", "a[", "\\'", "${'", "'}", "$", "~U2~", "\t", "~CR~" \o Lf, "/**/", "// ''' ", "f(",
           "sys.", "az.f(", "listKeys(", ".listKeys(a)", "[?", "::", "??", "if (", "items (", "_", "-a.b/", "@1", "br:", "a:", "a=", "&&", "for x in ", "resource a ", "import ", "A/b@">>
Starts == <<"", "'", "'''", "/*", "//", "var v = ", "var v = '", "var v = '''", "var v = '${", "var v = {", "var v = [", "var v = f(", "param p ", "resource r 'a/b@1' = {" \o Lf, "@d(", "module m 'br:", "var v = a",
            "module m 'br/a:", "module m 'br:mcr.microsoft.com/", "module m 'ts:", "module m 'ts/a:", "resource r '", "resource r 'a/b@", "import '", "import {", "targetScope = '", "@allowed([", "func f(", "var v = [for x in ", "type t = ", "var v = resourceId(">>
Ends == <<"", "'", "'''", Lf \o "var w = 1", "' = {" \o Lf \o "}">>
\* what is opened and closed as often
Pairs == << <<"${", "}">>, <<"${'", "'}">>, <<"a${b(", ")}c">>, <<"${f('", "')}">>, <<"${{a:", "}}">>, <<"(", ")">>, <<"[", "]">>, <<"{a:", "}">>, <<"f(", ")">>, <<"f('${", "}')">>, <<"(a,b)=>", "">>,
            <<"[for x in y:", "]">>, <<"a[", "]">>, <<"a.f(", ")">>, <<"{" \o Lf, Lf \o "}">>, <<"[" \o Lf, Lf \o "]">>, <<"[//" \o Lf, "/*]*/" \o Lf \o "]">>, <<"a?", ":b">>, <<"/*", "*/">>, <<"'''", "'''">>, <<"!(", ")!">>, <<"(a|", ")">> >>
PairStarts == <<"var v = ", "var v = '", "var v = '${", "param p ", "@d(", "var v = f(", "resource r 'a/b@1' = ", "module m 'a' = if(", "metadata m = '", "import '", "type t = ">>
PairEnds == <<"", "'", ")", Lf \o "var w = 1", "}'" \o Lf>>

VARIABLES p, h, n, st, hist
vars == <<p, h, n, st, hist>>
\* constructs that can be repeated very often, as they do not nest
Flat == {"decls", "params", "imports", "decorators", "funcargs", "aliases", "members", "typeunion", "children", "extensions", "items", "itemsnl", "props", "propsnl", "args", "known", "accargs",
         "lamvars", "quotes", "mlquotes", "mllines", "lines", "comments",
         "longstr", "longname", "longkey", "longml", "longcomment"}
More == (IF Scale = 0 THEN {40} ELSE {64, 100, 150}) \union (IF p \in Flat THEN (IF Scale = 0 THEN {300} ELSE {300, 1100}) ELSE {})
Init == \/ /\ Mode = "size" /\ p \in Mine /\ h \in Wheres(p) /\ n = 0
           /\ hist = h.pre \o Pre(p) /\ st = Run(Fresh, hist, 1)
        \/ /\ Mode \in {"long", "work"} /\ p \in Pats /\ h \in Wheres(p) /\ n = 0
           /\ hist = h.pre \o Pre(p) /\ st = Fresh
        \/ /\ Mode = "pairs" /\ p \in 1..Len(Pairs) /\ h \in 1..Len(PairStarts) /\ n = 0 /\ hist = <<>> /\ st = Fresh
        \/ /\ Mode = "time" /\ n = 0
           /\ p \in {i * 1000 + j : i \in 1..Len(Units), j \in 0..Len(Units)} /\ h \in 1..Len(Starts)
           /\ (p \div 1000 # p % 1000)
           \* pairs of units: a share of them
           /\ (p % 1000 = 0 \/ (p * 31 + h * 17 + Seed * 7) % Q(90, 9) = 0)
           /\ hist = <<>> /\ st = Fresh
Next == /\ Mode = "size" /\ n < Most + Cardinality(More)
        /\ \E m \in (IF n < Most THEN {n + 1} ELSE {SetToSortSeq(More, <)[n - Most + 1]}) :
             /\ n' = n + 1
             /\ hist' = hist \o (IF n < Most THEN Open(p, n + 1) ELSE Opens(p, IF n = Most THEN Most + 1 ELSE SetToSortSeq(More, <)[n - Most] + 1, m))
             /\ st' = Run(st, SubSeq(hist', Len(hist) + 1, Len(hist')), 1)
        /\ UNCHANGED <<p, h>>
Spec == Init /\ [][Next]_vars

Real == IF n <= Most THEN n ELSE SetToSortSeq(More, <)[n - Most]
Rest == Mid(p, Real) \o Closes(p, Real) \o Suf(p) \o h.suf
Emits(toks) == LET r == Run(st, Rest, 1) IN
  IF r.err = "" /\ r.done THEN EmitDoc("pump " \o p, toks, r)
  ELSE IF IsOpen(r) THEN TRUE ELSE Assert(FALSE, <<p, h.name, Real, r.err>>)
EmitTime(id, segs) == PrintT("DOC " \o ToJson([id |-> id, t |-> segs, ok |-> FALSE, raw |-> TRUE, why |-> "of any kind"]))
Some == 6
Out ==
  CASE Mode = "size" -> Emits(hist \o Rest)
    [] Mode = "long" ->
         LET before == Raw(TextOf(hist))
             opens == Again(TextOf(Opens(p, 1, Some)))
             mid == Raw(TextOf(Mid(p, 3)))
             closes == Again(TextOf(Closes(p, Some)))
             after == Raw(TextOf(Suf(p) \o h.suf))
         IN p \in {"interp", "quotes", "mlquotes", "mllines", "lines", "comments", "longstr", "longname", "longkey", "longml", "longcomment"} \/
            (/\ EmitTime("long " \o p, <<before, opens, mid, closes, after>>)
             /\ EmitTime("long " \o p, <<before, opens, mid>>)
             /\ EmitTime("long " \o p, <<before, opens>>)
             /\ EmitTime("long " \o p, <<before, opens, mid, closes, Raw("= ]"), after>>))
    [] Mode = "work" ->
         LET k == IF p \in Flat THEN Q(200, 500) ELSE Q(20, 40)
             At(m) == Raw(TextOf(hist \o Opens(p, 1, m) \o Mid(p, m) \o Closes(p, m) \o Suf(p) \o h.suf))
         IN EmitTime("work " \o p, <<At(k), At(2 * k), At(4 * k)>>)
    [] Mode = "pairs" ->
         \A e \in {e \in 1..Len(PairEnds) : (p + h * 3 + e + Seed) % Q(3, 1) = 0} : \A m \in {"", "a", "'", "''a'", "a'b"} :
            /\ EmitTime("pairs", <<Raw(PairStarts[h]), Again(Pairs[p][1]), Raw(m), Again(Pairs[p][2]), Raw(PairEnds[e])>>)
            /\ m = "a" => EmitTime("pairs", <<Raw(PairStarts[h]), Again(Pairs[p][1] \o m \o Pairs[p][2]), Raw(PairEnds[e])>>)
    [] OTHER -> \A e \in {e \in 1..Len(Ends) : (p \div 1000 + p + h * 3 + e + Seed) % Q(3, 1) = 0} : EmitTime("time", <<Raw(Starts[h]), Again(Units[p \div 1000] \o (IF p % 1000 = 0 THEN "" ELSE Units[p % 1000])), Raw(Ends[e])>>)
=============================================================================
