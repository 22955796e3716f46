------------------------------ MODULE GenShape -------------------------------
(* Objects that look like something else.  Their keys are those under which  *)
(* the result reports loops, conditions, operators, calls, data types,       *)
(* decorators and attributes of declarations.  An object of a template is an *)
(* object, whatever its keys, at every place of a template, also when it is  *)
(* the body of a resource, module or loop, or repeats a key.                 *)
EXTENDS Hosts, FiniteSets

Scale == atoi(IOEnv.SCALE)
Of == IOEnv.OF

(******************************* the objects ********************************)
Keys == <<"condition", "config", "loop_type", "depends_on", "dependsOn", "operator", "function", "type", "operands", "parameters", "detail", "argument",
          "name", "value", "item_type", "members", "decorators", "existing", "api_version", "__name__", "__attrs__", "__start_line__", "expression", "var_1", "alias",
          "file_path", "full", "default", "operand_1", "integer_value", "bool_value", "scope", "globals", "@child_resource", "", "0", "resource", "for", "if", "null", "k">>
RECURSIVE Seps(_, _)
Seps(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<T(",")>>) \o ps[i] \o Seps(ps, i + 1)
Obj(ps) == <<T("{")>> \o Seps(ps, 1) \o <<T("}")>>
Arr(xs) == <<T("[")>> \o Seps(xs, 1) \o <<T("]")>>
\* a key that is no name has to be quoted; some others are quoted as well
Quoted == {"@child_resource", "", "0", "null", "k", "expression"}
Pair(k, v) == <<IF k \in Quoted THEN Str(k) ELSE Id(k), T(":")>> \o v
Vals == <<<<Id("a")>>, <<Num("0", "0")>>, <<Id("null")>>, Obj(<<>>), Obj(<<Pair("k", <<Id("b")>>)>>), Arr(<<<<Id("a")>>>>), <<Str("a")>>, <<Id("true")>>, Arr(<<>>),
          Obj(<<Pair("x", <<Num("1", "1")>>), Pair("y", Obj(<<Pair("z", <<Id("c")>>)>>))>>)>>
ValueOf(i) == Vals[(i % Len(Vals)) + 1]
NK == Len(Keys)

\* one key, two keys in both orders, equal keys
Ones == {<<"one", i, j, 0>> : i \in 1..NK, j \in 1..Len(Vals)}
Twos == {<<"two", i, j, i * 7 + j>> : i \in 1..NK, j \in 1..NK}
Mult == {<<"two", i, i, j>> : i \in {1, 2, 4, NK}, j \in 1..(Len(Vals) * Len(Vals))}
P(k, v) == Pair(k, v)
Alike == <<
  <<P("loop_type", Obj(<<P("type", <<Str("array")>>), P("detail", Obj(<<P("item_name", <<Str("x")>>), P("array_name", <<Id("a")>>)>>))>>)), P("condition", <<Id("null")>>), P("config", <<Id("b")>>)>>,
  <<P("loop_type", <<Id("a")>>), P("condition", <<Id("b")>>), P("config", Obj(<<P("k", <<Id("c")>>)>>))>>,
  <<P("config", Obj(<<P("config", Obj(<<P("condition", <<Id("a")>>), P("config", <<Id("b")>>)>>))>>)), P("condition", <<Id("a")>>)>>,
  <<P("condition", <<Id("a")>>), P("config", Obj(<<P("k", <<Id("c")>>)>>)), P("depends_on", Arr(<<<<Id("r")>>>>))>>,
  <<P("operator", Obj(<<P("type", <<Str("not")>>), P("operands", Obj(<<P("bool_value", <<Id("a")>>)>>))>>))>>,
  <<P("operator", Obj(<<P("type", <<Str("and")>>), P("operands", Obj(<<P("operand_1", <<Id("a")>>), P("operand_2", <<Id("b")>>)>>))>>))>>,
  <<P("operator", Obj(<<P("type", <<Str("property_accessor")>>), P("operands", Obj(<<P("operand_1", <<Id("a")>>), P("operand_2", <<Id("b")>>)>>))>>))>>,
  <<P("operator", <<Id("a")>>)>>, <<P("operator", Obj(<<P("type", <<Id("a")>>)>>))>>,
  <<P("function", Obj(<<P("type", <<Str("any")>>), P("parameters", Obj(<<P("value", <<Id("a")>>)>>))>>))>>,
  <<P("type", <<Str("lambda_expression")>>), P("detail", Obj(<<P("var_1", <<Str("x")>>), P("expression", <<Id("x")>>)>>))>>,
  <<P("type", <<Str("array")>>), P("item_type", <<Str("int")>>)>>,
  <<P("type", <<Str("union")>>), P("members", Arr(<<<<Str("a")>>, <<Str("b")>>>>))>>,
  <<P("type", <<Str("local")>>), P("detail", Obj(<<P("full", <<Str("a")>>), P("path", <<Str("a")>>)>>))>>,
  <<P("type", <<Str("description")>>), P("argument", <<Str("d")>>)>>,
  <<P("__name__", <<Str("n")>>), P("__attrs__", Obj(<<P("decorators", Arr(<<>>)), P("value", <<Num("1", "1")>>)>>))>>,
  <<P("variables", Obj(<<P("__name__", <<Str("n")>>), P("__attrs__", Obj(<<>>))>>))>>,
  <<P("name", <<Str("n")>>), P("alias", <<Str("m")>>)>>,
  <<P("type", <<Str("A/b")>>), P("api_version", <<Str("1")>>)>>,
  <<P("decorators", Arr(<<>>)), P("type", <<Str("A/b")>>), P("api_version", <<Str("1")>>), P("existing", <<Id("false")>>), P("config", Obj(<<>>))>>,
  <<P("@child_resource", Obj(<<P("__name__", <<Str("c")>>), P("__attrs__", Obj(<<P("type", <<Str("t")>>), P("config", Obj(<<>>))>>))>>))>>,
  <<P("item", <<Id("a")>>), P("index", <<Id("b")>>)>>>>
Alikes == {<<"alike", i, j, 0>> : i \in 1..Len(Alike), j \in 0..1}
\* j = 1: something stands beside it
Pairs(s) == CASE s[1] = "one" -> <<Pair(Keys[s[2]], ValueOf(s[3]))>>
              [] s[1] = "two" -> <<Pair(Keys[s[2]], ValueOf(s[4])), Pair(Keys[s[3]], ValueOf(s[4] \div 3 + s[3]))>>
              [] OTHER -> Alike[s[2]] \o (IF s[3] = 1 THEN <<Pair("k", <<Id("z")>>)>> ELSE <<>>)

(******************************** the places ********************************)
ForX == <<T("["), Id("for"), Id("x"), Id("in"), Id("xs"), T(":")>>
IfC == <<Fn("if"), Id("c"), T(")")>>
Known(f) == InVar("known " \o f, <<Fn(f)>>, <<T(")")>>)
Bodies == <<
  Host("res", ResHead, <<>>), Host("rescond", ResHead \o IfC, <<>>), Host("resloop", ResHead \o ForX, <<T("]")>>), Host("resloopcond", ResHead \o ForX \o IfC, <<T("]")>>),
  Host("mod", ModHead, <<>>), Host("modcond", ModHead \o IfC, <<>>), Host("modloop", ModHead \o ForX, <<T("]")>>), Host("modloopcond", ModHead \o ForX \o IfC, <<T("]")>>),
  Host("child", ResHead \o <<T("{"), Nl>> \o ChildHead, <<Nl, T("}")>>), Host("childcond", ResHead \o <<T("{"), Nl>> \o ChildHead \o IfC, <<Nl, T("}")>>),
  Host("childloop", ResHead \o IfC \o <<T("{"), Nl>> \o ChildHead \o ForX, <<T("]"), Nl, T("}")>>),
  Host("grandchild", ResHead \o <<T("{"), Nl>> \o ChildHead \o <<T("{"), Nl>> \o ChildHead, <<Nl, T("}"), Nl, T("}")>>),
  Host("ext", <<Id("extension"), Id("e"), Id("with")>>, <<Id("as"), Id("f")>>)>>
Loops == <<
  InVar("loop", ForX, <<T("]")>>), InVar("loopif", ForX \o IfC, <<T("]")>>), Host("outloop", <<Id("output"), Id("o"), Id("array"), T("=")>> \o ForX, <<T("]")>>),
  InVar("propif", <<T("{"), Id("k"), T(":")>> \o ForX \o IfC, <<T("]"), T("}")>>), InVar("loopidx", <<T("["), Id("for"), T("("), Id("x"), T(","), Id("i"), T(")"), Id("in"), Id("xs"), T(":")>>, <<T("]")>>)>>
Decos == [i \in 1..4 |-> LET n == <<"metadata", "sys.allowed", "Custom", "description">>[i] IN Host("deco " \o n, <<T("@"), Fn(n)>>, <<T(")"), Nl, Id("param"), Id("p"), Id("int")>>)]
Bases == <<InVar("base.", <<>>, <<T("."), Id("p")>>), InVar("base[", <<>>, <<T("["), Num("0", "0"), T("]")>>), InVar("base::", <<>>, <<T("::"), Id("n")>>), InVar("basecall", <<>>, <<T("."), Fn("listKeys"), T(")")>>),
           InVar("idx?", <<Id("q"), T("["), T("?")>>, <<T("]")>>)>>
Calls == <<Known("any"), Known("items"), Known("string"), Known("union"), Known("sys.json"), Known("az.deployment"), Known("first"), Known("length"), Known("empty"), Known("sys.concat")>>
Ops == [i \in 1..6 |-> LET o == <<"+", "==", "??", "||", "-", "=~">>[i] IN InVar("op" \o o, <<Id("q"), T(o)>>, <<>>)]
Named(ns) == {Hosts[i] : i \in {i \in 1..Len(Hosts) : Hosts[i].name \in ns}}
Rng(s) == {s[i] : i \in 1..Len(s)}
Mine == CASE Of = "P01" -> Named({"var", "param", "output", "type", "func", "metadeco"}) \union {Bodies[1], Bodies[5], Bodies[13]}
  [] Of = "P02" -> Named({"param", "type", "var", "func", "output", "ext"}) \union {Bodies[13], Bodies[1], Bodies[5]}
  [] Of = "P03" -> Rng(Hosts)
  [] Of = "P05" -> Named({"obj1", "arr1", "fn1", "resprop", "child", "ext"}) \union {Loops[1]}
  [] Of = "P06" -> Named({"par", "left", "right", "cond", "then", "else", "not", "minus"}) \union Rng(Ops)
  [] Of = "P07" -> Named({"acc1", "acc2", "idx", "idxchain", "dot", "nested"}) \union Rng(Bases)
  [] Of = "P08" -> Named({"fn1", "fn2", "known"}) \union Rng(Calls)
  [] Of = "P09" -> Named({"lam1", "lam2", "func"})
  [] Of = "P10" -> Named({"deco", "metadeco"}) \union Rng(Decos)
  [] Of = "P11" -> {Bodies[i] : i \in 1..12 \ {5, 6, 7, 8}} \union Named({"child", "resprop", "resloop", "rescond"})
  [] Of = "P12" -> {Bodies[i] : i \in 1..12} \union Rng(Loops) \union Named({"iter", "iteridx", "iteritems", "filter", "loopbody", "rescond", "modcond", "resiter"})
  [] OTHER -> {HostVar} \union Rng(Bodies)

Shapes == Ones \union Mult \union Alikes \union {s \in Twos : Scale = 1 \/ (s[2] + s[3]) % (IF Cardinality(Mine) < 10 THEN 2 ELSE IF Cardinality(Mine) < 20 THEN 3 ELSE 5) = 0}

VARIABLES host, shape, st
vars == <<host, shape, st>>
Init == host \in Mine /\ shape = <<>> /\ st = Fresh
Toks == host.pre \o Obj(Pairs(shape')) \o host.suf
Next == /\ shape = <<>>
        /\ shape' \in Shapes
        /\ st' = Run(Fresh, Toks, 1)
        /\ host' = host
Spec == Init /\ [][Next]_vars

Out == shape = <<>> \/ LET toks == host.pre \o Obj(Pairs(shape)) \o host.suf
       IN IF st.err = "" /\ st.done THEN EmitDoc(host.name, toks, st)
          ELSE IF IsOpen(st) THEN TRUE
          ELSE EmitBad(host.name, toks, st.err)

\* the keys of an object say nothing about what stands around it: with keys without a meaning the rest is reported alike
Outline(es) == [i \in 1..Len(es) |-> <<es[i].cat, es[i].name, es[i].sl, es[i].el>>]
ASSUME TLCSet(1, [h \in Mine |-> LET r == Run(Fresh, h.pre \o <<T("{"), Id("u1"), T(":"), Id("u2"), T("}")>> \o h.suf, 1) IN IF r.err = "" /\ r.done THEN Outline(Elements(r)) ELSE <<>>])
PlainOf == TLCGet(1)
Alone == shape # <<>> /\ st.err = "" /\ st.done => Outline(Elements(st)) = PlainOf[host]
=============================================================================
