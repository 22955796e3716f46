------------------------------- MODULE Hosts --------------------------------
(* The places of a template at which a value may stand: what stands before   *)
(* it and what follows.                                                      *)
EXTENDS Emit

Var(n) == <<Id("var"), Id(n), T("=")>>
Sentinel == <<Nl, Id("var"), Id("zz"), T("="), Num("77", "77"), Nl, Eof>>
Body(q) == <<T("{"), Nl, Id("k"), T(":")>> \o q
Host(n, pre, suf) == [name |-> n, pre |-> pre, suf |-> suf \o Sentinel]
\* a place within a place
Inside(h, pre, suf) == [h EXCEPT !.pre = @ \o pre, !.suf = suf \o @]
InVar(n, pre, suf) == Host(n, Var("v") \o pre, suf)

ResHead == <<Id("resource"), Id("r"), Str("A.B/c@2020-01-01"), T("=")>>
ModHead == <<Id("module"), Id("m"), Str("./m.bicep"), T("=")>>
ChildHead == <<Id("resource"), Id("c"), Str("d"), T("=")>>

HostVar == InVar("var", <<>>, <<>>)
Hosts == <<
  HostVar,
  Host("param", <<Id("param"), Id("p"), Id("int"), T("=")>>, <<>>),
  Host("output", <<Id("output"), Id("o"), Id("string"), T("=")>>, <<>>),
  Host("type", <<Id("type"), Id("t"), T("=")>>, <<>>),
  Host("func", <<Id("func"), Fn("f"), Id("x"), Id("int"), T(")"), Id("string"), T("=>")>>, <<>>),
  Host("deco", <<T("@"), Fn("allowed")>>, <<T(")"), Nl, Id("param"), Id("p"), Id("int")>>),
  Host("metadeco", <<T("@"), Fn("custom")>>, <<T(")"), Nl, Id("var"), Id("p"), T("="), Num("1", "1")>>),
  InVar("arr1", <<T("[")>>, <<T("]")>>),
  InVar("arrnl", <<T("["), Nl, Id("q"), Nl>>, <<Nl, Id("s"), Nl, T("]")>>),
  InVar("arrcomma", <<T("["), Id("q"), T(",")>>, <<T(","), Id("s"), T("]")>>),
  InVar("obj1", <<T("{"), Id("k"), T(":")>>, <<T("}")>>),
  InVar("objnl", <<T("{"), Nl, Id("j"), T(":"), Id("q"), Nl, Id("k"), T(":")>>, <<Nl, Id("l"), T(":"), Id("s"), Nl, T("}")>>),
  InVar("objcomma", <<T("{"), Id("j"), T(":"), Id("q"), T(","), Str("k"), T(":")>>, <<T(","), Id("l"), T(":"), Id("s"), T("}")>>),
  InVar("fn1", <<Fn("foo")>>, <<T(")")>>),
  InVar("fn2", <<Fn("foo"), Id("q"), T(",")>>, <<T(","), Id("s"), T(")")>>),
  InVar("known", <<Fn("padLeft"), Id("q"), T(",")>>, <<T(","), Id("s"), T(")")>>),
  InVar("acc1", <<Id("q"), T("."), Fn("listKeys")>>, <<T(")")>>),
  InVar("acc2", <<Id("q"), T("."), Fn("getSecret"), Id("s"), T(",")>>, <<T(","), Id("u"), T(")")>>),
  InVar("idx", <<Id("q"), T("[")>>, <<T("]")>>),
  InVar("idxchain", <<Id("q"), T("."), Id("s"), T("[")>>, <<T("]"), T("."), Id("u")>>),
  InVar("par", <<T("(")>>, <<T(")")>>),
  InVar("left", <<>>, <<T("*"), Id("q")>>),
  InVar("right", <<Id("q"), T("&&")>>, <<>>),
  InVar("cond", <<>>, <<T("?"), Id("q"), T(":"), Id("s")>>),
  InVar("then", <<Id("q"), T("?")>>, <<T(":"), Id("s")>>),
  InVar("else", <<Id("q"), T("?"), Id("s"), T(":")>>, <<>>),
  InVar("not", <<T("!")>>, <<>>),
  InVar("minus", <<T("-")>>, <<>>),
  InVar("lam1", <<Fn("map"), Id("q"), T(","), Id("x"), T("=>")>>, <<T(")")>>),
  InVar("lam2", <<Fn("reduce"), Id("q"), T(","), T("("), Id("x"), T(","), Id("y"), T(")"), T("=>")>>, <<T(")")>>),
  InVar("iter", <<T("["), Id("for"), Id("x"), Id("in")>>, <<T(":"), Id("q"), T("]")>>),
  InVar("iteridx", <<T("["), Id("for"), T("("), Id("x"), T(","), Id("i"), T(")"), Id("in")>>, <<T(":"), Id("q"), T("]")>>),
  InVar("iteritems", <<T("["), Id("for"), Id("x"), Id("in"), Tok("items", "items (", "items", 0)>>, <<T(")"), T(":"), Id("q"), T("]")>>),
  InVar("filter", <<T("["), Id("for"), Id("x"), Id("in"), Id("q"), T(":"), Fn("if")>>, <<T(")"), Id("s"), T("]")>>),
  InVar("loopbody", <<T("["), Id("for"), Id("x"), Id("in"), Id("q"), T(":")>>, <<T("]")>>),
  InVar("dot", <<Id("q"), T(".")>>, <<>>),
  InVar("nested", <<Id("q"), T("::")>>, <<>>),
  Host("member", <<Id("type"), Id("t"), T("="), Str("q"), T("|")>>, <<T("|"), Str("s")>>),
  Host("rescond", ResHead \o <<Fn("if")>>, <<T(")")>> \o Body(<<Id("q"), Nl, T("}")>>)),
  Host("resprop", ResHead \o Body(<<>>), <<Nl, T("}")>>),
  Host("resloop", ResHead \o <<T("["), Id("for"), Id("x"), Id("in"), Id("q"), T(":")>> \o Body(<<>>), <<Nl, T("}"), T("]")>>),
  Host("resiter", ResHead \o <<T("["), Id("for"), Id("x"), Id("in")>>, <<T(":")>> \o Body(<<Id("q"), Nl, T("}"), T("]")>>)),
  Host("child", ResHead \o <<T("{"), Nl>> \o ChildHead \o Body(<<>>), <<Nl, T("}"), Nl, T("}")>>),
  Host("modprop", ModHead \o Body(<<>>), <<Nl, T("}")>>),
  Host("modcond", ModHead \o <<Fn("if")>>, <<T(")")>> \o Body(<<Id("q"), Nl, T("}")>>)),
  Host("ext", <<Id("extension"), Id("e"), Id("with")>> \o Body(<<>>), <<Nl, T("}"), Id("as"), Id("f")>>),
  InVar("deep", <<T("["), Nl, T("{"), Nl, Id("j"), T(":"), T("["), Fn("foo"), T("{"), Id("k"), T(":")>>,
                <<T("}"), T(")"), T("]"), Nl, T("}"), Nl, Id("q"), Nl, T("]")>>)
>>
HostNamed(n) == LET i == CHOOSE i \in 1..Len(Hosts) : Hosts[i].name = n IN Hosts[i]
\* hosts at which also a loop may stand
LoopHosts == {"var", "output", "obj1", "objnl", "objcomma", "resprop", "resloop", "child", "modprop", "ext", "deep"}
=============================================================================
