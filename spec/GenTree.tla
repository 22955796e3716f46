------------------------------ MODULE GenTree -------------------------------
(* Exhaustive exploration: every sequence of at most MaxLen units of an      *)
(* alphabet that the machine can read at one place of a template (after pre, *)
(* before suf).  A unit is a token or a short sequence of tokens.  A         *)
(* sequence after which suf completes the template is emitted with its       *)
(* elements; where a scene asks for it, a sequence that the machine refuses  *)
(* is emitted as malformed.                                                  *)
EXTENDS Hosts

Profile == IOEnv.PROFILE
Scale == atoi(IOEnv.SCALE)    \* 0: quick, 1: thorough
Q(a, b) == IF Scale = 0 THEN a ELSE b

U(set) == {<<t>> : t \in set}
TS(q) == {T(q[i]) : i \in 1..Len(q)}
Idx(q) == 1..Len(q)
\* a host, an alphabet of units, maximal length, whether refused sequences are emitted
Scene(h, alpha, max, neg) == [h |-> h, alpha |-> alpha, max |-> max, neg |-> neg]
AllHosts(alpha, max, neg) == {Scene(Hosts[i], alpha, max, neg) : i \in Idx(Hosts)}

Ops == {T(o) : o \in BinOps}
Ml(c) == Tok("ml", "'''" \o c \o "'''", c, 0)
Leafs == {Id("a"), Id("b"), Num("0", "0"), Num("42", "42"), Str("a"), Str(""), Id("true"), Id("false"), Id("null"), Ml("a")}
Keywords == {"for", "if", "in", "existing", "resource", "param", "var", "type", "func", "module", "output", "import",
             "extension", "metadata", "targetScope", "with", "as", "from", "items", "listKeys", "getSecret", "sys", "az",
             "_a", "a1", "A", "nulls", "trueish", "e1", "iff", "forx"}

(* declarations of every kind, with names that collide *)
Decls(n) == {
  <<Id("targetScope"), T("="), Str("subscription")>>,
  <<Id("targetScope"), T("="), Str("tenant")>>,
  <<Id("metadata"), Id(n), T("="), Str("mv" \o n)>>,
  <<Id("extension"), Id(n)>>,
  <<Id("import"), Str(n)>>,
  <<Id("import"), T("{"), Id(n), Id("as"), Id("z"), T("}"), Id("from"), Str("f" \o n)>>,
  <<Id("param"), Id(n), Id("string")>>,
  <<Id("param"), Id(n), Id("int"), T("="), Num("0", "0")>>,
  <<Id("var"), Id(n), T("="), Id("x")>>,
  <<Id("type"), Id(n), T("="), Str("t1"), T("|"), Str("t2")>>,
  <<Id("func"), Fn(n), T(")"), Id("int"), T("=>"), Num("1", "1")>>,
  <<Id("resource"), Id(n), Str("A/b@1"), T("="), T("{"), T("}")>>,
  <<Id("module"), Id(n), Str("m.bicep"), T("="), T("{"), T("}")>>,
  <<Id("output"), Id(n), Id("bool"), T("="), Id("false")>>,
  <<T("@"), Fn("secure"), T(")"), Nl, Id("param"), Id(n), Id("object")>>}
DeclUnits == {d \o <<Nl>> : d \in Decls("a") \union Decls("b")}
TopHost == [name |-> "top", pre |-> <<>>, suf |-> <<Eof>>]
TopHost2 == [name |-> "top2", pre |-> <<Id("var"), Id("a"), T("="), Num("5", "5"), Nl, Id("type"), Id("c"), T("="), Id("q"), Nl>>,
             suf |-> <<Id("output"), Id("c"), Id("int"), T("="), Num("6", "6"), Eof>>]

DtAlpha == U({Id("string"), Id("T"), T("("), T("|"), T(")"), T("["), T("]"), T("?")})
HeadHost(n, pre, suf) == Host(n, pre, suf)
\* what an import may come from
Sources == {"", "a", "f.bicep", "../x/y.bicep", "br/a:b:1", "br:mcr.microsoft.com/a:1", "ts/a:b:1", "Microsoft.Graph@1.0", "a b", " a", "null", "true", "*", "from", "as", "r#x.json", "${x}", "${a}b.bicep", "a.bicep ", "{a} from", "A", "//a"}
HeadScenes == {
  Scene(HeadHost("param", <<Id("param"), Id("p")>>, <<>>), DtAlpha \union U({T("="), Num("0", "0"), Id("null"), Str("")}), Q(6, 8), FALSE),
  Scene(HeadHost("union", <<Id("param"), Id("p"), T("("), Id("a"), T("|")>>, <<>>), DtAlpha, Q(6, 8), FALSE),
  Scene(HeadHost("output", <<Id("output"), Id("p")>>, <<T("="), Id("x")>>), DtAlpha, Q(6, 8), FALSE),
  Scene(HeadHost("var", <<Id("var"), Id("p")>>, <<>>), DtAlpha \union U({T("="), Num("0", "0"), Id("x")}), Q(6, 7), FALSE),
  Scene(HeadHost("func", <<Id("func"), Fn("f")>>, <<T("=>"), Id("x")>>),
        U({Id("string"), Id("T"), T("["), T("]"), T(","), T(")")}) \union {<<T("("), Id("a"), T("|"), Id("b"), T(")")>>}, Q(7, 9), FALSE),
  Scene(HeadHost("import", <<Id("import")>>, <<>>),
        U({T("{"), T("}"), T("*"), Id("a"), Id("b"), T(","), Id("as"), Id("from"), Str("f.bicep")}), Q(8, 10), FALSE),
  Scene(HeadHost("extension", <<Id("extension"), Id("e")>>, <<>>),
        U({Id("with"), Id("as"), Id("a"), T("{"), T("}"), T(":"), Num("0", "0"), Nl}), Q(7, 8), FALSE),
  Scene(HeadHost("resource", <<Id("resource"), Id("r")>>, <<T("="), T("{"), T("}")>>),
        U({Id("existing")} \union {Str(x) : x \in {"A/b@1", "A.B/c/d@2020-01-01-preview", "a@", "x/y/z@9", "Microsoft.Web/sites@2021-02-01", "A/b", "A/b@1@2", "", "@", "@1", "A/b@1@"}}), 2, FALSE),
  Scene(HeadHost("child", ResHead \o <<T("{"), Nl, Id("resource"), Id("c"), Str("d")>>, <<T("="), T("{"), T("}"), Nl, T("}")>>),
        U({Id("existing")}), 1, FALSE),
  Scene(HeadHost("childtype", ResHead \o <<T("{"), Nl, Id("resource"), Id("c")>>, <<T("="), T("{"), T("}"), Nl, T("}")>>),
        U({Str(x) : x \in {"", "d", "d/e", "D", "d e", "/d", "null", "A/b"}} \union {Id("existing")}), 2, FALSE),
  Scene(HeadHost("importpath", <<Id("import")>>, <<>>), U({Str(x) : x \in Sources}), 1, FALSE),
  Scene(HeadHost("importfrom", <<Id("import"), Id("a"), Id("from")>>, <<>>), U({Str(x) : x \in Sources}), 1, FALSE),
  Scene(HeadHost("importfroms", <<Id("import"), T("{"), Id("a"), T(","), Id("b"), Id("as"), Id("c"), T("}"), Id("from")>>, <<>>), U({Str(x) : x \in Sources}), 1, FALSE),
  Scene(HeadHost("scope", <<Id("targetScope"), T("=")>>, <<>>), U({Str(x) : x \in Scopes \union {"", "resourcegroup", "Tenant", "tenant ", "nowhere", "${x}", "subscriptions", "scope", "management Group"}}), 1, FALSE),
  Scene(HeadHost("metadata", <<Id("metadata"), Id("m"), T("=")>>, <<>>), U({Str(""), Str("a"), Str("${x}")}), 1, FALSE),
  Scene(HeadHost("type", <<Id("type"), Id("t"), T("=")>>, <<>>),
        U({Id("string"), Str("a"), Num("0", "0"), Id("null"), Id("true"), T("|"), T("["), T("]"), T("{"), T("}"), Id("k"), T(":"), T("?"), T("(") , T(")")}), Q(5, 6), FALSE)}
\* names of declarations
NameScenes == {Scene(Host(k[1], k[2], k[3]), {<<IF k[1] = "func" THEN Fn(n) ELSE Id(n)>> : n \in (Keywords \union {"true", "null"})}, 1, FALSE) :
  k \in {<<"param", <<Id("param")>>, <<Id("int")>>>>, <<"var", <<Id("var")>>, <<T("="), Id("x")>>>>,
         <<"output", <<Id("output")>>, <<Id("int"), T("="), Id("x")>>>>, <<"type", <<Id("type")>>, <<T("="), Id("x")>>>>,
         <<"func", <<Id("func")>>, <<T(")"), Id("int"), T("=>"), Id("x")>>>>,
         <<"resource", <<Id("resource")>>, <<Str("A/b@1"), T("="), T("{"), T("}")>>>>,
         <<"module", <<Id("module")>>, <<Str("m.bicep"), T("="), T("{"), T("}")>>>>,
         <<"metadata", <<Id("metadata")>>, <<T("="), Str("x")>>>>, <<"extension", <<Id("extension")>>, <<>>>>}}

ResUnit(n, t, e) == <<Id("resource"), Id(n), Str(t)>> \o e \o <<T("=")>>
OpenB == <<T("{"), Nl>>
Close == <<T("}"), Nl>>
ForX == <<T("["), Id("for"), Id("x"), Id("in"), Id("xs"), T(":")>>
IfC == <<Fn("if"), Id("c"), T(")")>>
ChildUnits == {ResUnit("c1", "t1", <<>>) \o OpenB, ResUnit("c2", "t2", <<Id("existing")>>) \o OpenB,
   ResUnit("c3", "t3", <<>>) \o IfC \o OpenB, ResUnit("c4", "t4", <<>>) \o ForX \o OpenB,
   Close, <<T("}"), T("]"), Nl>>, <<Id("k"), T(":"), Num("0", "0"), Nl>>,
   <<Id("p"), T(":"), T("{"), Id("q"), T(":"), Str("s"), T("}"), Nl>>}
\* property names that look like parts of the result
KeyUnits == {ResUnit("c1", "t1", <<>>) \o OpenB, ResUnit("c3", "t3", <<>>) \o IfC \o OpenB, ResUnit("c4", "t4", <<>>) \o ForX \o OpenB, Close, <<T("}"), T("]"), Nl>>}
   \union {<<Id(k), T(":"), Id("v"), Nl>> : k \in {"config", "condition", "loop_type", "__child_resource__", "__name__", "__attrs__", "depends_on"}}
   \union {<<Id(k), T(":"), T("{"), Id("q"), T(":"), Str("s"), T("}"), Nl>> : k \in {"config", "condition", "__child_resource__", "__attrs__"}}
   \union {<<Id(k), T(":"), T("["), Id("w"), T("]"), Nl>> : k \in {"config", "depends_on", "dependsOn"}}
ChildScenes == {
  Scene(Host("keys", ResUnit("r", "A.B/c@2020-01-01", <<>>) \o OpenB, <<T("}")>>), KeyUnits, Q(4, 5), FALSE),
  Scene(Host("keyscond", ResUnit("r", "A.B/c@1", <<>>) \o IfC \o OpenB, <<T("}")>>), KeyUnits, Q(3, 4), FALSE),
  Scene(Host("keysloop", ResUnit("r", "A.B/c@1", <<>>) \o ForX \o OpenB, <<T("}"), T("]")>>), KeyUnits, Q(3, 4), FALSE),
  Scene(Host("plain", ResUnit("r", "A.B/c@2020-01-01", <<>>) \o OpenB, <<T("}")>>), ChildUnits, Q(5, 7), FALSE),
  Scene(Host("existing", ResUnit("r", "A.B/c@1", <<Id("existing")>>) \o OpenB, <<T("}")>>), ChildUnits, Q(4, 5), FALSE),
  Scene(Host("cond", ResUnit("r", "A.B/c@1", <<>>) \o IfC \o OpenB, <<T("}")>>), ChildUnits, Q(4, 5), FALSE),
  Scene(Host("loop", ResUnit("r", "A.B/c@1", <<>>) \o ForX \o OpenB, <<T("}"), T("]")>>), ChildUnits, Q(4, 5), FALSE),
  Scene(Host("loopcond", ResUnit("r", "A.B/c@1", <<>>) \o ForX \o IfC \o OpenB, <<T("}"), T("]")>>), ChildUnits, Q(4, 5), FALSE),
  Scene(Host("second", ResUnit("r", "A/b@1", <<>>) \o OpenB \o ResUnit("c1", "t1", <<>>) \o OpenB \o Close \o Close
              \o ResUnit("r2", "X/y@2", <<>>) \o OpenB, <<T("}")>>), ChildUnits, Q(4, 5), FALSE)}

Lower == "abcdefghijklmnopqrstuvwxyz"
Capital == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpChr(c) == IF \E i \in 1..26 : Chr(Lower, i) = c THEN Chr(Capital, CHOOSE i \in 1..26 : Chr(Lower, i) = c) ELSE c
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN "" ELSE UpChr(Chr(s, 1)) \o Upper(SubSeq(s, 2, Len(s)))
Cased(s) == UpChr(Chr(s, 1)) \o SubSeq(s, 2, Len(s))
DecoUnits ==
  {<<T("@"), Fn(p \o n), T(")"), Nl>> : p \in {"", "sys."}, n \in DecoBare} \union
  {<<T("@"), Fn(p \o n)>> \o a \o <<T(")"), Nl>> : p \in {"", "sys."}, n \in DOMAIN DecoTypes \ DecoBare,
      a \in {<<Num("0", "0")>>, <<Str("")>>, <<Id("x")>>, <<T("["), T("]")>>, <<T("-"), Num("3", "3")>>}} \union
  {<<T("@"), Fn(n)>> \o a \o <<T(")"), Nl>> : n \in {"custom", "Secure2", "sys.other"},
      a \in {<<>>, <<Num("0", "0")>>, <<Id("false")>>, <<Id("null")>>, <<Str("")>>, <<T("{"), T("}")>>, <<Id("a"), T("+"), Id("b")>>, <<T("-"), Num("3", "3")>>}}
\* names that only look like those of known decorators, with and without an argument
DecoLike == {<<T("@"), Fn(n)>> \o a \o <<T(")"), Nl>> : a \in {<<>>, <<Id("x")>>, <<Num("0", "0")>>, <<T("["), T("]")>>, <<T("-"), Num("3", "3")>>, <<T("{"), Id("k"), T(":"), Id("x"), T("}")>>},
   n \in UNION {{p \o Cased(d), p \o d \o "2", p \o d \o "s", p \o SubSeq(d, 1, Len(d) - 1), "my" \o d, "sys" \o d, Upper(d)} : d \in DOMAIN DecoTypes, p \in {"", "sys."}} \ DOMAIN DecoTable}
DecoFew == {<<T("@"), Fn("secure"), T(")"), Nl>>, <<T("@"), Fn("description"), Str("d"), T(")"), Nl>>,
            <<T("@"), Fn("sys.minValue"), T("-"), Num("5", "5"), T(")"), Nl>>, <<T("@"), Fn("custom"), Num("0", "0"), T(")"), Nl>>,
            <<T("@"), Fn("custom"), T(")"), Nl>>, <<T("@"), Fn("allowed"), T("["), Nl, Str("a"), Nl, Num("1", "1"), Nl, T("]"), T(")")>>}
DecoPlain == {<<Id("param"), Id("p"), Id("int"), Nl>>, <<Id("var"), Id("q"), T("="), Id("x"), Nl>>, <<Id("metadata"), Id("q"), T("="), Str("x"), Nl>>}
DecoHost(k) == CASE k = "param" -> Host(k, <<Id("var"), Id("u"), T("="), Id("x"), Nl>>, <<Id("param"), Id("d"), Id("int")>>)
  [] k = "var" -> Host(k, <<>>, <<Id("var"), Id("d"), T("="), Id("x")>>)
  [] k = "output" -> Host(k, <<>>, <<Id("output"), Id("d"), Id("int"), T("="), Id("x")>>)
  [] k = "resource" -> Host(k, <<>>, <<Id("resource"), Id("d"), Str("A/b@1"), T("="), T("{"), T("}")>>)
  [] k = "module" -> Host(k, <<>>, <<Id("module"), Id("d"), Str("m.bicep"), T("="), T("{"), T("}")>>)
  [] k = "type" -> Host(k, <<>>, <<Id("type"), Id("d"), T("="), Id("x")>>)
  [] k = "func" -> Host(k, <<>>, <<Id("func"), Fn("d"), T(")"), Id("int"), T("=>"), Id("x")>>)
DecoScenes == {Scene(DecoHost(k), DecoLike, 1, FALSE) : k \in {"param", "resource"}} \union
  {Scene(DecoHost(k), DecoUnits, IF k = "param" THEN 2 ELSE 1, FALSE) : k \in Decorable}
  \union {Scene(DecoHost(k), DecoFew, Q(3, 4), FALSE) : k \in Decorable}
  \union {Scene(DecoHost("param"), DecoFew \union DecoPlain, Q(4, 5), FALSE)}

LoopAlpha == {<<T("["), Id("for"), Id("x"), Id("in")>>, <<T("["), Nl, Id("for"), Id("x"), Id("in")>>, <<T("["), Id("for"), T("("), Id("x"), T(","), Id("i"), T(")"), Id("in")>>,
   <<Tok("items", "items (", "items", 0)>>, <<Fn("items")>>, <<Id("xs")>>, <<T(")")>>, <<T(":")>>, <<Fn("if")>>, <<T("]")>>, <<T("{"), Nl>>, <<Id("k"), T(":")>>, <<Nl>>, <<T("}")>>}
LoopScenes ==
  {Scene(h, LoopAlpha, Q(5, 7), FALSE) : h \in {HostVar, HostNamed("output"), Host("res", ResHead, <<>>), Host("mod", ModHead, <<>>),
     Host("ch", ResHead \o <<T("{"), Nl>> \o ChildHead, <<Nl, T("}")>>)}} \union
  \* inside a loop: filter and body
  {Scene(Inside(h, ForX, <<T("]")>>), LoopAlpha, Q(6, 7), FALSE) : h \in {HostVar, Host("res", ResHead, <<>>), Host("mod", ModHead, <<>>)}} \union
  \* the iterated expression
  {Scene(Inside(h, <<T("["), Id("for")>>, <<T(":"), Fn("if"), Id("c"), T(")"), T("{"), T("}"), T("]")>>),
         LoopAlpha \union {<<Id("x"), Id("in")>>, <<T("("), Id("x"), T(","), Id("i"), T(")"), Id("in")>>, <<T("."), Id("p")>>}, Q(5, 6), FALSE) :
     h \in {HostVar, Host("res", ResHead, <<>>), Host("mod", ModHead, <<>>)}} \union
  \* conditions
  {Scene(Inside(h, <<Fn("if")>>, <<>>), LoopAlpha \union {<<T("+")>>, <<T("!")>>, <<Id("y")>>}, Q(5, 6), FALSE) : h \in {Host("res", ResHead, <<>>), Host("mod", ModHead, <<>>)}} \union
  {Scene(HostNamed(h), LoopAlpha, Q(4, 6), FALSE) : h \in LoopHosts \ {"var"}}

LamAlpha == {<<Id("x"), T("=>")>>, <<T("("), Id("x"), T(","), Id("y"), T(")"), T("=>")>>, <<T("("), Id("x"), T(","), Id("y"), T(","), Id("z"), T(")"), T("=>")>>,
   <<Fn("map")>>, <<T(",")>>, <<T(")")>>, <<T("(")>>, <<Id("b")>>, <<Num("0", "0")>>, <<T("["), T("]")>>, <<T("+")>>, <<T("{"), Id("k"), T(":")>>, <<T("}")>>}

Scenes ==
  CASE Profile = "P01" -> {Scene(TopHost, DeclUnits, Q(3, 4), FALSE), Scene(TopHost2, DeclUnits, Q(2, 3), FALSE)}
    [] Profile = "P02" -> HeadScenes \union NameScenes
    [] Profile = "P03" ->
         AllHosts(U(Leafs \union TS(<<"[", "]", "{", "}">>) \union {Nl}) \union {<<Id("k"), T(":")>>, <<Str("k"), T(":")>>}, Q(4, 5), FALSE) \union
         \* values of which a part may get lost, and strings that look like other values
         AllHosts(U({Num(x, x) : x \in {"2147483648", "4294967297", "9007199254740993", "9223372036854775808", "18446744073709551617", "123456789012345678901234567890123456789012345678901234567890"}}
                    \union {Num("007", "7"), Num("00", "0"), Num("0123", "123")}
                    \union {Str(x) : x \in {"true", "false", "null", "0", "1", "-1", "007", "1.5", "1e5", "[]", "{}", "None", "nan", "a.b", "a()", "sys.a", "${a}", " ", "a ", " a", "x.y", "1a"}}), 1, FALSE) \union
         {Scene(HostVar, U({Id("a"), Num("0", "0"), Str("b"), Nl} \union TS(<<"[", "]", ",", "{", "}">>)) \union {<<Id("k"), T(":")>>, <<Id("j"), T(":")>>}, Q(7, 8), FALSE)}
    [] Profile = "P05" ->
         AllHosts(U({Id(k) : k \in Keywords} \union {Str(k) : k \in Keywords \union {"true", "null"}} \union {Ml(k) : k \in {"a", "for", "null"}}), 1, FALSE) \union
         AllHosts(U({Id("a"), Str("a"), Ml("a")} \union TS(<<"(", ")", "[", "]", "!">>)) \union {<<T("{"), Id("a"), T(":")>>, <<T("}")>>, <<Fn("a")>>, <<T(".")>>}, Q(4, 5), FALSE) \union
         \* property and iterator names, object keys
         {Scene(InVar("prop", <<Id("a"), T(".")>>, <<T("."), Id("b")>>), U({Id(k) : k \in Keywords}), 1, FALSE),
          Scene(InVar("key", <<T("{"), Nl>>, <<T(":"), Id("a"), Nl, T("}")>>), U({Id(k) : k \in Keywords \union {"true", "null"}} \union {Str(k) : k \in Keywords}), 1, FALSE),
          Scene(InVar("key2", <<T("{"), Id("a"), T(":"), Id("b"), Nl>>, <<T(":"), Id("a"), Nl, T("}")>>), U({Id(k) : k \in Keywords \union {"true", "null"}} \union {Str(k) : k \in Keywords}), 1, FALSE),
          Scene(InVar("iterator", <<T("["), Id("for")>>, <<Id("in"), Id("a"), T(":"), Id("b"), T("]")>>), U({Id(k) : k \in Keywords}), 1, FALSE),
          Scene(InVar("lamvar", <<Fn("map"), Id("a"), T(",")>>, <<T("=>"), Id("b"), T(")")>>), U({Id(k) : k \in Keywords}), 1, FALSE)}
    [] Profile = "P06" ->
         {Scene(HostVar, U(Ops \union {Id("a"), Num("1", "1"), Str("s")}), Q(5, 5), FALSE),
          Scene(HostVar, U({Id("a"), Id("b"), Str("s")} \union TS(<<"+", "==", "?", ":", "(", ")", "!", "-">>)), Q(6, 8), FALSE),
          Scene(HostVar, U({Id("a"), T("??"), T("&&"), T("?"), T(":"), T("-")}) \union {<<Fn("f")>>, <<T(")")>>, <<T("."), Id("p")>>, <<T("["), Num("0", "0"), T("]")>>}, Q(6, 8), FALSE)}
         \* operands that Python takes for false, and true ones
         \union {Scene(HostVar, U({Id("a"), Id("false"), Id("true"), Id("null"), T("??"), T("?"), T(":"), T("&&"), T("!"), T("("), T(")")}), Q(5, 6), FALSE),
                 Scene(HostVar, U({Id("a"), Num("0", "0"), Str(""), T("||"), T("=="), T("!="), T("-"), T("?"), T(":")}) \union {<<T("["), T("]")>>, <<T("{"), T("}")>>}, Q(5, 6), FALSE)}
         \union AllHosts(U({Id("a"), Num("1", "1"), T("-"), T("!"), T("*"), T("?"), T(":"), T("("), T(")")}), Q(5, 6), FALSE)
    [] Profile = "P07" ->
         {Scene(HostVar, U({Id("a"), Num("0", "0"), Str("s")} \union TS(<<".", "::", "[", "]", "!", "?", ",", ")">>)) \union {<<Fn("listKeys")>>, <<Fn("getSecret")>>}, Q(6, 7), FALSE),
          Scene(HostVar, {<<Id("a")>>, <<T("."), Id("p")>>, <<T("."), T("?"), Id("q")>>, <<T("["), Num("0", "0"), T("]")>>, <<T("["), T("?"), Str("k"), T("]")>>, <<T("::"), Id("n")>>, <<T("!")>>,
              <<T("."), Fn("listKeys"), T(")")>>, <<T("."), Fn("ListSecrets"), Str("x"), T(","), Num("0", "0"), T(")")>>, <<T("."), Fn("getSecret"), Id("false"), T(")")>>, <<T("+")>>, <<T("("), Id("b")>>, <<T(")")>>}, Q(5, 6), FALSE)}
         \* arguments of calls, falsy ones among them
         \union {Scene(InVar("accargs " \o m, <<Id("a"), T("."), Fn(m)>>, <<T(")"), T("."), Id("p")>>),
                        U({Id("x"), Id("null"), Id("false"), Num("0", "0"), Str(""), T(","), T("!")}) \union {<<T("["), T("]")>>, <<T("{"), T("}")>>, <<T("."), Fn("listSas"), T(")")>>}, Q(5, 7), FALSE) : m \in {"listKeys", "getSecret"}}
         \union {Scene(InVar("index", <<Id("a"), T("[")>>, <<T("]"), T("["), Id("b"), T("]")>>),
                        U({Id("x"), Id("null"), Id("false"), Id("true"), Num("0", "0"), Str(""), Str("x"), T("-"), T("!"), T("?")}) \union {<<T("["), T("]")>>, <<T("{"), T("}")>>, <<T("."), Id("p")>>}, Q(3, 4), FALSE)}
         \union AllHosts({<<Id("a")>>, <<T("."), Id("p")>>, <<T("["), Num("0", "0"), T("]")>>, <<T("::"), Id("n")>>, <<T("."), Fn("listKeys"), T(")")>>, <<T("."), Fn("getSecret"), Id("b"), T(")")>>, <<T("!")>>}, Q(4, 5), FALSE)
    [] Profile = "P09" -> AllHosts(LamAlpha, Q(4, 6), FALSE) \union {Scene(HostVar, LamAlpha, Q(6, 8), FALSE), Scene(HostNamed("func"), LamAlpha, Q(5, 7), FALSE)}
    [] Profile = "P10" -> DecoScenes
    [] Profile = "P11" -> ChildScenes
    [] Profile = "P12" -> LoopScenes
    [] Profile = "N1" ->
         {Scene(HostVar, U({Id("a"), Num("1", "1"), Str("s")} \union TS(<<"+", "?", ":", "(", ")", "!", "[", "]", "{", "}", ",", ".", "=", "=>">>)) \union {<<Fn("f")>>, <<Id("k"), T(":")>>}, Q(4, 5), TRUE)}
    [] Profile = "N2" ->
         {[s EXCEPT !.neg = TRUE, !.max = IF s.max > 5 THEN Q(5, 6) ELSE s.max] : s \in HeadScenes}
    [] Profile = "N3" -> AllHosts(U({Id("a"), Num("1", "1")} \union TS(<<"+", ":", ")", "]", "}", ",", "=", "|", "(", "[">>)), Q(2, 3), TRUE)
    [] Profile = "N4" -> {[s EXCEPT !.neg = TRUE, !.max = Q(4, 5)] : s \in {Scene(Host("res", ResHead, <<>>), LoopAlpha, 4, FALSE), Scene(HostVar, LoopAlpha, 4, FALSE), Scene(Host("mod", ModHead, <<>>), LoopAlpha, 4, FALSE)}}
    \* lambdas, decorators, nested resources
    [] Profile = "N5" ->
         {Scene(InVar("lambda", <<Fn("map"), Id("q"), T(",")>>, <<T(")")>>), U({Id("x"), Id("null"), Str("s"), Num("1", "1")} \union TS(<<"(", ")", ",", "=>", ".">>)) \union {<<Fn("f")>>, <<T("["), T("]")>>}, Q(5, 6), TRUE),
          Scene(InVar("heads", <<Fn("map"), Id("q"), T(","), T("(")>>, <<Id("b"), T(")")>>), U({Id("x"), Id("y"), Id("null"), Str("s"), Num("1", "1")} \union TS(<<"(", ")", ",", "=>", "!">>)) \union {<<T(")"), T("=>")>>, <<T("["), T("]")>>, <<T("."), Id("p")>>}, Q(5, 6), TRUE),
          Scene(HostVar, LamAlpha \union {<<T("=>")>>, <<Str("s")>>}, Q(4, 5), TRUE),
          Scene(Host("decorated", <<>>, <<Id("param"), Id("p"), Id("int")>>),
                {<<T("@")>>, <<Fn("secure")>>, <<Fn("custom")>>, <<Fn("sys.minValue")>>, <<T(")")>>, <<Nl>>, <<Id("x")>>, <<T("-")>>, <<Num("1", "1")>>, <<T(",")>>, <<T(".")>>, <<Id("secure")>>}, Q(5, 6), TRUE)}
         \union {[s EXCEPT !.neg = TRUE, !.max = Q(3, 4)] : s \in ChildScenes}
    [] OTHER -> {}

VARIABLES sc, st, hist, len, bad   \* bad: units after the first refused one
vars == <<sc, st, hist, len, bad>>

Init == /\ sc \in Scenes
        /\ hist = <<>>
        /\ len = 0 /\ bad = 0
        /\ st = Run(Fresh, sc.h.pre, 1)

Next == /\ len < sc.max /\ (st.err = "" \/ (sc.neg /\ bad < Q(1, 2)))
        /\ \E u \in sc.alpha :
             LET r == Run(st, u, 1) IN
             /\ ~(hist # <<>> /\ hist[Len(hist)].c = "nl" /\ u[1].c = "nl")   \* one break
             /\ r.err = "" \/ sc.neg
             /\ st' = r
             /\ hist' = hist \o u
             /\ len' = len + 1
             /\ bad' = IF st.err = "" THEN 0 ELSE bad + 1
             /\ sc' = sc
Spec == Init /\ [][Next]_vars

Out == LET r == Run(st, sc.h.suf, 1)
           toks == sc.h.pre \o hist \o sc.h.suf
       IN len = 0 \/ (IF \E i \in 2..Len(toks) : toks[i - 1].c = "nl" /\ toks[i].c = "nl" THEN TRUE
                      ELSE IF r.err = "" /\ r.done THEN EmitDoc(sc.h.name, toks, r)
                      ELSE IF sc.neg /\ r.err # "" /\ ~IsOpen(r) THEN EmitBad(sc.h.name, toks, r.err)
                      ELSE TRUE)
=============================================================================
