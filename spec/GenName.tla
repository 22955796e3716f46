------------------------------ MODULE GenName --------------------------------
(* Names.  Templates whose declarations, nested resources, iterators,        *)
(* variables of lambdas, keys and references have equal or similar names     *)
(* (the beginning or the end of another one, joined by underscores, of other *)
(* case) or names with a meaning elsewhere (attributes of the result,        *)
(* attributes of Python objects, keywords).  A state is a sequence of slots  *)
(* filled with names.                                                        *)
EXTENDS Hosts, FiniteSets

Scale == atoi(IOEnv.SCALE)
Q(a, b) == IF Scale = 0 THEN a ELSE b
Of == IOEnv.OF

Slots == {"param", "var", "output", "type", "func", "metadata", "extension", "extas", "import", "importas", "namespace", "wildcard", "resource", "module",
          "child", "chain", "childcond", "childloop", "funcarg", "loop", "loopidx", "lambda", "key", "ref", "str", "prop", "nested", "call", "dtype", "deco"}
Mine == CASE Of = "P01" -> Slots \ {"str", "prop", "nested", "deco", "chain", "childloop", "childcond"}
  [] Of = "P02" -> {"param", "var", "func", "extension", "extas", "import", "importas", "wildcard", "namespace", "dtype", "funcarg", "resource"}
  [] Of = "P03" -> {"key", "var", "ref", "str"}
  [] Of = "P05" -> {"ref", "str", "key", "prop", "nested", "call", "dtype", "var", "metadata"}
  [] Of = "P07" -> {"prop", "nested", "call", "ref", "child", "key"}
  [] Of = "P09" -> {"func", "funcarg", "lambda", "loopidx", "ref", "call"}
  [] Of = "P10" -> {"deco", "param", "resource", "module"}
  [] Of = "P11" -> {"resource", "child", "chain", "childcond", "childloop", "module", "key", "ref"}
  [] Of = "P12" -> {"loop", "loopidx", "childloop", "ref", "lambda", "module"}
  [] OTHER -> Slots

R(n, t) == <<Id("resource"), Id(n), Str(t), T("="), T("{"), Nl>>
Bodied(q) == q \o <<T("}"), Nl>>
KeyQ(n) == <<Id("k"), T(":"), Id(n), Nl>>
\* i: place in the sequence, for names beside the one in question
Unit(s, n, i) ==
  LET m(x) == x \o ToString(i) IN
  CASE s = "param" -> <<Id("param"), Id(n), Id("int"), T("="), Num(ToString(i), ToString(i))>>
    [] s = "var" -> <<Id("var"), Id(n), T("="), Num(ToString(i), ToString(i))>>
    [] s = "output" -> <<Id("output"), Id(n), Id("string"), T("="), Str(m("o"))>>
    [] s = "type" -> <<Id("type"), Id(n), T("="), T("{"), Id(n), T(":"), Id(m("t")), T("}")>>
    [] s = "func" -> <<Id("func"), Fn(n), T(")"), Id("int"), T("=>"), Id(m("b"))>>
    [] s = "metadata" -> <<Id("metadata"), Id(n), T("="), Str(m("d"))>>
    [] s = "extension" -> <<Id("extension"), Id(n), Id("with"), T("{"), Id("a"), T(":"), Num(ToString(i), ToString(i)), T("}")>>
    [] s = "extas" -> <<Id("extension"), Id(m("e")), Id("as"), Id(n)>>
    [] s = "import" -> <<Id("import"), T("{"), Id(n), T("}"), Id("from"), Str(m("f"))>>
    [] s = "importas" -> <<Id("import"), T("{"), Id(m("o")), Id("as"), Id(n), T(","), Id(n), T("}"), Id("from"), Str("x.bicep")>>
    [] s = "namespace" -> <<Id("import"), Str(n)>>
    [] s = "wildcard" -> <<Id("import"), T("*"), Id("as"), Id(n), Id("from"), Str(m("w"))>>
    [] s = "resource" -> <<Id("resource"), Id(n), Str("A/b@" \o ToString(i)), T("="), T("{"), Id("name"), T(":"), Str(n), T("}")>>
    [] s = "module" -> <<Id("module"), Id(n), Str(m("m")), T("="), T("{"), Id("k"), T(":"), Id(n), T("}")>>
    [] s = "child" -> R(m("r"), "A/b@1") \o R(n, "c") \o KeyQ(n) \o <<T("}"), Nl, T("}")>>
    [] s = "chain" -> R(n, m("A/b@")) \o R(n, "c") \o KeyQ(n) \o R(n, "d") \o <<T("}"), Nl, T("}"), Nl, T("}")>>
    [] s = "childcond" -> R("a", m("A/b@")) \o <<Id("resource"), Id(n), Str("c"), Id("existing"), T("="), Fn("if"), Id(n), T(")"), T("{"), Nl>> \o R("a", "d") \o <<T("}"), Nl, T("}"), Nl, T("}")>>
    [] s = "childloop" -> R("a__b", m("A/b@")) \o <<Id("resource"), Id(n), Str("c"), T("="), T("["), Id("for"), Id(n), Id("in"), Id(n), T(":"), T("{"), Nl>> \o R(n, "d") \o <<T("}"), Nl, T("}"), T("]"), Nl, T("}")>>
    [] s = "funcarg" -> <<Id("func"), Fn(m("f")), Id(n), Id("int"), T(","), Id("zz"), Id(n), T(")"), Id(n), T("=>"), Id(n)>>
    [] s = "loop" -> <<Id("var"), Id(m("l")), T("="), T("["), Id("for"), Id(n), Id("in"), Id(n), T(":"), Id(n), T("]")>>
    [] s = "loopidx" -> <<Id("output"), Id(m("l")), Id("array"), T("="), T("["), Id("for"), T("("), Id(n), T(","), Id("a"), T(")"), Id("in"), Id(n), T(":"), Fn("if"), Id(n), T(")"), Id(n), T("]")>>
    [] s = "lambda" -> <<Id("var"), Id(m("l")), T("="), Fn("map"), Id(n), T(","), T("("), Id(n), T(","), Id("a"), T(","), Id(n), T(")"), T("=>"), Id(n), T(")")>>
    [] s = "key" -> <<Id("var"), Id(m("k")), T("="), T("{"), Id("a"), T(":"), Id(n), T(","), Id(n), T(":"), T("{"), Id(n), T(":"), Str(n), T("}"), T(","), Id("b"), T(":"), Num("0", "0"), T("}")>>
    [] s = "ref" -> <<Id("var"), Id(m("x")), T("="), T("["), Id(n), T(","), Id("a"), T(","), Id(n), T("]")>>
    [] s = "str" -> <<Id("var"), Id(m("x")), T("="), T("["), Str(n), T(","), Id(n), T(","), Tok("ml", "'''" \o n \o "'''", n, 0), T("]")>>
    [] s = "prop" -> <<Id("var"), Id(m("x")), T("="), Id(n), T("."), Id(n), T("["), Id(n), T("]")>>
    [] s = "nested" -> <<Id("var"), Id(m("x")), T("="), Id(n), T("::"), Id(n), T("."), Id(n)>>
    [] s = "call" -> <<Id("var"), Id(m("x")), T("="), Fn(n), Id(n), T(","), Str(n), T(")")>>
    [] s = "dtype" -> <<Id("param"), Id(m("p")), Id(n), T("["), T("]"), T("="), Id(n)>>
    [] s = "deco" -> <<T("@"), Fn("custom"), Id(n), T(")"), Nl, Id("type"), Id(m("p")), T("="), Id(n)>>

\* names related to each other
Related == {"a", "b", "ab", "A", "_a", "a_", "a__b", "a__a", "b__a", "a1", "a10"}
\* names with a meaning in the result or in the program
Special == {"globals", "scope", "parameters", "variables", "resources", "modules", "outputs", "imports", "functions", "types",
            "value", "type", "config", "decorators", "existing", "default", "detail", "operator", "operands", "function", "api_version", "depends_on", "dependsOn", "condition", "loop_type",
            "expression", "args", "alias", "file_path", "_", "__", "__name__", "__attrs__", "__start_line__", "__class__", "__child_resource__", "child_resource", "self", "None", "True", "nan", "keys", "update", "pop",
            "resourceGroup", "tenant", "public", "local", "string", "items", "list", "x" \o "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"}
BadFn == {"items", "true", "false", "null"} \* written with a parenthesis these are something else
Kw == {"items", "existing"}
Fits(s, n) == ~(s \in {"func", "call"} /\ n \in BadFn \union DOMAIN FnTable)

VARIABLES hist, st, len, first
vars == <<hist, st, len, first>>
Init == hist = <<>> /\ st = Fresh /\ len = 0 /\ first = ""
Names == IF len = 0 THEN {"a"} \union (IF Scale = 0 THEN {"a__b"} ELSE Related) \union Special
         ELSE IF first \in Special THEN {first, "a"} ELSE Related
Next == /\ len < Q(2, IF Cardinality(Mine) < 12 THEN 3 ELSE 2)
        /\ \E s \in Mine, n \in Names :
             /\ Fits(s, n)
             \* of the special names, the second slot is the same or one of a few
             /\ (first \in Special) => (s \in {"var", "resource", "key", "child", "param"})
             /\ LET u == Unit(s, n, len + 1) \o <<Nl>> IN
                /\ hist' = hist \o u
                /\ st' = Run(st, u, 1)
             /\ len' = len + 1
             /\ first' = IF len = 0 THEN n ELSE first
Spec == Init /\ [][Next]_vars

Out == len = 0 \/ LET toks == hist \o Tail(Sentinel)
                      r == Run(st, Tail(Sentinel), 1)
                  IN IF r.err = "" /\ r.done THEN EmitDoc("names", toks, r)
                     ELSE Assert(IsOpen(r), <<"names", hist, r.err>>)

\* the machine reads every declaration by itself: none changes what the others mean
Count(s) == Len(s.els) + Len(s.imps) + Len(s.kids)
Apart == [][Count(st') >= Count(st) /\ SubSeq(st'.els, 1, Len(st.els)) = st.els /\ SubSeq(st'.imps, 1, Len(st.imps)) = st.imps /\ SubSeq(st'.kids, 1, Len(st.kids)) = st.kids]_vars
=============================================================================
