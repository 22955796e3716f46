------------------------------- MODULE GenRef --------------------------------
(* Module references, put together part by part.  Every part is taken from a *)
(* pool of well-formed texts or left out; separators may be missing, and     *)
(* something may follow.  What was put in is what the reference must be      *)
(* reported as (Faithful, Lossless); a reference of a registry or template   *)
(* spec scheme that lacks a part must be refused.                            *)
EXTENDS Hosts

Scale == atoi(IOEnv.SCALE)
Q(a, b) == IF Scale = 0 THEN a ELSE b

Part(kind, pool) == [kind |-> kind, pool |-> pool]
Sep(x) == [kind |-> "sep", pool |-> {x, ""}]
Fixed(x) == [kind |-> "sep", pool |-> {x}]
Chars == {"A", "q", "Z", "0", "9", "_", "-", "."}
Around(set) == {"x" \o c \o "y" : c \in set}
Tags == {"v1", "1.0.0", "2", "latest", ""} \union Q({"2021-01-01_p"}, Around(Chars))
Paths == {"bicep", "a/b-c/d.e_1", "modules/storage", ""} \union Q({}, Around(Chars \union {"/"}))
Aliases == {"public", "myAlias", "a-b_2", ""} \union Q({}, Around(Chars \ {"."}))
SpecNames == {"spec", "a.b-c(2)_", "Spec9", ""} \union Q({}, Around(Chars \union {"(", ")"}))
Hex == {"00000000-0000-0000-0000-0000000000ab", "ABCDEF-12", ""} \union Q({}, {"a1", "fF-09"})
\* the last piece: something after the reference
Tail2 == Part("tail", {"", ":x", "/y", ":", ":x:y"})

Schemes == {
  [type |-> "bicep_registry", head |-> "br:", parts |-> <<Part("host", {"reg", "a_b1", "X9", ""}), [kind |-> "suffix", pool |-> {".azurecr.io", ".azurecr.iox", "azurecr.io", ".azurecr"}], Sep("/"), Part("path", Paths), Sep(":"), Part("tag", Tags), Tail2>>],
  [type |-> "bicep_registry", head |-> "br:", parts |-> <<Part("host", {"mcr.microsoft.com", "mcr.microsoft.comx", "mcrxmicrosoft.com", "mcr.microsoft", "MCR.microsoft.com", "xmcr.microsoft.com"}), Fixed(""), Sep("/"), Part("path", Paths), Sep(":"), Part("tag", Tags), Tail2>>],
  [type |-> "bicep_registry_alias", head |-> "br/", parts |-> <<Part("alias", Aliases \union {"Public", "public2", "xpublic"}), Sep(":"), Part("path", Paths), Sep(":"), Part("tag", Tags), Tail2>>],
  [type |-> "template_spec", head |-> "ts:", parts |-> <<Part("subscription_id", Hex), Sep("/"), Part("resource_group_id", {"my-rg", "rg_(1).x", "RG"} \union {""}), Sep("/"), Part("name", SpecNames), Sep(":"), Part("version", Tags), Tail2>>],
  [type |-> "template_spec_alias", head |-> "ts/", parts |-> <<Part("alias", Aliases), Sep(":"), Part("path", SpecNames), Sep(":"), Part("tag", Tags), Tail2>>],
  [type |-> "local", head |-> "", parts |-> <<Part("path", {"./m.bicep", "m.bicep", "../x/y.bicep", "br.bicep", "ts.bicep", "brx/y.bicep", "BR:reg.azurecr.io/a:b", "b:r", "ts", "br", "a:b/c",
      "mcr.microsoft.com/x:1", "", "main.json", "dir with space/~U1~.bicep", " br:x", "reg.azurecr.io/a:b", "tsx:1/2/3:4", "b/r:x", "/abs/br:x", "modules/br/public:x:y", "it\\'s.bicep", "public"})>>]}

VARIABLES sch, i, ref, got
vars == <<sch, i, ref, got>>
Init == sch \in Schemes /\ i = 1 /\ ref = sch.head /\ got = <<>>
Next == /\ i <= Len(sch.parts)
        /\ \E x \in sch.parts[i].pool :
             /\ ref' = ref \o x
             /\ got' = Append(got, x)
             /\ i' = i + 1 /\ sch' = sch
Spec == Init /\ [][Next]_vars

Complete == i > Len(sch.parts)
\* a reference as it should be written: every part and separator there, nothing after
At(kind) == {j \in 1..Len(sch.parts) : sch.parts[j].kind = kind}
ToldSep(j) == got[j] # ""
HostOk == sch.type # "bicep_registry" \/ (got[1] = "mcr.microsoft.com" /\ got[2] = "") \/ (got[1] # "" /\ got[2] = ".azurecr.io")
AsWritten == /\ HostOk
             /\ \A j \in 1..Len(got) : (got[j] = "") = (sch.parts[j].kind = "tail" \/ (sch.parts[j].kind = "sep" /\ sch.parts[j].pool = {""}))

Detail(c) == c[2][2][2][2]     \* pairs of the reported parts
Value(c, key) == LET d == Detail(c) IN d[CHOOSE j \in 1..Len(d) : d[j][1] = key][2][2]
C == Classify(ref)

\* the classification agrees with what was put together
Faithful == (Complete /\ sch.type # "local" /\ AsWritten) =>
  /\ C # Invalid
  /\ C[2][1] = <<"type", S(sch.type)>>
  /\ Value(C, "full") = SubSeq(ref, 4, Len(ref))
  /\ \A j \in 1..Len(got) : sch.parts[j].kind \notin {"sep", "suffix", "tail", "host"} => Value(C, sch.parts[j].kind) = got[j]
  /\ sch.type = "bicep_registry" => Value(C, "registry_name") = got[1]
  /\ sch.type = "bicep_registry" => Value(C, "public") = (IF got[1] = "mcr.microsoft.com" THEN "true" ELSE "false")
  /\ sch.type = "bicep_registry_alias" => Value(C, "public") = (IF got[1] = "public" THEN "true" ELSE "false")

\* the parts put together again give the reference, whatever was explored
Lossless == (Complete /\ C # Invalid) =>
  LET t == C[2][1][2][2] IN
  ref = CASE t = "local" -> Value(C, "path")
          [] t = "bicep_registry" -> "br:" \o Value(C, "registry_name") \o (IF Value(C, "public") = "true" THEN "" ELSE ".azurecr.io") \o "/" \o Value(C, "path") \o ":" \o Value(C, "tag")
          [] t = "bicep_registry_alias" -> "br/" \o Value(C, "alias") \o ":" \o Value(C, "path") \o ":" \o Value(C, "tag")
          [] t = "template_spec" -> "ts:" \o Value(C, "subscription_id") \o "/" \o Value(C, "resource_group_id") \o "/" \o Value(C, "name") \o ":" \o Value(C, "version")
          [] t = "template_spec_alias" -> "ts/" \o Value(C, "alias") \o ":" \o Value(C, "path") \o ":" \o Value(C, "tag")

\* left open: parts that merge into others when a separator is missing, odd slashes
Contains(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
\* characters that the scheme does not admit where they stand, e.g. a slash in a tag
Plain == sch.type = "local" \/ C = Invalid \/ AsWritten

Heads == {Host("plain", <<Id("module"), Id("m")>>, <<T("="), T("{"), T("}")>>),
          Host("loop", <<T("@"), Fn("description"), Str("d"), T(")"), Nl, Id("module"), Id("m")>>, <<T("="), T("["), Id("for"), Id("x"), Id("in"), Id("y"), T(":"), T("{"), Id("k"), T(":"), Id("x"), T("}"), T("]")>>)}
Doc(h) == LET toks == h.pre \o <<Str(ref)>> \o h.suf
              r == Run(Fresh, toks, 1)
          IN IF r.err = "" /\ r.done THEN EmitDoc(sch.type, toks, r)
             ELSE IF IsOpen(r) THEN TRUE
             ELSE EmitBad(sch.type, toks, r.err)
Out == (Complete /\ Plain) => \A h \in Heads : (h.name = "plain" \/ AsWritten) => Doc(h)
=============================================================================
