------------------------------ MODULE ModPath -------------------------------
(* Classification of module references, character by character.              *)
(*   br:<registry>.azurecr.io/<path>:<tag>     private registry              *)
(*   br:mcr.microsoft.com/<path>:<tag>         public registry               *)
(*   br/<alias>:<path>:<tag>                   registry alias                *)
(*   ts:<subscription>/<group>/<name>:<version>  template spec               *)
(*   ts/<alias>:<name>:<version>               template spec alias           *)
(*   anything else                             local file                    *)
(* Used only for references that are well formed (only characters the scheme *)
(* allows) or that lack a part.                                              *)
EXTENDS BicepTables

Chr(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE Split(_, _, _, _)
\* pieces of s between occurrences of character c; from: start of current piece
Split(s, c, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Chr(s, i) = c THEN <<SubSeq(s, from, i - 1)>> \o Split(s, c, i + 1, i + 1)
  ELSE Split(s, c, from, i + 1)
SplitAt(s, c) == Split(s, c, 1, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, c, i) == IF i > Len(q) THEN "" ELSE (IF i > 1 THEN c ELSE "") \o q[i] \o JoinFrom(q, c, i + 1)
JoinWith(q, c) == JoinFrom(q, c, 1)
Tail1(q) == SubSeq(q, 2, Len(q))

Invalid == <<"invalid", "">>
Parts(pairs) == D([i \in 1..Len(pairs) |->
                   <<pairs[i][1], IF pairs[i][1] = "public" THEN B(pairs[i][2]) ELSE S(pairs[i][2])>>])
Kind(type, pairs) == <<<<"type", S(type)>>, <<"detail", Parts(pairs)>>>>

NonEmpty(q) == \A i \in 1..Len(q) : q[i] # ""

Registry(full) ==
  LET parts == SplitAt(full, ":")
      segs == SplitAt(parts[1], "/")
      host == segs[1]
      path == JoinWith(Tail1(segs), "/")
      public == host = "mcr.microsoft.com"
      private == EndsWith(host, ".azurecr.io")
      name == IF public THEN host ELSE SubSeq(host, 1, Len(host) - Len(".azurecr.io"))
  IN IF Len(parts) # 2 \/ ~NonEmpty(parts) \/ Len(segs) < 2 \/ path = "" \/ ~(public \/ private) \/ name = ""
     THEN Invalid
     ELSE <<"ok", Kind("bicep_registry",
            <<<<"full", full>>, <<"registry_name", name>>, <<"path", path>>, <<"tag", parts[2]>>,
              <<"public", IF public THEN "true" ELSE "false">>>>)>>

RegistryAlias(full) ==
  LET parts == SplitAt(full, ":")
  IN IF Len(parts) # 3 \/ ~NonEmpty(parts) THEN Invalid
     ELSE <<"ok", Kind("bicep_registry_alias",
            <<<<"full", full>>, <<"alias", parts[1]>>, <<"path", parts[2]>>, <<"tag", parts[3]>>,
              <<"public", IF parts[1] = "public" THEN "true" ELSE "false">>>>)>>

TemplateSpec(full) ==
  LET parts == SplitAt(full, ":")
      segs == SplitAt(parts[1], "/")
  IN IF Len(parts) # 2 \/ ~NonEmpty(parts) \/ Len(segs) # 3 \/ ~NonEmpty(segs) THEN Invalid
     ELSE <<"ok", Kind("template_spec",
            <<<<"full", full>>, <<"subscription_id", segs[1]>>, <<"resource_group_id", segs[2]>>,
              <<"name", segs[3]>>, <<"version", parts[2]>>>>)>>

TemplateSpecAlias(full) ==
  LET parts == SplitAt(full, ":")
  IN IF Len(parts) # 3 \/ ~NonEmpty(parts) THEN Invalid
     ELSE <<"ok", Kind("template_spec_alias",
            <<<<"full", full>>, <<"alias", parts[1]>>, <<"path", parts[2]>>, <<"tag", parts[3]>>>>)>>

Classify(ref) ==
  LET rest == IF Len(ref) > 3 THEN SubSeq(ref, 4, Len(ref)) ELSE ""
  IN CASE StartsWith(ref, "br:") -> Registry(rest)
       [] StartsWith(ref, "br/") -> RegistryAlias(rest)
       [] StartsWith(ref, "ts:") -> TemplateSpec(rest)
       [] StartsWith(ref, "ts/") -> TemplateSpecAlias(rest)
       [] OTHER -> <<"ok", Kind("local", <<<<"full", ref>>, <<"path", ref>>>>)>>
=============================================================================
