------------------------------- MODULE MCDocs -------------------------------
(* Every edit of one member of every kind of element, at every place. *)
EXTENDS Docs, Texts

Kinds == {k \in ElementKinds : HasKind(k)}

All(k) == {<<k, sub>> : sub \in Subs(k)}
Pairs(ks) == UNION {All(k) : k \in ks}
ExtWords(k, sub) == DOMAIN ExtOf(k, sub) \cup (IF k \in {"header", "block"} THEN DOMAIN Fields(k, "") ELSE {})
TextSeqs == UNION {LET q == SetToSeq(c) IN {SubSeq(q, 16 * i + 1, Min({16 * i + 16, Len(q)})) : i \in 0 .. ((Len(q) - 1) \div 16)} : c \in TextClasses}
Bases == CASE IOEnv.BASES = "texts" -> {<<k, sub, Place1(k), MinEl(k, sub)>> : <<k, sub>> \in {x \in Pairs(Kinds) : x[1] \in {"schema", "prop"} => x[2] \in {"", "string", "object"}}}
           [] IOEnv.BASES = "min" -> {<<k, sub, Place1(k), MinEl(k, sub)>> : <<k, sub>> \in Pairs(Kinds)}
           [] IOEnv.BASES = "full" -> {<<k, sub, Place1(k), FullEl(k, sub)>> : <<k, sub>> \in Pairs(Kinds)}
           [] IOEnv.BASES \in {"places", "places0"} ->
                {<<k, sub, pl, MinEl(k, sub)>> : <<k, sub, pl>> \in
                  UNION {{<<k, sub, pl>> : sub \in Subs(k) \cap {"", "integer"}, pl \in PlacesOf(k)} : k \in {"form", "resp", "aresp", "schema"}}}
           [] IOEnv.BASES = "ext" ->
                UNION {{<<k, sub, pl, MinEl(k, sub)>>, <<k, sub, pl, FullEl(k, sub)>>} : <<k, sub, pl>> \in
                  {<<k, sub, pl>> \in UNION {{<<k, sub, pl>> : sub \in Subs(k) \cap {"", "array", "object", "integer"}, pl \in PlacesOf(k)} : k \in Kinds} :
                     ExtWords(k, sub) # {} /\ (k = "schema" => pl[2] \in {"direct", "items", "member"})}}
Focused == CASE IOEnv.BASES = "places" -> {"title", "titles", "op", "security", "schema", "contentType", "oneOf", "const", "minimum", "readOnly", "scopes", "success"}
             [] IOEnv.BASES = "places0" -> {"title", "op", "contentType", "const", "minimum", "success", "unit"}
             [] OTHER -> {}
DocsInit == /\ \E b \in Bases : phase = <<"base", b>> /\ doc = Embed(b[1], b[3], b[4])
Reduced(b, es) == IF IOEnv.BASES = "ext" THEN {e \in es : e[1] \in ExtWords(b[1], b[2])}
                  ELSE IF Focused = {} THEN es ELSE {e \in es : e[1] \in Focused}
(* every text in every member that takes one, and as every name *)
TextValues(f) ==
  LET one(t) == IF f.t \in {"str", "any"} THEN S(t) ELSE One(f.t)
      scalar == f.t \notin ElementKinds
  IN CASE f.t = "lang" -> {}
       [] f.c = "1" /\ scalar /\ f.t # "any" -> {S(t) : t \in ManyTexts}
       [] f.c = "1" /\ f.t = "any" -> {S(t) : t \in ManyTexts} \cup {O(t :> S(t)) : t \in ManyTexts}
       [] f.c \in {"*", "o", "p"} /\ scalar -> {A(<<One(f.t), S(t)>>) : t \in ManyTexts} \cup {S(t) : t \in ManyTexts} \cup (IF f.t = "str" THEN {A([i \in DOMAIN ts |-> S(ts[i])]) : ts \in TextSeqs} ELSE {})
       [] f.c = "m" -> {O((t :> one(t)) @@ ("k" :> One(f.t))) : t \in ManyTexts} \cup {O([t \in Range(ts) |-> one(t)]) : ts \in TextSeqs}
       [] f.c = "l" -> {O("en" :> S(t)) : t \in ManyTexts}
       [] OTHER -> {}
TextEdits(k, sub, o) == LET fs == FieldsAt(k, sub) IN {<<w, Put(o, w, v)>> : <<w, v>> \in UNION {{<<w, v>> : v \in TextValues(fs[w])} : w \in DOMAIN fs \ Fixed}}
AllEdits(b) == IF IOEnv.BASES = "texts" THEN TextEdits(b[1], b[2], b[4][2]) ELSE LET o == b[4][2]
               IN Reduced(b, Edits(b[1], b[2], o))
                  \cup (CASE IOEnv.BASES \in {"full", "places", "places0"} -> {} [] IOEnv.BASES = "ext" -> IF IOEnv.FAM \in {"a", "a,b"} THEN {} ELSE Foreigns(b[1], o)
                          [] OTHER -> Foreigns(b[1], o) \cup Selects(b[1], o))
DocsNext ==
  /\ phase[1] = "base"
  /\ \/ /\ \E e \in AllEdits(phase[2]) : /\ doc' = Embed(phase[2][1], phase[2][3], O(e[2])) /\ phase' = <<"edit", e[1]>>
        /\ EmitDoc(doc', phase'[2], 1)
     \/ EmitDoc(doc, "", 2) /\ phase' = <<"done">> /\ UNCHANGED doc
DocInvariant == Faithful(doc) /\ LaxFaithful(doc)
=============================================================================
