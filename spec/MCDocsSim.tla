------------------------------ MODULE MCDocsSim ------------------------------
(* Random documents (TLC simulation): a document grows by proper edits; then it is written as a record, and so are variants of
   it with one or two edits of any kind. *)
EXTENDS Docs

Pk(s) == RandomElement(s)
Chance(n) == RandomElement(1..100) <= n

(* the elements inside an element: <<member, kind, position, name>> *)
ChildrenOf(k, sub, o) ==
  LET fs == FieldsAt(k, sub)
      at(w) == LET f == fs[w]  v == o[w]
               IN CASE f.c \in {"*", "o", "v"} /\ IsA(v) -> {<<w, f.t, i, "">> : i \in {x \in DOMAIN v[2] : IsO(v[2][x])}}
                    [] f.c = "m" /\ IsO(v) -> {<<w, f.t, 0, x>> : x \in {y \in DOMAIN v[2] : IsO(v[2][y])}}
                    [] IsO(v) -> {<<w, f.t, -1, "">>} [] OTHER -> {}
  IN UNION {at(w) : w \in {x \in DOMAIN fs \cap DOMAIN o : fs[x].t \in ElementKinds}}
ChildAt(o, c) == IF c[3] > 0 THEN o[c[1]][2][c[3]] ELSE IF c[3] = 0 THEN o[c[1]][2][c[4]] ELSE o[c[1]]
WithChild(o, c, v) == IF c[3] > 0 THEN [o EXCEPT ![c[1]][2][c[3]] = v] ELSE IF c[3] = 0 THEN [o EXCEPT ![c[1]][2][c[4]] = v] ELSE [o EXCEPT ![c[1]] = v]

Proper(f, v) == NormField(TRUE, f, v) # Bad
Names == {"k", "l", "p", "$uni", "", "type", "Lamp", "oneOf", "scheme"}
(* adds one more value to a list or map *)
Grow(f, j) ==
  LET v == {x \in Pool(f.t) : NormT(TRUE, f.t, x) # Bad}
  IN CASE f.c \in {"*", "o", "p"} /\ IsA(j) /\ Len(j[2]) < 4 -> {A(Append(j[2], x)) : x \in {Pk(v)}}
       [] f.c = "v" /\ IsA(j) /\ Len(j[2]) < 4 -> {A(Append(j[2], x)) : x \in {Pk(v)}}
       [] f.c = "m" /\ IsO(j) -> {O((n :> x) @@ j[2]) : n \in {Pk(Names)}, x \in {Pk(v)}}
       [] f.c = "l" /\ IsO(j) -> {O((n :> x) @@ j[2]) : n \in {Pk(GoodTags)}, x \in {Pk(v)}}
       [] OTHER -> {}
ProperEdit(k, sub, o) ==
  UNION {LET f == FieldsAt(k, sub)[w]
             grown == IF w \in DOMAIN o THEN Grow(f, o[w]) ELSE {}
         IN IF grown # {} /\ Chance(70) THEN {Put(o, w, v) : v \in grown}
            ELSE IF w \in DOMAIN o /\ f.t \in ElementKinds THEN {o}
            ELSE {Put(o, w, v) : v \in {Pk({x \in ValuesOf(f) : Proper(f, x)})}}
         : w \in {Pk((DOMAIN FieldsAt(k, sub) \ Fixed) \ (IF sub = "combo" THEN {"oneOf", "allOf"} ELSE {}))}}
AnyEdit(k, sub, o) ==
  LET sel == Selects(k, o)
  IN IF sel # {} /\ Chance(10) THEN {e[2] : e \in {Pk(sel)}}
     ELSE IF Chance(25) THEN {e[2] : e \in {Pk(Foreigns(k, o))}}
     ELSE IF Chance(25) THEN {Without(o, {w}) : w \in {Pk(DOMAIN o \cup {"zz"})}}
     ELSE UNION {{Put(o, w, v) : v \in {Pk(ValuesOf(FieldsAt(k, sub)[w]))}} : w \in {Pk(DOMAIN FieldsAt(k, sub) \ Fixed)}}

RECURSIVE EditIn(_, _, _)
EditIn(any, k, j) ==
  LET o == j[2]  sub == SubOf(k, o)  cs == ChildrenOf(k, sub, o)
  IN IF cs # {} /\ Chance(IF k = "thing" THEN 85 ELSE 65)
     THEN UNION {{O(WithChild(o, c, v)) : v \in EditIn(any, c[2], ChildAt(o, c))} : c \in {Pk(cs)}}
     ELSE IF DOMAIN FieldsAt(k, sub) \ Fixed = {} THEN {j}
     ELSE IF any THEN {O(x) : x \in AnyEdit(k, sub, o)} ELSE {O(x) : x \in ProperEdit(k, sub, o)}

Seeds == {MinEl("thing", ""),
          O(("properties" :> O(("p" :> MinEl("prop", "integer")) @@ ("q" :> MinEl("prop", "object")))) @@ ("actions" :> O("p" :> MinEl("action", "")))
            @@ ("events" :> O("e" :> MinEl("event", ""))) @@ ("forms" :> A(<<MinEl("form", "")>>)) @@ MinSub("thing", "")),
          InThing("schemaDefinitions", O(("a" :> MinEl("schema", "array")) @@ ("b" :> MinEl("schema", "object")) @@ ("c" :> MinEl("schema", "")))),
          InThing("securityDefinitions", O([x \in KnownSchemes |-> MinEl("sec", x)])),
          InThing("events", O("e" :> In1("event", "", "forms", A(<<In1("form", "", "response", MinEl("resp", ""))>>))))}

SimDocsInit == doc \in Seeds /\ \E n \in {5, 15, 30, 60} : phase = <<"grow", n>>
SimDocsNext ==
  \/ phase[1] = "grow" /\ phase[2] > 0 /\ \E d \in {x \in EditIn(FALSE, "thing", doc) : TRUE} : doc' = d /\ phase' = <<"grow", phase[2] - 1>>
  \/ phase[1] = "grow" /\ phase[2] = 0 /\ EmitDoc(doc, "", RandomElement(1..1000000)) /\ phase' = <<"vary", 8>> /\ UNCHANGED doc
  \/ phase[1] = "vary" /\ phase[2] > 0 /\ phase' = <<"vary", phase[2] - 1>> /\ UNCHANGED doc
     /\ \E d \in {x \in EditIn(TRUE, "thing", doc) : IsO(x)} :
        IF Chance(70) THEN EmitDoc(d, "one edit", 3) ELSE \E e \in EditIn(TRUE, "thing", d) : EmitDoc(e, "two edits", 5)
SimDocInvariant == phase[1] = "vary" => Faithful(doc) /\ (phase[2] = 8 => Read(doc) # Bad)
=============================================================================
