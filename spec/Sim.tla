-------------------------------- MODULE Sim --------------------------------
(* Random behaviours of the builders over the full alphabet (TLC simulation), written as records to be replayed. *)
EXTENDS Hist, Json, CSV, IOUtils, Integers

CONSTANTS Focus,      \* which parts of the interface are preferred ("" = all)
          WithAlts    \* whether to add alternative histories (C21, C22)

VARIABLE plan         \* what kind of behaviour this is

svars == <<stack, hist, result, plan>>

FamName == IF Fam = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o "," \o y, Fam[1], Tail(Fam))

Pk(s) == RandomElement(s)
Chance(n) == RandomElement(1..100) <= n

MethodsAt(fr) == DOMAIN LeafAt(fr) \cup DOMAIN OpenAt(fr)

(* Methods a focus prefers, by the kind of the innermost builder *)
Prefer(f, fr) ==
  LET k == fr.k
      forms == {"form", "property", "action", "event"}
      schemas == {"uri_variable", "schema_definition", "property", "action", "event"}
      holders == {"input", "output", "subscription", "data", "data_response", "cancellation", "uri_variable"}
      nest == {"vec", "tuple", "object", "one_of", "append", "set_item", "property", "vec_ext", "tuple_ext", "object_ext"}
  IN CASE f = "security" -> CASE k = "thing" -> forms \cup {"security"} [] k \in {"prop", "action", "event"} -> {"form"}
                              [] k = "form" -> {"security", "href", "op"}
                              [] k = "sec" -> {"combo", "one_of", "all_of", "extend", "push", "with_key", "required", "name", "basic"}
                              [] OTHER -> {}
       [] f = "ops" -> CASE k = "thing" -> forms [] k \in {"prop", "action", "event"} -> {"form"} [] k = "form" -> {"op", "href"} [] OTHER -> {}
       [] f = "responses" -> CASE k = "thing" -> forms \cup {"schema_definition"} [] k \in {"prop", "action", "event"} -> {"form"}
                               [] k = "form" -> {"additional_response", "href", "response", "op"} [] k = "aresp" -> {"schema"} [] OTHER -> {}
       [] f = "names" -> CASE k = "thing" -> {"security", "property", "action", "event"}
                           [] k = "sec" -> {"with_key", "name", "required", "no_sec", "auto", "psk", "bearer"} [] OTHER -> {}
       [] f = "limits" -> CASE k = "thing" -> schemas [] k \in {"prop", "action", "event"} -> nest \cup holders \cup {"number", "integer", "string"}
                            [] k = "schema" -> IF fr.p = "X" THEN nest \cup {"number", "integer", "string", "vec"}
                                               ELSE LimitMethods \cup {"multiple_of", "min_items", "max_items", "min_length", "max_length",
                                                                       "set_item", "append", "property", "one_of"}
                            [] OTHER -> {}
       [] f = "urivars" -> CASE k = "thing" -> {"uri_variable", "property", "action", "event"}
                             [] k \in {"prop", "action", "event"} -> {"uri_variable"} [] OTHER -> {}
       [] f = "tags" -> CASE k = "thing" -> {"titles", "descriptions", "link_with", "security"} \cup schemas
                          [] k = "ml" -> {"add"} [] k = "link" -> {"hreflang"}
                          [] OTHER -> {"titles", "descriptions"} \cup holders \cup nest
       [] f = "links" -> CASE k = "thing" -> {"link", "link_with"} [] k = "link" -> {"rel", "sizes", "hreflang", "anchor", "ty", "href"} [] OTHER -> {}
       [] f = "thing" -> IF k = "thing" THEN DOMAIN ThingLeafBoth \cup DOMAIN HrOpen \cup {"context_map", "security"}
                         ELSE IF k = "sec" THEN {"required", "with_key"} ELSE {}
       [] f = "affordances" -> CASE k = "thing" -> {"property", "action", "event", "form"}
                                 [] k \in {"prop", "action", "event"} -> {"form", "titles", "uri_variable", "attype"} \cup holders
                                 [] k = "form" -> DOMAIN FormLeaf \cup {"additional_response"} [] OTHER -> {}
       [] f = "schemas" -> CASE k = "thing" -> schemas [] k \in {"prop", "action", "event"} -> nest \cup holders
                             [] k = "schema" -> IF fr.p = "E" THEN {} ELSE MethodsAt(fr) \ DOMAIN HrLeaf [] OTHER -> {}
       [] f = "schemes" -> CASE k = "thing" -> {"security"} [] OTHER -> {}
       [] f = "exts" -> CASE k = "thing" -> forms \cup schemas [] k \in {"prop", "action", "event"} -> {"form"} \cup holders \cup nest
                          [] k = "form" -> {"response", "href"} [] k = "schema" -> nest [] OTHER -> {}
       [] f = "protocols" -> CASE k = "thing" -> forms [] k \in {"prop", "action", "event"} -> {"form"}
                               [] k = "form" -> {"response", "response_default_ext", "href", "op"} [] OTHER -> {}
       [] OTHER -> {}

(* what still has to be called before the innermost builder can be closed *)
Needed(fr) ==
  LET exts(ms) == {m \in ms : m \in DOMAIN LeafAt(fr)}
  IN CASE fr.k = "link" -> {"href"}
       [] fr.k = "form" -> IF "href" \notin DOMAIN fr.m THEN {"href"} ELSE exts({"ext", "ext_with"})
       [] fr.k = "sec" -> IF fr.p = "E" THEN DOMAIN SecSelectors ELSE {"one_of", "all_of"}
       [] fr.k \in {"action", "event"} -> exts({"ext", "ext_with", "ext_interaction", "ext_interaction_with"})
       [] fr.k \in {"schema", "prop"} ->
            IF fr.p = "E" THEN IF AllExtDone(fr.k, fr.m) THEN {"finish_extend"}
                               ELSE exts({"ext", "ext_with", "ext_interaction", "ext_interaction_with", "ext_data_schema", "ext_data_schema_with"})
            ELSE DOMAIN SchemaSelectors \cup {"enumeration"}
       [] OTHER -> exts({"ext", "ext_with"})
(* opening nested schemas only where there is depth left *)
Deepening(fr, m) == fr.k \in {"schema", "prop"} /\ m \in {"one_of", "append", "set_item", "property"}

Budget(pl, d) == IF Len(hist) > 120 THEN 0 ELSE IF d = 1 THEN pl.size ELSE IF d = 2 THEN pl.sub ELSE IF d <= pl.deep THEN 3 + ((pl.size + d) % 3) ELSE 1
CanEnd(st) == IF Len(st) = 1 THEN ExtDone(Top_(st).m, "%ext") ELSE CanClose(Top_(st))

(* names mentioned but not defined (yet) *)
SecRefs(th) == UNION {Strs(s[3], "%names") : s \in Vals(th[3], "securityDefinitions")}
               \cup UNION {Strs(f[3], "security") : f \in Vals(th[3], "forms")}
               \cup UNION {UNION {UNION {Strs(f[3], "security") : f \in Vals(a[3], "forms")} : a \in Vals(th[3], w)} : w \in {"properties", "actions", "events"}}
DefRefs(th) == LET of(f) == UNION {Strs(r[3], "schema") : r \in Vals(f[3], "additionalResponses")}
               IN UNION {of(f) : f \in Vals(th[3], "forms")}
                  \cup UNION {UNION {UNION {of(f) : f \in Vals(a[3], "forms")} : a \in Vals(th[3], w)} : w \in {"properties", "actions", "events"}}
MissingSecs(th) == SecRefs(th) \ SecKeys(th)
MissingDefs(th) == DefRefs(th) \ DefKeys(th)

Fresh(fr, w, n) == LET k == Keyed(MemOf(fr.m, w)) IN IF n \in k THEN n \o ToString(Cardinality(k)) ELSE n

(* the candidates, without those that break a rule if the behaviour is to be clean *)
LocalOk(fr) == LimitCauses(El(fr.k, fr.m)) = {}
ChooseArgs(st, fr, m, pl) ==
  LET clean == pl.mode # "faulty" \/ ~Chance(pl.fault)
      all == ArgsOf(st, fr, m, ~clean)
      keyed == m \in DOMAIN OpenAt(fr) /\ OpenAt(fr)[m].e \in {"put", "member"}
      ok == IF clean /\ m \in DOMAIN LeafAt(fr) /\ LeafAt(fr)[m].w \in LimitNames \cup {"minItems", "maxItems", "minLength", "maxLength"}
            THEN {a \in all : LocalOk(Leaf(fr, <<".", m, a[1], a[2]>>))} ELSE all
      pool == IF ok = {} THEN all ELSE ok
  IN IF fr.k = "sec" /\ fr.n = 0 /\ m = "with_key" /\ clean /\ MissingSecs(TheThing) # {} THEN SV(MissingSecs(TheThing))
     ELSE IF m = "schema_definition" /\ clean /\ MissingDefs(TheThing) # {} THEN {<<x, Z>> : x \in MissingDefs(TheThing)}
     ELSE IF keyed /\ clean THEN {<<Fresh(fr, OpenAt(fr)[m].w, a[1]), a[2]>> : a \in {Pk(pool)}}
     ELSE {Pk(pool)}

CallsFor(st, fr, m, pl) == {<<IF m \in DOMAIN LeafAt(fr) THEN "." ELSE "(", m, a[1], a[2]>> : a \in ChooseArgs(st, fr, m, pl)}

(* a clean schema that is a URI variable has no list and no object *)
Allowed(st, fr, pl) ==
  LET ms == {m \in MethodsAt(fr) : Len(st) >= pl.deep => ~Deepening(fr, m)}
      uri == Len(st) > 1 /\ Top_(st).o[2] = "uri_variable" /\ ~(pl.mode = "faulty" /\ Chance(10))
  IN IF uri THEN ms \ {"tuple", "vec", "object", "tuple_ext", "vec_ext", "object_ext"} ELSE ms

PickMethod(st, fr, pl) ==
  LET ms == Allowed(st, fr, pl)
      forced == IF fr.n >= Budget(pl, Len(st)) /\ ~CanEnd(st) THEN Needed(fr) \cap ms ELSE {}
      better == Prefer(pl.focus, fr) \cap ms
      early == (fr.p \in {"E", "X"} /\ fr.k # "sec" /\ (fr.k # "thing" \/ pl.focus # "thing"))
      sec0 == fr.k = "sec" /\ fr.n = 0 /\ pl.mode # "faulty"
  IN IF sec0 /\ (Chance(60) \/ MissingSecs(TheThing) # {}) THEN "with_key"
     ELSE IF forced # {} THEN Pk(forced)
     ELSE IF early /\ Chance(35) /\ (IF fr.k = "thing" /\ AllExtDone("thing", fr.m) THEN {"finish_extend"} ELSE Needed(fr)) \cap ms # {}
          THEN Pk((IF fr.k = "thing" /\ AllExtDone("thing", fr.m) THEN {"finish_extend"} ELSE Needed(fr)) \cap ms)
     ELSE IF better # {} /\ Chance(70) THEN Pk(better)
     ELSE Pk(ms)

(* repairs at the end of a clean behaviour *)
Repairs(st, fr, pl) ==
  IF pl.mode = "faulty" THEN {}
  ELSE IF Len(st) = 1 THEN IF MissingSecs(TheThing) # {} THEN {"security"}
                           ELSE IF MissingDefs(TheThing) # {} THEN {"schema_definition"} ELSE {}
  ELSE IF fr.k = "link" /\ LinkCauses(El("link", fr.m)) # {} THEN {"rel!"}
  ELSE IF fr.k = "form" /\ FormPlace(st) = "thing" /\ MemOf(fr.m, "op") = <<>> THEN {"op"} ELSE {}
RepairCalls(st, fr, m, pl) == IF m = "rel!" THEN {<<".", "rel", "", S("icon")>>} ELSE CallsFor(st, fr, m, pl)

EndNow(st, fr, pl) == CanEnd(st) /\ (fr.n >= Budget(pl, Len(st)) \/ (Len(st) > 1 /\ Chance(pl.short)))

(***************************************************************************)
(* Alternative histories                                                    *)
(***************************************************************************)

(* C21: blocks that concern different members can be swapped wherever the types allow it (Shuffled is checked against the
   unchanged history in Alts) *)
RECURSIVE Shuffle(_, _)
Shuffle(h, n) ==
  IF n = 0 \/ SwapStarts(h) = {} THEN h
  ELSE CHOOSE r \in UNION {
         LET i == BeginOf(h, j - 1, 0)  e == EndOf(h, j, 0)
             b1 == SubSeq(h, i, j - 1)  b2 == SubSeq(h, j, e)
             st == Run(SubSeq(h, 1, i - 1))
             st2 == RunFrom(st, b2)
             st12 == IF st2 = <<>> THEN <<>> ELSE RunFrom(st2, b1)
             legal == st12 # <<>>
         IN {IF ~legal THEN Shuffle(h, n - 1)
             ELSE LET t1 == Touches(Top_(st), b1)  t2 == Touches(Top_(st), b2)
                  IN IF t1 \cap t2 = {} /\ "*" \notin t1 \cup t2
                     THEN Shuffle(Swap(h, j), n - 1) ELSE Shuffle(h, n - 1)} : j \in {Pk(SwapStarts(h))}} : TRUE

Mutant(h) ==
  CHOOSE r \in UNION { LET c == h[i] IN
         IF Chance(50) \/ c[1] = "(" THEN {Drop(h, i)}
         ELSE LET st == Run(SubSeq(h, 1, i - 1))
              IN {[h EXCEPT ![i] = <<c[1], c[2], a[1], a[2]>>] : a \in {Pk(ArgsOf(st, Top_(st), c[2], FALSE))}}
       : i \in {Pk(Starts(h))} } : TRUE

Shuffled(h, o) == CHOOSE r \in {IF Assert(SameOutcome(o, RunOut(x)), <<"swapping independent calls changes the outcome", h, x>>)
                                THEN Alt(x, "perm") ELSE <<>> : x \in {Shuffle(h, 4)}} : TRUE
Mutated(h) == {Alt(x, "diff") : x \in {y \in {Mutant(h)} : Legal(y)}}
Alts(h, o) == IF ~WithAlts \/ Len(h) < 2 THEN <<>>
              ELSE <<Shuffled(h, o)>> \o SetToSeq(Mutated(h)) \o SetToSeq(Mutated(h))

Rec == [t |-> "build", fam |-> FamName, prog |-> hist, out |-> IF result'[1] = "ok" THEN result' ELSE <<"err">>,
        causes |-> IF result'[1] = "ok" THEN {} ELSE Causes(TheThing), tags |-> TagsOf(TheThing), alt |-> Alts(hist, result')]
Emit == CSVWrite("%1$s", <<ToJson(Rec)>>, IOEnv.OUT)

Plans == [focus : Focus, mode : {"clean", "clean2", "faulty"}, size : {2, 4, 8, 12, 25}, sub : {3, 6, 12}, deep : {3, 4, 6, 9},
          short : {5, 15, 30}, fault : {3, 8, 20}]
SimInit == /\ \E t \in {"Lamp", "$uni", ""} : InitWith(t)
           /\ plan \in Plans

SimNext ==
  /\ Open /\ UNCHANGED plan
  /\ \E fix \in {EndNow(stack, Top, plan)} :
       IF fix
       THEN IF Repairs(stack, Top, plan) # {}
            THEN \E m \in Repairs(stack, Top, plan) : \E c \in RepairCalls(stack, Top, m, plan) : Call(c) \/ OpenCall(c)
            ELSE IF Len(stack) = 1 THEN Build /\ Emit ELSE Close
       ELSE \E m \in {PickMethod(stack, Top, plan)} : \E c \in CallsFor(stack, Top, m, plan) : Call(c) \/ OpenCall(c)
=============================================================================
