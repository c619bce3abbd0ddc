------------------------------- MODULE Long -------------------------------
(* Long lists of everything, the fault first, in the middle, last or nowhere; deep nesting. *)
EXTENDS Pairs

Lens == {18, 34, 66, 130, 260}
Row(n, good(_), bad(_)) == {Mix(n, good, bad, T) : T \in {{}, {1}, {n}, {(n \div 2) + 1}}}
Rows(good(_), bad(_)) == UNION {Row(n, good, bad) : n \in Lens}
FewLens == {18, 260}
(* three bodies in a row rather than all: the forms of the thing, of a property, the affordances of a kind *)
LongPlaces(b, n) == Row(n, LAMBDA i : FormB(ThingOp), LAMBDA i : FormB(ThingOp \o b))
                    \cup UNION {{Prop("n", x), Act("n", x), Ev("n", x)} : x \in Row(n, LAMBDA i : FormB(<<>>), LAMBDA i : FormB(b))}
                    \cup Row(n, LAMBDA i : Prop(Nth(i), FormB(<<>>)), LAMBDA i : Prop(Nth(i), FormB(b)))
                    \cup Row(n, LAMBDA i : Act(Nth(i), FormB(<<>>)), LAMBDA i : Act(Nth(i), FormB(b)))
                    \cup Row(n, LAMBDA i : Ev(Nth(i), FormB(<<>>)), LAMBDA i : Ev(Nth(i), FormB(b)))
LongSec(nil_) == UNION {UNION {{SecDefs(n) \o FormIn(pl, "n", l) : l \in Row(n, LAMBDA i : <<Do("security", S(Nth(i)))>>, LAMBDA i : <<Do("security", S("z"))>>)} : pl \in FormPlaces} : n \in FewLens}
           \cup UNION {{SecDefs(n) \o SecKeyed("c", Dn("combo"), <<Do(k, A(l))>>) : k \in {"one_of", "all_of"}, l \in Row(n, LAMBDA i : <<S(Nth(i))>>, LAMBDA i : <<S("z")>>)} : n \in Lens}
           \cup Rows(LAMBDA i : SecKeyed(Nth(i), Dn("no_sec"), <<>>), LAMBDA i : SecKeyed(Nth(i), Dn("combo"), <<Do("one_of", A(<<S("n2"), S("zz")>>))>>))
           \cup UNION {{SecDefs(2) \o x : x \in LongPlaces(Calls("security", <<"n2", "zz">>), n)} : n \in FewLens}
LongOps(nil_) == UNION {UNION {{FormRaw(pl, "n", l) : l \in UNION {Row(n, LAMBDA i : <<Do("op", S(OpsOk(pl)[((i - 1) % 5) + 1]))>>, LAMBDA i : <<Do("op", S(o))>>) :
                                                        o \in IF pl = "thing" THEN {"readproperty"} ELSE {"readallproperties", IF pl = "event" THEN "invokeaction" ELSE "subscribeevent"}}} : pl \in FormPlaces} : n \in Lens}
           \cup UNION {LongPlaces(Calls("op", <<"invokeaction">>), n) : n \in FewLens}
           \cup Rows(LAMBDA i : FormB(ThingOp), LAMBDA i : FormB(<<>>))
LongSchemas(nil_) == {SchemaDef("d", Bool) \o x : x \in UNION {UNION {{FormIn(pl, "n", l) : l \in Row(n, LAMBDA i : Aresp(<<Do("schema", S("d"))>>), LAMBDA i : Aresp(<<Do("schema", S("z"))>>))} : pl \in FormPlaces} : n \in FewLens}
                                                          \cup UNION {LongPlaces(Aresp(<<Do("schema", S("z"))>>), n) : n \in FewLens}}
           \cup UNION {{Flat_([i \in 1..n |-> SchemaDef(Nth(i), Bool)]) \o FormIn(pl, "n", Aresp(<<Do("schema", S(Nth(j)))>>)) : j \in {1, n, n + 1}, pl \in FormPlaces} : n \in Lens}
LongDup(nil_) == UNION {LET name(i, j) == IF i = n THEN Nth(j) ELSE Nth(i)
                        IN UNION {{Flat_([i \in 1..n |-> Prop(name(i, j), <<>>)]), Flat_([i \in 1..n |-> Act(name(i, j), <<>>)]), Flat_([i \in 1..n |-> Ev(name(i, j), <<>>)]),
                                   Flat_([i \in 1..n |-> SecKeyed(name(i, j), IF i = n THEN Dn("basic") ELSE Dn("no_sec"), <<>>)]),
                                   Flat_([i \in 1..n |-> CASE (i % 3) = 0 -> Prop(name(i, j), <<>>) [] (i % 3) = 1 -> Act(name(i, j), <<>>) [] OTHER -> Ev(name(i, j), <<>>)])} : j \in {1, (n \div 2), n - 1, n}} : n \in Lens}
LongSchema(f, n) ==
  {<<Dn("tuple")>> \o x : x \in Row(n, LAMBDA i : Blk("append", "", Kind(OkRange)), LAMBDA i : Blk("append", "", Kind(f)))}
  \cup {<<Dn("object")>> \o x : x \in Row(n, LAMBDA i : BlkV("property", Nth(i), IF (i % 2) = 0 THEN True ELSE False, Kind(Bool)), LAMBDA i : BlkV("property", Nth(i), True, Kind(f)))}
  \cup Row(n, LAMBDA i : Blk("one_of", "", Kind(Bool)), LAMBDA i : Blk("one_of", "", Kind(f)))
LongLimits(nil_) == UNION {{InHolder(h, "n", b) : b \in LongSchema(BadRange, n), h \in {"prop", "input", "data", "definition"}} : n \in FewLens}
              \cup UNION {UriHolders(b) : b \in Rows(LAMBDA i : UriVar(Nth(i), Bool), LAMBDA i : UriVar(Nth(i), BadNan))}
              \cup Rows(LAMBDA i : SchemaDef(Nth(i), OkRange), LAMBDA i : SchemaDef(Nth(i), BadRange))
              \cup Rows(LAMBDA i : PropK(Nth(i), OkRange, <<>>), LAMBDA i : PropK(Nth(i), BadRange, <<>>))
              \cup Rows(LAMBDA i : Act(Nth(i), Blk("input", "", Kind(OkRange))), LAMBDA i : Act(Nth(i), Blk("output", "", Kind(BadRange))))
              \cup Rows(LAMBDA i : Ev(Nth(i), Blk("data", "", Kind(OkRange))), LAMBDA i : Ev(Nth(i), Blk("cancellation", "", Kind(BadRange))))
LongUri(nil_) == UNION {UriHolders(b) : b \in Rows(LAMBDA i : UriVar(Nth(i), Bool), LAMBDA i : UriVar(Nth(i), <<Dn("object")>>))}
           \cup Rows(LAMBDA i : Prop(Nth(i), UriVar("u", Bool)), LAMBDA i : Prop(Nth(i), UriVar("u", <<Dn("vec")>>)))
           \cup Rows(LAMBDA i : Act(Nth(i), UriVar("u", Bool)), LAMBDA i : Act(Nth(i), UriVar("u", <<Dn("tuple")>>)))
           \cup Rows(LAMBDA i : Ev(Nth(i), UriVar("u", Bool)), LAMBDA i : Ev(Nth(i), UriVar("u", <<Dn("object")>>)))
TagRow(n) == {[i \in 1..n |-> IF i \in T THEN "e_n" ELSE "x-n" \o ToString(i)] : T \in {{}, {1}, {n}, {(n \div 2) + 1}}}
LongTagMaps(nil_) == UNION {UNION {UNION {{Ml(m, l), Prop("n", Ml(m, l)), Act("n", Ml(m, l)), Ev("n", Ml(m, l)), InHolder("output", "n", Bool \o Ml(m, l)), InHolder("prop", "n", Bool \o Ml(m, l)), SchemaDef("n", Bool \o Ml(m, l))} :
                                  m \in {"titles", "descriptions"}} : l \in TagRow(n)} : n \in FewLens}
            \cup UNION {{Sec(Dn("auto"), Ml("descriptions", l)) : l \in TagRow(n)} \cup {Blk("link_with", "", Href \o Calls("hreflang", l)) : l \in TagRow(n)} : n \in Lens}
            \cup UNION {Rows(LAMBDA i : Prop(Nth(i), Ml(m, <<"en">>)), LAMBDA i : Prop(Nth(i), Ml(m, <<"e_n">>))) : m \in {"titles", "descriptions"}}
            \cup Rows(LAMBDA i : SecKeyed(Nth(i), Dn("psk"), Ml("descriptions", <<"en">>)), LAMBDA i : SecKeyed(Nth(i), Dn("psk"), Ml("descriptions", <<"e_n">>)))
LongLinks(nil_) == Rows(LAMBDA i : LinkW(<<Do("rel", S("icon")), Do("sizes", S("1x1"))>>), LAMBDA i : LinkW(<<Do("rel", S("item")), Do("sizes", S("1x1"))>>))
             \cup Rows(LAMBDA i : <<Do("link", S("/l" \o ToString(i)))>>, LAMBDA i : LinkW(<<Do("sizes", S("1x1"))>>))
             \cup Rows(LAMBDA i : LinkW(<<Do("hreflang", S("en"))>>), LAMBDA i : LinkW(<<Do("hreflang", S("en_US"))>>))
LongAll(nil_) == UNION {{Flat_([i \in 1..n |-> CASE w = 1 -> Prop(Nth(i), <<>>) [] w = 2 -> Act(Nth(i), <<>>) [] w = 3 -> Ev(Nth(i), <<>>) [] w = 4 -> <<Do("profile", S(Nth(i)))>> [] w = 5 -> <<Do("attype", S(Nth(i)))>>
                                        [] w = 6 -> <<Do("context", S(Nth(i)))>> [] w = 7 -> Blk("context_map", "", <<Dk("context", Nth(i), S("/x"))>>) [] w = 8 -> <<Do("link", S(Nth(i)))>>
                                        [] w = 9 -> SecKeyed(Nth(i), Dn("auto"), <<Dn("required")>>) [] w = 10 -> FormB(ThingOp) [] w = 11 -> UriVar(Nth(i), Bool) [] w = 12 -> SchemaDef(Nth(i), Bool)]) : w \in 1..12}
                        \cup {CtxOne \o Blk("context_map", "", [i \in 1..n |-> Dk("context", Nth(i), S("/x"))]), InHolder("input", "n", [i \in 1..n |-> Do("enumeration", N(ToString(i % 7)))]),
                              FormIn("prop", "n", [i \in 1..n |-> Do("scope", S(Nth(i)))]), Prop("n", [i \in 1..n |-> Do("attype", S(Nth(i)))]), SecKeyed("o", Do("oauth2", S("code")), [i \in 1..n |-> Do("scope", S(Nth(i)))]),
                              InHolder("data", "n", Bool \o [i \in 1..n |-> Do("attype", S(Nth(i)))]), SecKeyed("s", Dn("auto"), [i \in 1..n |-> Do("attype", S(Nth(i)))])} : n \in Lens}
                 \cup UNION {{InHolder(h, "n", b) : h \in {"output", "definition"}, b \in LongSchema(<<Dn("null")>>, n)} : n \in FewLens}
(* deeper than any description in practice; above 60 levels reading is refused by the JSON reader itself *)
DeepMore(nil_) == DeepOf({20, 31}, {BadRange, OkRange, Bool \o Ml("titles", <<"en_US">>), <<Dn("string"), Do("max_length", N("3"))>>}, {"prop", "output", "definition"})
            \cup {UriVar("u", Deep(<<w>>, n, k)) : w \in {"oneof1", "oneof2"}, n \in {20, 31}, k \in {BadRange, OkRange, Bool \o Ml("titles", <<"en_US">>)}}

Alphabet4(name) ==
  CASE name = "longsec" -> LongSec(0) [] name = "longops" -> LongOps(0) [] name = "longschemas" -> LongSchemas(0) [] name = "longdup" -> LongDup(0) [] name = "longlimits" -> LongLimits(0)
    [] name = "longuri" -> LongUri(0) [] name = "longtags" -> LongTagMaps(0) [] name = "longlinks" -> LongLinks(0) [] name = "longall" -> LongAll(0) [] name = "deepmore" -> DeepMore(0)
    [] OTHER -> Alphabet3(name)
=============================================================================
