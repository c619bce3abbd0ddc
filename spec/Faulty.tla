------------------------------- MODULE Faulty -------------------------------
(* One broken rule in an element that says up to two other things, or all but one, or everything; before and after them. *)
EXTENDS Long, IOUtils

Wide == "WIDE" \in DOMAIN IOEnv
FewMost(s) == FewOrMost(s, IF Wide THEN 4 ELSE 3, IF Wide THEN 2 ELSE 1)

Round(s, bad) == UNION {{x \o bad, bad \o x} : x \in FewMost(s)}
Late1(s, bad) == {x \o bad : x \in FewOrMost(s, IF Wide THEN 3 ELSE 2, 1)}
(* in the element, and in an element of the same kind that comes second *)
ActMore == <<FormX(<<Do("scope", S("x"))>>)>> \o ActAll
EvMore == <<FormX(<<Do("scope", S("x"))>>)>> \o EvAll
PropMore == <<FormX(<<Do("scope", S("x"))>>)>> \o PropAll
ThingMore == ThingAll \o ThingExtra
InAffs(bad) == {Prop("n", x) : x \in Round(PropMore, bad)} \cup {Act("n", x) : x \in Round(ActMore, bad)} \cup {Ev("n", x) : x \in Round(EvMore, bad)}
InThing(bad) == Late1(ThingMore, bad)
InForms(bad) == UNION {{FormRaw(pl, "n", x) : x \in Round(FormAll(pl), bad)} : pl \in FormPlaces}
OneForm(pl, bad) == IF pl = "thing" THEN FormB(ThingOp \o bad) ELSE FormB(bad)
(* the fault of a form: in the form, in the affordance, in the thing *)
FormFault(bad) == {CtxOne \o x : x \in InForms(bad) \cup InAffs(FormB(bad)) \cup InThing(FormB(ThingOp \o bad)) \cup InThing(Prop("n", FormB(bad))) \cup InThing(Act("n", FormB(bad))) \cup InThing(Ev("n", FormB(bad)))}
FaultSec(nil_) == FormFault(Calls("security", <<"zz">>)) \cup {x \o CtxOne : x \in InThing(SecKeyed("c", Dn("combo"), <<Do("one_of", A(<<S("s1"), S("zz")>>))>>))}
             \cup {CtxOne \o SecKeyed("nosec", Dn("no_sec"), <<>>) \o SecKeyed("basic", Dn("basic"), <<>>) \o Blk("security", "", <<Dn("combo"), Do(k, A(<<S("s1"), S("zz")>>))>> \o x) :
                      k \in {"one_of", "all_of"}, x \in FewMost(ComboAll)}
             \cup {CtxOne \o SecKeyed("nosec", Dn("no_sec"), <<>>) \o SecKeyed("basic", Dn("basic"), <<>>) \o Blk("security", "", <<Dn("combo"), Do(k, A(<<S("s1")>>))>> \o x \o <<Do("push", S("zz"))>>) :
                      k \in {"one_of", "all_of"}, x \in FewMost(ComboAll)}
FaultOps(nil_) == FormFault(Calls("op", <<"queryaction", "readallproperties">>)) \cup FormFault(Calls("op", <<"subscribeevent", "readproperty">>)) \cup {CtxOne \o x : x \in UNION {{FormB(y) : y \in FewMost(Tail(FormAll("thing")))}, InThing(FormB(<<>>))}}
FaultSchemas(nil_) == FormFault(Aresp(<<Do("schema", S("z"))>>)) \cup FormFault(Aresp(<<Dn("success"), Do("content_type", S("x")), Do("schema", S("z"))>>))
Named(k, n, x) == CASE k = 1 -> Prop(n, x) [] k = 2 -> Act(n, x) [] k = 3 -> Ev(n, x)
MoreOf(k) == CASE k = 1 -> PropMore [] k = 2 -> ActMore [] k = 3 -> EvMore
FaultDup(nil_) == UNION {{Named(k, "n", x) \o Named(k, "n", <<>>) : x \in FewMost(MoreOf(k))} \cup {Named(k, "n", <<>>) \o Named(k, "n", x) : x \in FewMost(MoreOf(k))}
                         \cup {Named(k, "n", <<>>) \o x \o Named(k, "n", <<>>) : x \in FewOrMost(ThingMore, IF Wide THEN 3 ELSE 2, 1)} : k \in 1..3}
             \cup UNION {{SecKeyed("k", Dn("auto"), <<>>) \o Sec(Selector(sc), <<Do("with_key", S("k"))>> \o x) : x \in FewMost(SecAll(sc))} : sc \in Schemes}
             \cup {SecKeyed("k", Dn("auto"), <<>>) \o x \o SecKeyed("k", Dn("digest"), <<>>) : x \in FewOrMost(ThingMore, IF Wide THEN 3 ELSE 2, 1)}
SlotFault(bad) == UNION {{Act("n", x) : x \in Round(ActMore, Blk(s, "", Kind(bad)))} : s \in {"input", "output"}}
                  \cup UNION {{Ev("n", x) : x \in Round(EvMore, Blk(s, "", Kind(bad)))} : s \in {"subscription", "data", "data_response", "cancellation"}}
                  \cup {PropK("n", bad, x) : x \in FewMost(PropMore)}
Places3 == {"prop", "input", "definition"}
(* the schema itself says other things, or the one that holds it does *)
SchemaFault(kind, bad) == UNION {{InHolder(h, "n", <<Dn(kind)>> \o x) : x \in Round(DataAll, bad)} : h \in Places3}
HoldFault(ks) == UNION {{InHolder(h, "n", <<Dn("vec")>> \o x) : x \in Round(DataAll, Blk("set_item", "", Kind(ks)))} \cup {InHolder(h, "n", <<Dn("tuple")>> \o x) : x \in Round(DataAll, Blk("append", "", Kind(ks)))}
                        \cup {InHolder(h, "n", <<Dn("object")>> \o x) : x \in Round(DataAll, BlkV("property", "m", False, Kind(ks)))} \cup {InHolder(h, "n", Blk("one_of", "", Kind(ks)) \o x) : x \in FewMost(DataAll)} : h \in Places3}
FaultLimits(nil_) == InAffs(UriVar("w", BadRange)) \cup InThing(UriVar("w", BadNan)) \cup InThing(SchemaDef("e", BadRange)) \cup InThing(PropK("n", BadRange, <<>>)) \cup InThing(Act("n", Blk("input", "", Kind(BadRange))))
                     \cup InThing(Ev("n", Blk("data", "", Kind(BadStep)))) \cup SlotFault(BadRange)
FaultLimits2(nil_) == SchemaFault("integer", Tail(BadRange)) \cup SchemaFault("number", Tail(BadStep)) \cup SchemaFault("vec", <<Do("min_items", N("2")), Do("max_items", N("1"))>>) \cup HoldFault(BadRange)
Objs == {<<Dn("object")>>, <<Dn("vec")>>, <<Dn("tuple")>>}
FaultUri(nil_) == UNION {InAffs(UriVar("w", o)) \cup InThing(UriVar("w", o)) : o \in {<<Dn("object")>>, <<Dn("tuple")>>}} \cup UNION {{Act("n", UriVar("w", o \o x)), Prop("n", UriVar("w", o \o x)), Ev("n", UriVar("w", o \o x)), UriVar("w", o \o x)} :
                    o \in Objs, x \in FewMost(DataAll)}
BadMl(m) == Ml(m, <<"en", "e_n">>)
FaultTags(nil_) == UNION {InAffs(BadMl(m)) \cup InThing(BadMl(m)) \cup UNION {{Sec(Selector(sc), x) : x \in Round(SecAll(sc), BadMl("descriptions"))} : sc \in Schemes} : m \in {"titles", "descriptions"}}
                   \cup {LinkW(x) : x \in Round(Tail(LinkAll), <<Do("hreflang", S("e_n"))>>)} \cup InThing(LinkW(<<Do("hreflang", S("e_n"))>>))
FaultTags2(nil_) == UNION {SchemaFault("bool", BadMl(m)) \cup SchemaFault("object", BadMl(m)) : m \in {"titles", "descriptions"}} \cup HoldFault(Bool \o BadMl("titles")) \cup SlotFault(Bool \o BadMl("descriptions")) \cup InAffs(UriVar("w", Bool \o BadMl("titles")))
FaultLinks(nil_) == {LinkW(x) : x \in UNION {Round(SelectSeq(Tail(LinkAll), LAMBDA c : c[1][2] \notin {"rel", "sizes"}), b) : b \in {<<Do("sizes", S("1x1"))>>, <<Do("rel", S("item")), Do("sizes", S("1x1"))>>, <<Do("rel", S("icon")), Do("sizes", S("1x1"))>>}}}
                    \cup InThing(LinkW(<<Do("sizes", S("1x1"))>>)) \cup InThing(LinkW(<<Do("rel", S("item")), Do("sizes", S("1x1")), Do("ty", S("a/b"))>>))

Alphabet5(name) ==
  CASE name = "faultsec" -> FaultSec(0) [] name = "faultops" -> FaultOps(0) [] name = "faultschemas" -> FaultSchemas(0) [] name = "faultdup" -> FaultDup(0) [] name = "faultlimits" -> FaultLimits(0) [] name = "faultlimits2" -> FaultLimits2(0)
    [] name = "faulturi" -> FaultUri(0) [] name = "faulttags" -> FaultTags(0) [] name = "faulttags2" -> FaultTags2(0) [] name = "faultlinks" -> FaultLinks(0)
    [] OTHER -> Alphabet4(name)
=============================================================================
