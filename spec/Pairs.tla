------------------------------- MODULE Pairs -------------------------------
(* Any two elements that say one thing each, in one description: in the same affordance, list or schema, or in different places. *)
EXTENDS More

Nm(c, i) == c \o ToString(i)
Ones(s, f(_, _)) == {f(i, s[i]) : i \in DOMAIN s}

ThingOnes == Ones(ThingAll, LAMBDA i, x : x) \cup {<<Do("version", S("1"))>>, FormB(ThingOp)}
FormOnes == UNION {LET f(i, x) == FormIn(pl, Nm("f" \o pl, i), x) IN Ones(FormAll(pl), f) : pl \in FormPlaces}
AffOnes == Ones(PropAll, LAMBDA i, x : Prop(Nm("p", i), x)) \cup Ones(ActAll, LAMBDA i, x : Act(Nm("a", i), x)) \cup Ones(EvAll, LAMBDA i, x : Ev(Nm("e", i), x))
           \cup {Prop("p0", <<>>), Act("a0", <<>>), Ev("e0", <<>>)}
SchemaBody == Ones(DataAll, LAMBDA i, x : Bool \o x) \cup UNION {LET f(i, x) == <<Dn(k)>> \o x IN Ones(OwnAll(k), f) : k \in PlainKinds}
              \cup {<<Dn(k)>> : k \in PlainKinds} \cup {<<Dn("null"), Dn("read_only")>>, <<Dn("null"), Dn("write_only")>>} \cup Heads
SchemaSeq == SetToSeq(SchemaBody)
SchemaHolders == {"prop", "output", "definition"}
SchemaOnes == UNION {{InHolder(h, Nm("s" \o h, i), SchemaSeq[i]) : i \in DOMAIN SchemaSeq} : h \in SchemaHolders}
SecOnes == UNION {LET f(i, x) == SecKeyed(Nm(sc, i), Selector(sc), x) IN Ones(SecAll(sc), f) : sc \in Schemes}
           \cup Ones(ComboAll, LAMBDA i, x : SecKeyed("nosec", Dn("no_sec"), <<>>) \o SecKeyed("basic", Dn("basic"), <<>>) \o SecKeyed(Nm("c", i), Dn("combo"), <<Do("one_of", A(<<S("basic")>>))>> \o x))
LinkOnes == Ones(Tail(LinkAll), LAMBDA i, x : LinkW(x)) \cup {<<Do("link", S("/l"))>>, LinkW(<<Do("rel", S("icon")), Do("sizes", S("1x1"))>>)}
AllOnes(nil_) == ThingOnes \cup FormOnes \cup AffOnes \cup SecOnes \cup LinkOnes
FewSchemas == {InHolder(h, Nm("z" \o h, i), SchemaSeq[i]) : h \in {"input", "definition"}, i \in 1..Len(SchemaSeq)}
Beside(xs, ys) == UNION {{CtxOne \o x \o y, CtxOne \o y \o x} : <<x, y>> \in {p \in xs \X ys : p[1] # p[2]}}

(* two forms in one affordance, or of the thing *)
InOne(pl, body) == CASE pl = "thing" -> body [] pl = "prop" -> Prop("n", body) [] pl = "action" -> Act("n", body) [] pl = "event" -> Ev("n", body)
FormBodies(pl) == Ones(FormAll(pl), LAMBDA i, x : FormB(NeedOp(pl) \o x)) \cup {FormB(NeedOp(pl))}
TwoForms(nil_) == UNION {UNION {{CtxOne \o InOne(pl, x \o y) : y \in FormBodies(pl)} : x \in FormBodies(pl)} : pl \in FormPlaces}
(* two responses of a form, three of a form *)
TwoAffs(nil_) == UNION {{CtxOne \o Prop("n", x \o y) : y \in FormBodies("prop")} : x \in {<<Do("observable", True)>>, UriVar("u", Bool), <<Do("title", S("A"))>>, <<Do("unit", S("m"))>>}}
                 \cup UNION {{CtxOne \o Act("n", x \o y) : y \in FormBodies("action")} : x \in Range(ActAll)}
                 \cup UNION {{CtxOne \o Ev("n", x \o y) : y \in FormBodies("event")} : x \in Range(EvAll)}
(* two schemas in one affordance, or in one schema *)
TwoSlots(nil_) == UNION {UNION {{Act("n", Blk("input", "", Kind(x)) \o Blk("output", "", Kind(y))), PropK("n", x, UriVar("u", Bool) \o UriVar("v", y))} : y \in {z \in SchemaBody : z[1][2] \notin {"vec", "tuple", "object"}}} : x \in {z \in SchemaBody : z[1][2] # "string"}}
TwoEvents(nil_) == UNION {UNION {{Ev("n", Blk(s[1], "", Kind(x)) \o Blk(s[2], "", Kind(y))) : s \in {<<"subscription", "data">>, <<"data", "data_response">>, <<"data", "cancellation">>, <<"subscription", "cancellation">>}} : y \in {<<Dn(k)>> : k \in PlainKinds}} : x \in SchemaBody}
TwoInside(nil_) == UNION {UNION {{InHolder("input", "n", b) : b \in {<<Dn("tuple")>> \o Blk("append", "", Kind(x)) \o Blk("append", "", Kind(y)), Blk("one_of", "", Kind(x)) \o Blk("one_of", "", Kind(y)),
                                    <<Dn("object")>> \o BlkV("property", "m", True, Kind(x)) \o BlkV("property", "n", False, Kind(y))}} : y \in SchemaBody} : x \in SchemaBody}
(* a schema that says one thing holding one that says one thing *)
Outer == {<<hd, x>> : hd \in {"vec", "tuple", "object"}, x \in Range(DataAll) \cup {<<Dn("read_only")>>, <<Dn("write_only")>>, <<Do("min_items", N("1"))>>, <<Do("max_items", N("3"))>>, <<>>}}
Holding(hd, ks) == CASE hd = "vec" -> Blk("set_item", "", Kind(ks)) [] hd = "tuple" -> Blk("append", "", Kind(ks)) [] hd = "object" -> BlkV("property", "m", True, Kind(ks))
OneInOne(nil_) == UNION {{InHolder("output", "n", <<Dn(o[1])>> \o o[2] \o Holding(o[1], y)) : y \in SchemaBody} : o \in {o2 \in Outer : o2[2] = <<>> \/ o2[2][1][2] \notin {"min_items", "max_items"} \/ o2[1] # "object"}}
                  \cup UNION {{InHolder("data", "n", Blk("one_of", "", Kind(y)) \o x) : y \in SchemaBody} : x \in Range(DataAll)}

Alphabet3(name) ==
  CASE name = "besidethings" -> Beside(ThingOnes, AllOnes(0) \cup FewSchemas)
    [] name = "besideforms" -> Beside(FormOnes, FormOnes \cup AffOnes \cup FewSchemas)
    [] name = "besideforms2" -> Beside(FormOnes, SecOnes \cup LinkOnes)
    [] name = "besideaffs" -> Beside(AffOnes, AffOnes \cup SecOnes \cup LinkOnes)
    [] name = "besideschemas" -> Beside(SchemaOnes, ThingOnes \cup AffOnes)
    [] name = "besideschemas2" -> Beside(SchemaOnes, LinkOnes \cup SecOnes)
    [] name = "besidesecs" -> Beside(SecOnes, SecOnes)
    [] name = "besidelinks" -> Beside(LinkOnes, AllOnes(0) \cup FewSchemas)
    [] name = "twoforms" -> TwoForms(0) [] name = "twoaffs" -> TwoAffs(0) [] name = "twoslots" -> TwoSlots(0) [] name = "twoevents" -> TwoEvents(0) [] name = "twoinside" -> TwoInside(0) [] name = "oneinone" -> OneInOne(0)
    [] OTHER -> Alphabet2(name)
=============================================================================
