-------------------------------- MODULE Hist --------------------------------
(* Histories of builder calls as values: running them, cutting and swapping their blocks. *)
EXTENDS Args

Top_(st) == st[Len(st)]
Step1(st, c) ==
  IF st = <<>> THEN <<>>
  ELSE LET fr == Top_(st)  pop == SubSeq(st, 1, Len(st) - 1)
       IN CASE c[1] = "." -> IF c[2] \in DOMAIN LeafAt(fr) THEN Append(pop, Leaf(fr, c)) ELSE <<>>
            [] c[1] = "(" -> IF c[2] \in DOMAIN OpenAt(fr) THEN Append(Append(pop, AtOpen(fr, c)), NewFrame(AtOpen(fr, c), c)) ELSE <<>>
            [] c[1] = ")" -> IF Len(st) > 1 /\ CanClose(fr) THEN Append(SubSeq(pop, 1, Len(pop) - 1), Attach(pop[Len(pop)], fr)) ELSE <<>>
Start(h) == <<[k |-> "thing", o |-> h[1], p |-> "E", m |-> SetM(EmptyMem, "title", h[1][4]), n |-> 0]>>
Run(h) == FoldLeft(Step1, Start(h), Tail(h))
Legal(h) == LET st == Run(h) IN Len(st) = 1 /\ ExtDone(st[1].m, "%ext")
RunOut(h) == Outcome(El("thing", Run(h)[1].m))

(* the block of events that starts at i *)
RECURSIVE EndOf(_, _, _)
EndOf(h, i, d) == LET e == d + (IF h[i][1] = "(" THEN 1 ELSE IF h[i][1] = ")" THEN -1 ELSE 0)
                  IN IF e = 0 THEN i ELSE EndOf(h, i + 1, e)
RECURSIVE BeginOf(_, _, _)
BeginOf(h, i, d) == LET e == d + (IF h[i][1] = ")" THEN 1 ELSE IF h[i][1] = "(" THEN -1 ELSE 0)
                    IN IF e = 0 THEN i ELSE BeginOf(h, i - 1, e)
Starts(h) == {i \in 2..Len(h) : h[i][1] # ")"}
SwapStarts(h) == {i \in Starts(h) : i > 2 /\ h[i-1][1] # "("}
Swap(h, j) == LET i == BeginOf(h, j - 1, 0)  e == EndOf(h, j, 0)
              IN SubSeq(h, 1, i - 1) \o SubSeq(h, j, e) \o SubSeq(h, i, j - 1) \o SubSeq(h, e + 1, Len(h))
Drop(h, i) == SubSeq(h, 1, i - 1) \o SubSeq(h, EndOf(h, i, 0) + 1, Len(h))

SameOutcome(o1, o2) == o1[1] = o2[1] /\ (o1[1] = "ok" => o1[2] = o2[2])

(* What a block of calls at position j concerns: members of the element, with the key where a member is a map; "*" if the
   calls that are possible afterwards depend on it.  fr is the innermost builder before the block. *)
BlockKey(b) == LET ks == SelectSeq(b, LAMBDA c : c[2] \in {"with_key", "name"} /\ c[1] = ".")
                   named == SelectSeq(b, LAMBDA c : c[2] = "with_key" \/ c[2] \in {"no_sec", "auto", "combo", "basic", "digest",
                                                     "bearer", "psk", "oauth2", "apikey", "custom"})
               IN IF Len(ks) = 0 THEN Img([i \in DOMAIN named |-> named[i][2] \o named[i][4][2]]) ELSE Img([i \in DOMAIN ks |-> ks[i][4][2]])
Touches(fr, b) ==
  LET c == b[1]
  IN IF c[1] = "."
     THEN LET d == LeafAt(fr)[c[2]]
          IN CASE d.e = "put" -> {"*/" \o c[3]}
               [] d.e = "lim" -> {IF d.w \in {"minimum", "exclusiveMinimum"} THEN "min" ELSE "max"}
               [] d.e \in {"set", "flag", "version", "context", "resp", "app"} -> {d.w}
               [] d.e = "link" -> {"links"}
               [] d.e \in {"comboext", "combopush"} -> {"%names"}
               [] OTHER -> {"*"}
     ELSE LET d == OpenAt(fr)[c[2]]
          IN CASE d.e = "put" -> {d.w \o "/" \o c[3]}
               [] d.e = "member" -> {d.w \o "/" \o c[3]} \cup (IF c[4] = True THEN {"required"} ELSE {})
               [] d.e = "sec" -> {d.w \o "/" \o x : x \in BlockKey(b)}
                                 \cup (IF \E i \in DOMAIN b : b[i][2] = "required" THEN {"security"} ELSE {})
               [] c[2] = "one_of" -> {"*"}
               [] OTHER -> {d.w}

RunFrom(st, b) == FoldLeft(Step1, st, b)
SetToSeq_(s) == SetToSeq(s)
TagsOf(th) == (IF Finite(th) THEN <<>> ELSE <<"inf">>) \o (IF CustomOk(th) THEN <<>> ELSE <<"custom">>)
Alt(h, rel) == LET th == El("thing", Run(h)[1].m)  o == Outcome(th)
               IN [prog |-> h, rel |-> rel, out |-> IF o[1] = "ok" THEN o ELSE <<"err">>,
                   causes |-> IF o[1] = "ok" THEN {} ELSE Causes(th), tags |-> TagsOf(th)]
=============================================================================
