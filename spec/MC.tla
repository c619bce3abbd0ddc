--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration: all sequences of up to DEPTH blocks of the alphabet ALPHABET, first those of CONTEXT. *)
EXTENDS Faulty, Json, CSV, IOUtils

VARIABLE added     \* the number of blocks added
mvars == <<stack, hist, result, added>>

FamSeq == CASE IOEnv.FAM = "" -> <<>> [] IOEnv.FAM = "a,b" -> <<"a", "b">> [] OTHER -> <<IOEnv.FAM>>
NoMenu(st) == {}
TheAlphabet == Alphabet5(IOEnv.ALPHABET)
Bound == atoi(IOEnv.DEPTH)

Start0 == <<[k |-> "thing", o |-> <<"(", "thing", "", S("T")>>, p |-> "E", m |-> SetM(EmptyMem, "title", S("T")), n |-> 0]>>
Context == IF IOEnv.CONTEXT = "bare" THEN <<>> ELSE Prefix \o (IF IOEnv.CONTEXT = "defs" THEN CHOOSE c \in Ctx : TRUE ELSE <<>>)
MCInit == /\ stack = RunFrom(Start0, Context)
          /\ hist = <<<<"(", "thing", "", S("T")>>>> \o Context
          /\ result = <<"open">> /\ added = 0
Add(b) == /\ Open /\ added < Bound
          /\ LET st == RunFrom(stack, b) IN st # <<>> /\ stack' = st
          /\ hist' = hist \o b /\ added' = added + 1 /\ UNCHANGED result

Rec == [t |-> "build", fam |-> IOEnv.FAM, prog |-> hist, out |-> IF result'[1] = "ok" THEN result' ELSE <<"err">>,
        causes |-> IF result'[1] = "ok" THEN {} ELSE Causes(TheThing), tags |-> TagsOf(TheThing), alt |-> <<>>]
Emit == CSVWrite("%1$s", <<ToJson(Rec)>>, IOEnv.OUT)
MCNext == (\E b \in TheAlphabet : Add(b)) \/ (Build /\ Emit /\ UNCHANGED added)
=============================================================================
