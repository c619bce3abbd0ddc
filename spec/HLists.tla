------------------------------ MODULE HLists ------------------------------
(* Heterogeneous lists: all programs of up to DEPTH operations on lists of up to MaxLen elements.  Every new element and every
   element written through an exclusive view is a fresh number, so that a value tells where it comes from. *)
EXTENDS Sequences, Integers, SequencesExt, Json, CSV, IOUtils, TLC

VARIABLES list,     \* the elements, the first one first
          prog,     \* operations: <<name, position, value>>
          seen,     \* what each operation gave, and the list after it
          fresh

vars == <<list, prog, seen, fresh>>
MaxLen == atoi(IOEnv.MAXLEN)
Depth == atoi(IOEnv.DEPTH)

Init == list = <<>> /\ prog = <<>> /\ seen = <<>> /\ fresh = 1
Do(op, i, v, gave, after) ==
  /\ Len(prog) < Depth
  /\ prog' = Append(prog, <<op, i, v>>) /\ list' = after /\ seen' = Append(seen, <<gave, after>>)

Push == Len(list) < MaxLen /\ Do("cons", 0, fresh, <<>>, <<fresh>> \o list) /\ fresh' = fresh + 1
SplitHead == list # <<>> /\ Do("split_head", 0, 0, <<list[1]>>, Tail(list)) /\ UNCHANGED fresh
SplitLast == list # <<>> /\ Do("split_last", 0, 0, <<list[Len(list)]>>, Front(list)) /\ UNCHANGED fresh
Rev == list # <<>> /\ Do("reverse", 0, 0, <<>>, Reverse(list)) /\ UNCHANGED fresh
ViewRev == list # <<>> /\ Do("ref_reverse", 0, 0, Reverse(list), list) /\ UNCHANGED fresh
ViewLast == list # <<>> /\ Do("ref_split_last", 0, 0, <<list[Len(list)]>> \o Front(list), list) /\ UNCHANGED fresh
Write == \E i \in DOMAIN list : Do("set", i, fresh, <<>>, [list EXCEPT ![i] = fresh]) /\ fresh' = fresh + 1
WriteRev == \E i \in DOMAIN list : Do("set_reversed", i, fresh, <<>>, [list EXCEPT ![Len(list) + 1 - i] = fresh]) /\ fresh' = fresh + 1
WriteLast == list # <<>> /\ Do("set_last", 0, fresh, <<>>, [list EXCEPT ![Len(list)] = fresh]) /\ fresh' = fresh + 1
Step == Push \/ SplitHead \/ SplitLast \/ Rev \/ ViewRev \/ ViewLast \/ Write \/ WriteRev \/ WriteLast
Complete == Len(prog) = Depth
Done == /\ Complete /\ prog[Depth][1] # "done"
        /\ CSVWrite("%1$s", <<ToJson([t |-> "hlist", prog |-> prog, seen |-> seen])>>, IOEnv.OUT)
        /\ prog' = [prog EXCEPT ![Depth] = <<"done", 0, 0>>] /\ UNCHANGED <<list, seen, fresh>>
Next == Step \/ Done

(* no element is lost or made up: the elements given so far that are still there are those not taken or overwritten *)
Distinct == \A i, j \in DOMAIN list : list[i] = list[j] => i = j
Known == \A i \in DOMAIN list : list[i] \in 1..(fresh - 1)
ReverseTwice == Reverse(Reverse(list)) = list
HeadRest == list # <<>> => <<Head(list)>> \o Tail(list) = list /\ Append(Front(list), Last(list)) = list
ReverseSwaps == list # <<>> => Head(Reverse(list)) = Last(list) /\ Reverse(Tail(list)) = Front(Reverse(list))
Invariant == Distinct /\ Known /\ ReverseTwice /\ HeadRest /\ ReverseSwaps
=============================================================================
