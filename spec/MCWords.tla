------------------------------- MODULE MCWords --------------------------------
(* Lists every grammatical binlog up to a length, for the replay.             *)
EXTENDS Words, TLC, Json
CONSTANT MaxLen
VARIABLE w
Init == w \in { v \in Words(MaxLen, FALSE, FALSE) : v # <<>> }
Next == UNCHANGED w
List == PrintT(<<"ENV", ToJson([log |-> w, atts |-> <<>>])>>)
=============================================================================
