------------------------------- MODULE MCGtid -------------------------------
(***************************************************************************)
(* Two sets of transaction ids grow, one id at a time.  The intervals      *)
(* (Intervals.tla) stay canonical, denote the ids that were added, and     *)
(* decide membership, superset and equality as sets do.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Window, Bug
MCLeq(a, b) == a <= b
MCSucc(a) == a + 1
I == INSTANCE Intervals WITH Leq <- MCLeq, Succ <- MCSucc
W == 1..Window

VARIABLES s, t, ms, mt        \* intervals of two sets, and the sets
vars == <<s, t, ms, mt>>
Init == s = <<>> /\ t = <<>> /\ ms = {} /\ mt = {}

(* what an implementation might get wrong: a neighbour is merged on one side only *)
BadAdd(iv, n) ==
  LET k == { j \in 1..Len(iv) : iv[j][2] + 1 = n }
  IN IF k = {} \/ I!InIv(iv, n) THEN I!AddIv(iv, n)
     ELSE LET j == CHOOSE j \in k : TRUE IN [iv EXCEPT ![j] = <<iv[j][1], n>>]
Add(iv, n) == IF Bug = "half-merge" THEN BadAdd(iv, n) ELSE I!AddIv(iv, n)

Next == \E n \in W :
  \/ s' = Add(s, n) /\ ms' = ms \cup {n} /\ UNCHANGED <<t, mt>>
  \/ t' = Add(t, n) /\ mt' = mt \cup {n} /\ UNCHANGED <<s, ms>>

Denotes(iv, m) == m = { n \in 0..(Window + 1) : I!InIv(iv, n) }
Canonical == I!CanonicalIv(s) /\ I!CanonicalIv(t)
Union == Denotes(s, ms) /\ Denotes(t, mt)
Superset == I!CoversIv(s, t) <=> (mt \subseteq ms)
Equality == (s = t) <=> (ms = mt)
=============================================================================
