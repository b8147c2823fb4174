----------------------------- MODULE Intervals ------------------------------
(***************************************************************************)
(* Sets of numbers as sorted, disjoint, unmergeable intervals.             *)
(* MCGtid.tla has TLC show, on integers, that these operators are the set  *)
(* operations.  CheckGtid.tla uses them on integers and on 8-byte numbers. *)
(***************************************************************************)
EXTENDS Sequences, Integers
CONSTANTS Leq(_, _), Succ(_)

Lo(iv) == iv[1]
Hi(iv) == iv[2]
Lt(a, b) == ~Leq(b, a)

InIv(s, n) == \E k \in 1..Len(s) : Leq(Lo(s[k]), n) /\ Leq(n, Hi(s[k]))
CoversIv(s, t) ==             \* t subset of s, for canonical s
  \A k \in 1..Len(t) : \E j \in 1..Len(s) : Leq(Lo(s[j]), Lo(t[k])) /\ Leq(Hi(t[k]), Hi(s[j]))
CanonicalIv(s) ==
  /\ \A k \in 1..Len(s) : Leq(Lo(s[k]), Hi(s[k]))
  /\ \A k \in 1..(Len(s) - 1) : Lt(Succ(Hi(s[k])), Lo(s[k + 1]))
AddIv(s, n) ==
  IF InIv(s, n) THEN s
  ELSE LET below == { k \in 1..Len(s) : Lt(Hi(s[k]), n) }
           m == IF below = {} THEN 0 ELSE CHOOSE k \in below : \A j \in below : j <= k
           left == m > 0 /\ Succ(Hi(s[m])) = n
           right == m < Len(s) /\ Lo(s[m + 1]) = Succ(n)
           lo == IF left THEN Lo(s[m]) ELSE n
           hi == IF right THEN Hi(s[m + 1]) ELSE n
       IN SubSeq(s, 1, IF left THEN m - 1 ELSE m) \o << <<lo, hi>> >> \o SubSeq(s, IF right THEN m + 2 ELSE m + 1, Len(s))
=============================================================================
