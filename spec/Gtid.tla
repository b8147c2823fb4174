-------------------------------- MODULE Gtid --------------------------------
(***************************************************************************)
(* Global transaction ids.                                                 *)
(*                                                                         *)
(* MySQL: an id is (server UUID of 16 bytes, number).  A set of ids is a   *)
(* sequence of [sid, iv], sorted by sid, iv the canonical intervals of the *)
(* server's numbers, not empty.  A number is 8 bytes, little-endian.       *)
(* MariaDB: an id is [d, s, n] (domain, server, number: 4, 4, 8 bytes); a  *)
(* set has one position for each of its domains, in any order.             *)
(***************************************************************************)
EXTENDS Events, FiniteSets

(* ---- numbers of 8 bytes --------------------------------------------------- *)
NumLeq(a, b) ==
  LET d == { i \in 1..8 : a[i] # b[i] }
  IN d = {} \/ LET m == CHOOSE i \in d : \A j \in d : j <= i IN a[m] < b[m]
NumSucc(a) ==
  FoldLeft(LAMBDA acc, b : [c |-> IF acc.c = 1 /\ b = 255 THEN 1 ELSE 0, r |-> Append(acc.r, (b + acc.c) % 256)],
           [c |-> 1, r |-> <<>>], a).r
NumPred(a) == NegLE(NumSucc(NegLE(a)))
Num(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
Ivs == INSTANCE Intervals WITH Leq <- NumLeq, Succ <- NumSucc

(* ---- MySQL ------------------------------------------------------------------ *)
SidLess(a, b) == \E i \in 1..16 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Canonical56(S) ==
  /\ \A k \in 1..Len(S) : S[k].iv # <<>> /\ Ivs!CanonicalIv(S[k].iv)
  /\ \A k \in 1..(Len(S) - 1) : SidLess(S[k].sid, S[k + 1].sid)
IvOf(S, sid) ==
  LET ks == { k \in 1..Len(S) : S[k].sid = sid } IN IF ks = {} THEN <<>> ELSE S[CHOOSE k \in ks : TRUE].iv
Has56(S, sid, n) == Ivs!InIv(IvOf(S, sid), n)
Super56(S, R) == \A k \in 1..Len(R) : Ivs!CoversIv(IvOf(S, R[k].sid), R[k].iv)
Add56(S, sid, n) ==
  LET iv == Ivs!AddIv(IvOf(S, sid), n)
      below == { k \in 1..Len(S) : SidLess(S[k].sid, sid) }
      m == Cardinality(below)
      there == \E k \in 1..Len(S) : S[k].sid = sid
  IN SubSeq(S, 1, m) \o <<[sid |-> sid, iv |-> iv]>> \o SubSeq(S, IF there THEN m + 2 ELSE m + 1, Len(S))

HexPair(b) == LET h(x) == IF x < 10 THEN 48 + x ELSE 87 + x IN <<h(b \div 16), h(b % 16)>>
HexAll(s) == FoldLeft(LAMBDA a, b : a \o HexPair(b), <<>>, s)
SidText(s) ==
  HexAll(SubSeq(s, 1, 4)) \o <<45>> \o HexAll(SubSeq(s, 5, 6)) \o <<45>> \o HexAll(SubSeq(s, 7, 8)) \o <<45>>
    \o HexAll(SubSeq(s, 9, 10)) \o <<45>> \o HexAll(SubSeq(s, 11, 16))
Joined(parts, sep) ==
  FoldLeft(LAMBDA a, p : IF a = <<>> THEN p ELSE a \o sep \o p, <<>>, parts)
IvText(iv) == IF iv[1] = iv[2] THEN UIntText(iv[1]) ELSE UIntText(iv[1]) \o <<45>> \o UIntText(iv[2])
Text56(S) == Joined([k \in 1..Len(S) |-> FoldLeft(LAMBDA a, iv : a \o <<58>> \o IvText(iv), SidText(S[k].sid), S[k].iv)], <<44>>)
IdText56(sid, n) == SidText(sid) \o <<58>> \o UIntText(n)

(* the binary form: half-open intervals                                         *)
Block56(S) ==
  FoldLeft(LAMBDA a, u :
             FoldLeft(LAMBDA b, iv : b \o iv[1] \o NumSucc(iv[2]), a \o u.sid \o Num(Len(u.iv)), u.iv),
           Num(Len(S)), S)
(* and back; the caller has made sure that d is a block                          *)
RECURSIVE UnblockIv(_, _, _)
UnblockIv(d, i, n) ==
  IF n = 0 THEN <<>> ELSE << <<Cut(d, i, 8), NumPred(Cut(d, i + 8, 8))>> >> \o UnblockIv(d, i + 16, n - 1)
RECURSIVE UnblockSids(_, _, _)
UnblockSids(d, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET c == LE32Small(d, i + 16) IN <<[sid |-> Cut(d, i, 16), iv |-> UnblockIv(d, i + 24, c)]>> \o UnblockSids(d, i + 24 + 16 * c, n - 1)
Unblock56(d) == UnblockSids(d, 9, LE32Small(d, 1))

(* ---- MariaDB ------------------------------------------------------------------ *)
DomainsOf(S) == { S[k].d : k \in 1..Len(S) }
OnePerDomain(S) == \A j, k \in 1..Len(S) : S[j].d = S[k].d => j = k
PositionOf(S, d) == S[CHOOSE k \in 1..Len(S) : S[k].d = d]
HasMaria(S, g) == g.d \in DomainsOf(S) /\ NumLeq(g.n, PositionOf(S, g.d).n)
SuperMaria(S, R) == \A k \in 1..Len(R) : HasMaria(S, R[k])
SameMaria(S, R) == Len(S) = Len(R) /\ { S[k] : k \in 1..Len(S) } = { R[k] : k \in 1..Len(R) }
(* R is S with g added: the later position of g's domain, the others untouched.   *)
IsAddMaria(S, g, R) ==
  /\ OnePerDomain(R)
  /\ DomainsOf(R) = DomainsOf(S) \cup {g.d}
  /\ \A d \in DomainsOf(R) :
       LET p == PositionOf(R, d)
       IN IF d # g.d THEN p = PositionOf(S, d)
          ELSE IF d \notin DomainsOf(S) THEN p = g
          ELSE LET q == PositionOf(S, d)
               IN IF g.n = q.n THEN p \in {g, q} ELSE p = IF NumLeq(g.n, q.n) THEN q ELSE g
IdTextMaria(g) == UIntText(g.d) \o <<45>> \o UIntText(g.s) \o <<45>> \o UIntText(g.n)
TextMaria(S) == Joined([k \in 1..Len(S) |-> IdTextMaria(S[k])], <<44>>)
=============================================================================
