------------------------------ MODULE CheckGtid -----------------------------
(***************************************************************************)
(* Recorded GTID operations against Gtid.tla.                              *)
(*  window    : one set inside a small window, and every other one          *)
(*  grow      : sets derived from each other by additions, all compared     *)
(*  id, set   : an id or a set, through every encoding                      *)
(*  growMaria, idMaria, setMaria, twiceMaria: MariaDB                       *)
(*  event, previous, eventMaria: events, from the wire                      *)
(***************************************************************************)
EXTENDS Gtid, Json, IOUtils

(* ---- windows ------------------------------------------------------------------ *)
(* The sets over servers us and numbers base+1..base+w are numbered by their bits:   *)
(* the server's index (from 0) times w, plus the number's.                           *)
Bit(m, k) == (m \div (2 ^ k)) % 2 = 1
Pairs(m, r) == { k \in 0..(Len(r.us) * r.w - 1) : Bit(m, k) }
(* the canonical form of pairs ps, k standing for a server and a number              *)
RECURSIVE RunsOf(_, _, _, _)
RunsOf(ps, u, n, w) ==      \* n: from here on
  LET left == { k \in n..(w - 1) : (u * w + k) \in ps }
  IN IF left = {} THEN <<>>
     ELSE LET a == CHOOSE k \in left : \A j \in left : k <= j
              ends == { k \in a..(w - 1) : (k + 1 = w \/ (u * w + k + 1) \notin ps) /\ k \in left }
              b == CHOOSE k \in ends : \A j \in ends : k <= j
          IN << <<a, b>> >> \o RunsOf(ps, u, b + 1, w)
Canon(ps, r, w) ==
  LET order == SortSeq([u \in 1..Len(r.us) |-> u], LAMBDA a, b : SidLess(r.us[a], r.us[b]))
      iv(u) == LET q == RunsOf(ps, u - 1, 0, w) IN [k \in 1..Len(q) |-> <<Num(r.base + 1 + q[k][1]), Num(r.base + 1 + q[k][2])>>]
  IN FoldLeft(LAMBDA a, u : IF iv(u) = <<>> THEN a ELSE Append(a, [sid |-> r.us[u], iv |-> iv(u)]), <<>>, order)

WindowMeant(r) == \A k \in 1..Len(r.us) : Len(r.us[k]) = 16 /\ \A j \in 1..(k - 1) : r.us[j] # r.us[k]
WindowOK(r) ==
  LET ps == Pairs(r.m, r)
      S == Canon(ps, r, r.w)
      text == Text56(S)
  IN /\ r.ok
     /\ \A k \in 1..Len(r.text) : r.text[k] = text               \* one for every way to make the set
     /\ \A k \in 1..Len(r.same) : r.same[k]                      \* they are equal, and contain each other
     /\ r.sids = [k \in 1..Len(S) |-> S[k].sid]
     /\ \A k \in 1..Len(r.others) :                              \* the other sets
          LET qs == Pairs(r.others[k], r)
          IN /\ r.contains[k] = (qs \subseteq ps)
             /\ r.equal[k] = (qs = ps)
     \* every id of the window, in the order of the bits, one number below and one above
     /\ \A u \in 1..Len(r.us) : \A n \in 1..(r.w + 2) :
          LET in == n \in 2..(r.w + 1) /\ ((u - 1) * r.w + n - 2) \in ps
          IN IF r.base = 0 /\ n = 1 THEN TRUE ELSE
             /\ r.has[u][n] = in
             /\ r.add[u][n] = Text56(Add56(S, r.us[u], Num(r.base + n - 1)))
             /\ r.grown[u][n]                                    \* contains the set and the id; equal iff the id was there
     /\ r.foreign = FALSE
     /\ r.after = text

(* ---- growth --------------------------------------------------------------------- *)
SetOf(s) == [k \in 1..Len(s) |-> [sid |-> s[k].sid, iv |-> s[k].iv]]
Grown(r) ==                   \* the model of every set of the record
  FoldLeft(LAMBDA a, s : Append(a, IF s.from = 0 THEN SetOf(s.init) ELSE Add56(a[s.from], s.sid, s.n)), <<>>, r.sets)
GrowMeant(r) ==
  /\ \A k \in 1..Len(r.sets) : LET s == r.sets[k] IN s.from < k /\ (s.from = 0 => Canonical56(SetOf(s.init)))
  /\ \A k \in 1..Len(r.sets) : Canonical56(Grown(r)[k])
GrowOK(r) ==
  LET G == Grown(r)
  IN /\ r.ok
     /\ \A k \in 1..Len(G) :
          /\ r.sets[k].text = Text56(G[k])
          /\ r.sets[k].final = r.sets[k].text                   \* and it stays that
          /\ r.sets[k].block = Block56(G[k])
          /\ \A j \in 1..Len(G) :
               /\ r.contains[k][j] = Super56(G[k], G[j])
               /\ r.equal[k][j] = (G[k] = G[j])
          /\ \A p \in 1..Len(r.probes) : r.has[k][p] = Has56(G[k], r.probes[p].sid, r.probes[p].n)

(* ---- encodings -------------------------------------------------------------------- *)
IdOK(r) ==
  /\ r.ok
  /\ r.text = IdText56(r.sid, r.n)
  /\ \A k \in 1..Len(r.back) : r.back[k].same /\ r.back[k].sid = r.sid /\ r.back[k].n = r.n
  /\ r.server = r.sid /\ r.seq = r.n
  /\ r.set = Text56(<<[sid |-> r.sid, iv |-> << <<r.n, r.n>> >>]>>)
SetMeant(r) == Canonical56(SetOf(r.init))
SetOK(r) ==
  LET S == SetOf(r.init)
  IN /\ r.ok
     /\ r.text = Text56(S)
     /\ r.block = Block56(S)
     /\ \A k \in 1..Len(r.back) : r.back[k].same /\ r.back[k].text = r.text /\ r.back[k].block = r.block

(* ---- MariaDB ------------------------------------------------------------------------ *)
GrowMariaMeant(r) ==
  \A k \in 1..Len(r.sets) : LET s == r.sets[k] IN s.from < k /\ (s.from = 0 => OnePerDomain(s.init))
GrowMariaOK(r) ==
  /\ r.ok
  /\ \A k \in 1..Len(r.sets) :
       LET s == r.sets[k]
       IN /\ IF s.from = 0 THEN SameMaria(s.out, s.init) ELSE IsAddMaria(r.sets[s.from].out, s.add, s.out)
          /\ s.final = s.out /\ s.finalText = TextMaria(s.out)
          /\ \A j \in 1..Len(r.sets) :
               LET o == r.sets[j].out
               IN /\ r.contains[k][j] = SuperMaria(s.out, o)
                  \* the order of domains is no part of a set's value, nor is it promised to be none
                  /\ IF s.out = o THEN r.equal[k][j] ELSE r.equal[k][j] => SameMaria(s.out, o)
          /\ \A p \in 1..Len(r.probes) : r.has[k][p] = HasMaria(s.out, r.probes[p])
IdMariaOK(r) ==
  /\ r.ok
  /\ r.text = IdTextMaria(r.id)
  /\ \A k \in 1..Len(r.back) : r.back[k].same /\ r.back[k].id = r.id
  /\ r.domain = r.id.d /\ r.server = r.id.s /\ r.seq = r.id.n
  /\ r.set = <<r.id>>
SetMariaOK(r) ==
  /\ r.ok
  /\ r.text = TextMaria(r.init)
  /\ \A k \in 1..Len(r.back) : r.back[k].same /\ r.back[k].set = r.init
(* two positions for a domain: no such set                                                *)
TwiceOK(r) == r.ok /\ (r.rejected \/ OnePerDomain(r.out))

(* ---- events ---------------------------------------------------------------------------- *)
EventOK(r) ==
  LET f == FormatOf(r.fd)
      e == Strip(r.e, f)
  IN /\ r.ok /\ r.intact /\ r.is
     /\ CASE r.kind = "event" -> LET g == GtidOf(e, f) IN r.sid = g.sid /\ r.n = g.gno /\ r.text = IdText56(g.sid, g.gno) /\ ~r.begin
          [] r.kind = "previous" -> LET S == Unblock56(Body(e, f)) IN r.text = Text56(S) /\ r.block = Block56(S) /\ r.has
          [] OTHER -> LET g == MariaGtidOf(e, f)
                      IN r.id = [d |-> g.dom, s |-> g.srv, n |-> g.seq] /\ r.begin = g.begin
EventMeant(r) ==
  /\ IsValid(r.fd) /\ FormatOf(r.fd).ok /\ IsValid(r.e)
  /\ LET f == FormatOf(r.fd)
         e == Strip(r.e, f)
     IN CASE r.kind = "event" -> EvType(e) = EGtid /\ Len(Body(e, f)) >= 25
          [] r.kind = "previous" -> EvType(e) = EPrevGtids /\ Canonical56(Unblock56(Body(e, f))) /\ Block56(Unblock56(Body(e, f))) = Body(e, f)
          [] OTHER -> EvType(e) = EMariaGtid /\ Len(Body(e, f)) >= 13

Meant(r) ==
  CASE r.kind = "window" -> WindowMeant(r)
    [] r.kind = "grow" -> GrowMeant(r)
    [] r.kind = "growMaria" -> GrowMariaMeant(r)
    [] r.kind = "set" -> SetMeant(r)
    [] r.kind = "setMaria" -> OnePerDomain(r.init)
    [] r.kind = "twiceMaria" -> ~OnePerDomain(r.init)
    [] r.kind \in {"event", "previous", "eventMaria"} -> EventMeant(r)
    [] OTHER -> TRUE
OK(r) ==
  CASE r.kind = "window" -> WindowOK(r)
    [] r.kind = "grow" -> GrowOK(r)
    [] r.kind = "growMaria" -> GrowMariaOK(r)
    [] r.kind = "id" -> IdOK(r)
    [] r.kind = "idMaria" -> IdMariaOK(r)
    [] r.kind = "set" -> SetOK(r)
    [] r.kind = "setMaria" -> SetMariaOK(r)
    [] r.kind = "twiceMaria" -> TwiceOK(r)
    [] OTHER -> EventOK(r)
Verdict(r) == IF ~Meant(r) THEN "spec" ELSE IF OK(r) THEN "ok" ELSE "reject"

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE recno
INSTANCE RecordLoop
=============================================================================
