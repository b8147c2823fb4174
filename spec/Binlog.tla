------------------------------- MODULE Binlog --------------------------------
(***************************************************************************)
(* What a row-based binlog means: the fold of its events into transactions. *)
(* R is a recorded run (packets R.pk, answers of the table mapper R.mt,     *)
(* time zone R.off); events are referred to by their number in R.pk, so     *)
(* that states stay small.  Positions carry the number t of their run.      *)
(***************************************************************************)
EXTENDS Events

Pad8(s) == s \o Zeros(8 - Len(s))

(* ---- statements ---------------------------------------------------------- *)
IsWS(b) == b \in {32, 9, 10, 11, 12, 13}
RECURSIVE SkipWS(_, _)
SkipWS(s, i) == IF i <= Len(s) /\ IsWS(s[i]) THEN SkipWS(s, i + 1) ELSE i
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i > Len(s) \/ IsWS(s[i]) THEN i ELSE WordEnd(s, i + 1)
(* the word at or after i (lower case, cut at 32 bytes: keywords are short)    *)
FirstWord(s) == LET e == WordEnd(s, 1) IN IF e > 32 THEN <<>> ELSE LowerAll(SubSeq(s, 1, e - 1))
Word(s, n) ==            \* the n-th word of the text
  LET RECURSIVE go(_, _)
      go(i, k) == LET b == SkipWS(s, i)
                      e == WordEnd(s, b)
                  IN IF b > Len(s) THEN <<>> ELSE IF k = 1 THEN LowerAll(SubSeq(s, b, e - 1)) ELSE go(e, k - 1)
  IN go(1, n)

Keywords == { <<T("begin"), "begin">>, <<T("commit"), "commit">>, <<T("rollback"), "rollback">>,
              <<T("insert"), "insert">>, <<T("update"), "update">>, <<T("delete"), "delete">>,
              <<T("create"), "create">>, <<T("alter"), "alter">>, <<T("drop"), "drop">>,
              <<T("truncate"), "truncate">>, <<T("rename"), "rename">>, <<T("set"), "set">> }
WTo == T("to")
WWork == T("work")
KindOf(sql) ==
  LET w == FirstWord(sql)
      m == { k \in Keywords : k[1] = w }
  IN IF m = {} THEN "unknown"
     ELSE LET k == (CHOOSE x \in m : TRUE)[2]
          IN IF k = "rollback" /\ LET w2 == Word(sql, 2) IN w2 = WTo \/ (w2 = WWork /\ Word(sql, 3) = WTo)
             THEN "unknown"                  \* ROLLBACK TO SAVEPOINT: the transaction goes on
             ELSE k
ChangeKinds == {"insert", "update", "delete", "create", "alter", "drop", "truncate", "rename", "set"}

(* ---- is a body decodable at all ---------------------------------------------- *)
QueryDecodable(d) ==
  /\ Len(d) >= 13
  /\ 13 + LE16(d, 12) + d[9] + 1 <= Len(d)
RotateDecodable(d) == Len(d) >= 8
LenEncFits(d, i) ==
  /\ i <= Len(d)
  /\ i + (CASE d[i] = 252 -> 2 [] d[i] = 253 -> 3 [] d[i] = 254 -> 8 [] OTHER -> 0) <= Len(d)
  /\ d[i] = 254 => (LenEnc(d, i).n >= 0 /\ d[i + 5] = 0 /\ d[i + 6] = 0 /\ d[i + 7] = 0 /\ d[i + 8] = 0)
TableMapDecodable(e, f) ==
  LET d == Body(e, f)
      p0 == IdWidth(f, ETableMap) + 1
      n == Len(d)
  IN /\ p0 + 2 <= n
     /\ LET p1 == p0 + 2 + 1 + d[p0 + 2] + 1
        IN /\ p1 <= n
           /\ LET p2 == p1 + 1 + d[p1] + 1
              IN /\ LenEncFits(d, p2)
                 /\ LET c == LenEnc(d, p2)
                        p3 == p2 + c.w
                    IN /\ p3 + c.n <= n
                       /\ LenEncFits(d, p3 + c.n)
                       /\ LET ml == LenEnc(d, p3 + c.n)
                              types == Cut(d, p3, c.n)
                              p4 == p3 + c.n + ml.w
                              tot == FoldLeft(LAMBDA a, t : IF a < 0 \/ MetaLen(t) < 0 THEN -1 ELSE a + MetaLen(t), 0, types)
                          IN tot = ml.n /\ p4 + ml.n + BitBytes(c.n) - 1 <= n
(* the documents of an image are documents                                              *)
DocumentsOK(d, im, tm) ==
  \A c \in DOMAIN im.cells :
    (tm.types[c] = TJSON /\ im.cells[c].k = "val" /\ im.cells[c].l > tm.meta[c])
      => LET x == Cut(d, im.cells[c].s + tm.meta[c], im.cells[c].l - tm.meta[c]) IN DocOK(x, x[1], 2)
RowsDecodable(e, f, tm) ==
  LET d == Body(e, f)
      typ == EvType(e)
      n == Len(d)
      p0 == IdWidth(f, typ) + 1
      maps == IF typ \in UpdateTypes THEN 2 ELSE 1
  IN /\ p0 + (IF typ \in V2Types THEN 3 ELSE 1) <= n
     /\ LET p1 == p0 + 2 + (IF typ \in V2Types THEN LE16(d, p0 + 2) ELSE 0)
        IN /\ LenEncFits(d, p1)
           /\ LET c == LenEnc(d, p1)
              IN /\ c.n = Len(tm.types)
                 /\ p1 + c.w + maps * BitBytes(c.n) - 1 <= n
                 /\ LET rs == RowsOf(e, f, tm)
                    IN /\ rs.ok
                       /\ (\E i \in DOMAIN tm.types : tm.types[i] = TJSON) =>
                            \A i \in DOMAIN rs.rows :
                              /\ ~rs.hasId \/ DocumentsOK(d, rs.rows[i].id, tm)
                              /\ ~rs.hasData \/ DocumentsOK(d, rs.rows[i].data, tm)

(* ---- the fold -------------------------------------------------------------------- *)
FreshP(pos) == [pos |-> pos, out |-> <<>>, ask |-> <<>>, err |-> FALSE,
                fmt |-> 0, tables |-> [x \in {} |-> 0], buf |-> <<>>, auto |-> TRUE]
Fail(s) == [s EXCEPT !.err = TRUE, !.out = <<>>, !.ask = <<>>]

FormatAt(R, k) == FormatOf(R.pk[k])

(* every change up to here is committed by event k                                     *)
Commit(R, s, k) ==
  [s EXCEPT !.out = <<[now |-> s.pos, next |-> [s.pos EXCEPT !.o = Pad8(EvNext(R.pk[k]))], k |-> k, ch |-> s.buf]>>]
(* a change: event k in format fmt; rows with their table map (in its own format) and the *)
(* mapper's answer                                                                        *)
NoTable == [tm |-> 0, f |-> 0, mt |-> 0]
Change(R, s, k, t) ==
  LET s1 == [s EXCEPT !.buf = Append(@, [k |-> k, f |-> s.fmt, tm |-> t.tm, tf |-> t.f, mt |-> t.mt])]
  IN IF s.auto THEN Commit(R, s1, k) ELSE s1

FeedQuery(R, s, k, e, f) ==
  LET d == Body(e, f)
      kind == KindOf(QueryOf(e, f).sql)
  IN IF ~QueryDecodable(d) THEN Fail(s)
     ELSE CASE kind = "begin" -> [s EXCEPT !.buf = <<>>, !.auto = FALSE]
            [] kind \in ChangeKinds -> Change(R, s, k, NoTable)
            [] kind = "rollback" -> Commit(R, [s EXCEPT !.buf = <<>>], k)
            [] kind = "commit" -> Commit(R, s, k)
            [] OTHER -> s

FeedRotate(R, s, k, e, f) ==
  IF ~RotateDecodable(Body(e, f)) THEN Fail(s)
  ELSE LET r == RotateOf(e, f) IN [s EXCEPT !.pos.f = r.file, !.pos.o = r.off]

FeedTableMap(R, s, k, e, f) ==
  IF ~TableMapDecodable(e, f) THEN {Fail(s)}
  ELSE LET tm == TableMapOf(e, f)
           id == PadId(TableIdOf(e, f))
           asking == [s EXCEPT !.ask = <<k>>]
           known == id \in DOMAIN s.tables
           old == TableMapOf(Strip(R.pk[s.tables[id].tm], FormatAt(R, s.tables[id].f)), FormatAt(R, s.tables[id].f))
       IN \* the same table again: its mapper table may be asked for again or not
          IF known /\ old.db = tm.db /\ old.tb = tm.tb /\ Len(old.types) = Len(tm.types)
          THEN {asking, [s EXCEPT !.tables[id].tm = k, !.tables[id].f = s.fmt]}
          ELSE {asking}

AnswerTo(R, s, a) ==
  LET k == s.ask[1]
      f == FormatAt(R, s.fmt)
      e == Strip(R.pk[k], f)
      id == PadId(TableIdOf(e, f))
      ans == R.mt[a]
      entry == [tm |-> k, f |-> s.fmt, mt |-> a]
  IN IF ans.err \/ Len(ans.cols) # Len(TableMapOf(e, f).types) THEN Fail(s)
     ELSE [s EXCEPT !.ask = <<>>, !.tables = [i \in DOMAIN @ \cup {id} |-> IF i = id THEN entry ELSE @[i]]]

FeedRows(R, s, k, e, f) ==
  LET id == PadId(TableIdOf(e, f))
  IN IF Len(Body(e, f)) < IdWidth(f, EvType(e)) \/ id \notin DOMAIN s.tables THEN Fail(s)
     ELSE LET t == s.tables[id]
              tf == FormatAt(R, t.f)
              tm == TableMapOf(Strip(R.pk[t.tm], tf), tf)
          IN IF RowsDecodable(e, f, tm) THEN Change(R, s, k, t) ELSE Fail(s)

Unsupported == {ERand, EIntVar, ERowsQuery}

FeedValid(R, s, k) ==
  LET raw == R.pk[k]
      typ == EvType(raw)
  IN IF typ = EFormat THEN {IF FormatOf(raw).ok THEN [s EXCEPT !.fmt = k] ELSE Fail(s)}
     ELSE IF s.fmt = 0 THEN {IF typ = ERotate THEN s ELSE Fail(s)}
     ELSE LET f == FormatAt(R, s.fmt)
              e == Strip(raw, f)
              \* events nobody looks into: their bodies may be anything
              skipped == typ \notin {EXid, ERotate, EQuery, ETableMap} \cup RowTypes \cup Unsupported
          IN IF ~StripOK(f, FALSE) \/ Len(e) < f.hl
             THEN {Fail(s)} \cup (IF typ = EXid THEN {Commit(R, s, k)} ELSE IF skipped THEN {s} ELSE {})
             ELSE CASE typ = EXid -> {Commit(R, s, k)}
                    [] typ = ERotate -> {FeedRotate(R, s, k, e, f)}
                    [] typ = EQuery -> {FeedQuery(R, s, k, e, f)}
                    [] typ = ETableMap -> FeedTableMap(R, s, k, e, f)
                    [] typ \in RowTypes -> {FeedRows(R, s, k, e, f)}
                    [] typ \in Unsupported -> {Fail(s)}
                    [] OTHER -> {s}

(* A packet whose body is arbitrary (but whose header is right) may be noticed or not. *)
FeedWild(R, s, k) ==
  {Fail(s), s} \cup (IF EvType(R.pk[k]) = EXid /\ s.fmt # 0 THEN {Commit(R, s, k)} ELSE {})

FeedP(R, s, k) ==
  IF ~IsValid(R.pk[k]) THEN {Fail(s)}
  ELSE IF \E i \in DOMAIN R.wild : R.wild[i] = k THEN FeedWild(R, s, k)
  ELSE FeedValid(R, s, k)

AcceptP(s) == [s EXCEPT !.pos = s.out[1].next, !.out = <<>>, !.buf = <<>>, !.auto = TRUE]
RefuseP(s) == Fail(s)

(* ---- is a delivered transaction the one the binlog holds ------------------------------ *)
MatchCell(R, d, tm, mt, c, im, x) ==
  LET cell == im.cells[c]
      cut == Cut(d, cell.s, cell.l)
  IN /\ x.n = mt.cols[c].n
     /\ x.t = tm.types[c]
     /\ x.e = (cell.k = "absent")
     /\ x.z = (cell.k # "val")
     /\ IF cell.k # "val" THEN x.d = <<>>
        ELSE x.x \/ CellMatch(tm.types[c], tm.meta[c], cut, mt.cols[c].u, R.off, x.d)
MatchImage(R, d, tm, mt, im, xs) ==
  /\ Len(xs) = Len(im.cells)
  /\ \A c \in 1..Len(xs) : MatchCell(R, d, tm, mt, c, im, xs[c])

MatchRows(R, c, x) ==
  LET f == FormatAt(R, c.f)
      e == Strip(R.pk[c.k], f)
      tf == FormatAt(R, c.tf)
      tm == TableMapOf(Strip(R.pk[c.tm], tf), tf)
      mt == R.mt[c.mt]
      d == Body(e, f)
      rs == RowsOf(e, f, tm)
      typ == EvType(e)
  IN /\ x.ty = IF typ \in WriteTypes THEN "insert" ELSE IF typ \in UpdateTypes THEN "update" ELSE "delete"
     /\ x.db = mt.db /\ x.tb = mt.tb
     /\ x.sql = <<>>
     /\ Len(x.rv) = (IF rs.hasData THEN Len(rs.rows) ELSE 0)
     /\ Len(x.ri) = (IF rs.hasId THEN Len(rs.rows) ELSE 0)
     /\ \A i \in 1..Len(x.rv) : MatchImage(R, d, tm, mt, rs.rows[i].data, x.rv[i])
     /\ \A i \in 1..Len(x.ri) : MatchImage(R, d, tm, mt, rs.rows[i].id, x.ri[i])

MatchQuery(R, c, x) ==
  LET f == FormatAt(R, c.f)
      q == QueryOf(Strip(R.pk[c.k], f), f)
  IN /\ x.ty = KindOf(q.sql)
     /\ x.sql = q.sql /\ x.qdb = q.db /\ x.cs = q.cs
     /\ x.rv = <<>> /\ x.ri = <<>>

MatchChange(R, c, x) ==
  /\ x.ts = Pad8(EvTime(R.pk[c.k]))
  /\ IF c.tm = 0 THEN MatchQuery(R, c, x) ELSE MatchRows(R, c, x)

MatchTran(R, o, x) ==
  /\ x.nf = o.now.f /\ x.no = o.now.o
  /\ x.xf = o.next.f /\ x.xo = o.next.o
  /\ x.ts = Pad8(EvTime(R.pk[o.k]))
  /\ Len(x.ev) = Len(o.ch)
  /\ \A i \in 1..Len(x.ev) : MatchChange(R, o.ch[i], x.ev[i])
=============================================================================
