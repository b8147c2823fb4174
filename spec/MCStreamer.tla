----------------------------- MODULE MCStreamer -------------------------------
(***************************************************************************)
(* Streamer.tla over an abstract binlog, small enough to be explored whole. *)
(*                                                                         *)
(* The binlog is any grammatical word (Words.tla).                          *)
(* A position is the number of events before it.  The environment (master,  *)
(* handler, table mapper, caller) may do anything at any time, with at most *)
(* MaxFaults mishaps and MaxCalls Stream calls.                             *)
(*                                                                         *)
(* What must hold is stated without the parser: Commits, ChangesOf, Labels  *)
(* are read off the word itself.                                            *)
(***************************************************************************)
EXTENDS Words, FiniteSets, TLC, Json

CONSTANTS MaxLen, MaxFaults, MaxCalls, MaxWire, Bug, Emit

VARIABLES phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link
VARIABLES
  log,      \* the binlog
  acc,      \* transactions the handler accepted
  faults,   \* mishaps so far
  calls,    \* Stream calls so far
  sent,     \* events sent in this attempt
  ended,    \* the master ended this attempt
  nh, nm,   \* handler and mapper calls in this attempt
  att,      \* what the environment did in this attempt
  atts      \* ... in the earlier ones

svars == <<phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>
evars == <<log, acc, faults, calls, sent, ended, nh, nm, att, atts>>

(* ---- what a word commits -------------------------------------------------- *)
OpenAt(w, i) ==       \* event i is inside a transaction
  \E j \in 1..(i - 1) : w[j] = "b" /\ \A k \in (j + 1)..(i - 1) : w[k] \notin Ends
Bad(w) == { i \in 1..Len(w) : w[i] = "u" }
Reach(w) == IF Bad(w) = {} THEN Len(w) ELSE (CHOOSE i \in Bad(w) : \A j \in Bad(w) : i <= j) - 1
IsCommit(w, i) == IF OpenAt(w, i) THEN w[i] \in Ends ELSE w[i] \in {"c", "d"}
Commits(w) == { i \in 1..Len(w) : IsCommit(w, i) }
ChangesOf(w, i) ==
  IF ~OpenAt(w, i) THEN {i}
  ELSE IF w[i] = "r" THEN {}
  ELSE LET b == CHOOSE j \in 1..(i - 1) : w[j] = "b" /\ \A k \in (j + 1)..(i - 1) : w[k] # "b"
       IN { j \in b..i : w[j] \in {"c", "d"} }
Boundaries(w) == {0} \cup Commits(w) \cup { i \in 1..Len(w) : w[i] = "o" }
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Nth(S, n) == CHOOSE x \in S : Cardinality({ y \in S : y <= x }) = n

(* ---- the parser, abstractly -------------------------------------------------- *)
Fresh(pos) == [pos |-> pos, out |-> <<>>, ask |-> <<>>, err |-> FALSE, buf |-> <<>>, auto |-> TRUE, known |-> FALSE]
Fail(s) == [s EXCEPT !.err = TRUE, !.out = <<>>, !.ask = <<>>]
Deliver(s, i) == [s EXCEPT !.out = <<[now |-> s.pos, next |-> i, ch |-> s.buf]>>,
                           !.pos = IF Bug = "advance-early" THEN i ELSE @]
Change(s, i) == LET s1 == [s EXCEPT !.buf = Append(@, i)] IN IF s.auto THEN Deliver(s1, i) ELSE s1
Feed(s, k) ==
  LET i == k.i IN
  {CASE k.s = "b" -> [s EXCEPT !.buf = <<>>, !.auto = FALSE]
     [] k.s = "t" -> [s EXCEPT !.ask = <<i>>]
     [] k.s = "c" -> IF s.known THEN Change(s, i) ELSE Fail(s)
     [] k.s = "d" -> Change(s, i)
     [] k.s \in {"x", "k"} -> Deliver(s, i)
     [] k.s = "r" -> Deliver([s EXCEPT !.buf = IF Bug = "rollback-keeps" THEN @ ELSE <<>>], i)
     [] k.s = "o" -> [s EXCEPT !.pos = i]
     [] k.s = "u" -> Fail(s)
     [] OTHER -> s}
Answer(s, a) == IF a THEN [s EXCEPT !.ask = <<>>, !.known = TRUE]
                ELSE IF Bug = "lookup-loses-position" THEN [Fail(s) EXCEPT !.pos = 0]
                ELSE Fail(s)
Accept(s) == [s EXCEPT !.pos = s.out[1].next, !.out = <<>>, !.buf = IF Bug = "buffer-kept" THEN @ ELSE <<>>, !.auto = TRUE]
Refuse(s) == Fail(s)

S == INSTANCE Streamer

Same(vs) == UNCHANGED vs
(* ---- the environment ------------------------------------------------------------ *)
NoAtt == [sent |-> 0, end |-> "none", hfail |-> 0, mfail |-> 0, cancel |-> "none", at |-> 0, conn |-> "none"]

Init ==
  /\ log \in { w \in Words(MaxLen, FALSE, FALSE) : w # <<>> }
  /\ acc = <<>> /\ faults = 0 /\ calls = 0 /\ sent = 0 /\ ended = FALSE /\ nh = 0 /\ nm = 0 /\ att = NoAtt /\ atts = <<>>
  /\ S!Init(0)

MayFail == faults < MaxFaults

(* where in the attempt the caller gives up, for the replay                          *)
Here == CASE phase = "idle" -> <<"precall", 1>>
          [] user = "handler" -> <<"hcall", nh>>
          [] user = "mapper" -> <<"mcall", nm>>
          [] sent > 0 -> <<"send", sent>>
          [] master = "dumping" -> <<"dump", 1>>
          [] master = "announced" -> <<"set", 1>>
          [] master = "accepted" -> <<"accept", 1>>
          [] OTHER -> <<"precall", 1>>

Call ==
  /\ phase = "idle" /\ calls < MaxCalls /\ last.ret = "none" /\ Len(acc) < Cardinality(Commits(log))
  /\ S!Call
  /\ calls' = calls + 1 /\ sent' = 0 /\ ended' = FALSE /\ nh' = 0 /\ nm' = 0
  /\ Same(<<log, acc, faults, att, atts>>)
Renew ==
  /\ calls < MaxCalls /\ phase = "idle" /\ last.ret # "none"
  /\ S!Renew
  /\ (IF Emit THEN atts' = Append(atts, att) ELSE Same(atts)) /\ att' = NoAtt
  /\ Same(<<log, acc, faults, calls, sent, ended, nh, nm>>)
Cancel ==
  /\ MayFail /\ S!Cancel /\ faults' = faults + 1 /\ (phase # "idle" \/ last.ret = "none")
  /\ att' = IF Emit THEN [att EXCEPT !.cancel = Here[1], !.at = Here[2]] ELSE att
  /\ Same(<<log, acc, calls, sent, ended, nh, nm, atts>>)
Break ==
  /\ MayFail /\ phase \in S!Setup /\ master \in {"accepted", "announced"} /\ ~broken /\ S!Break /\ faults' = faults + 1
  /\ att' = [att EXCEPT !.conn = master]
  /\ Same(<<log, acc, calls, sent, ended, nh, nm, atts>>)
MasterAccept == phase = "dial" /\ S!MasterAccept /\ Same(evars)
MasterAnnounced == ~broken /\ S!MasterAnnounced /\ Same(evars)
MasterDump == ~broken /\ asked # <<>> /\ S!MasterDump(asked[1]) /\ Same(evars)
Start == IF asked = <<>> THEN parser.pos ELSE 0
MasterSend ==
  /\ master = "dumping" /\ ~ended /\ keep + sent < Len(log) /\ Len(wire) < MaxWire
  /\ LET i == keep + sent + 1 IN S!MasterSend([k |-> [i |-> i, s |-> log[i]]])
  /\ sent' = sent + 1 /\ att' = (IF Emit THEN [att EXCEPT !.sent = sent + 1] ELSE att)
  /\ Same(<<log, acc, faults, calls, ended, nh, nm, atts>>)
MasterEnds(kind) ==
  /\ master = "dumping" /\ ~ended /\ phase = "run"
  /\ IF keep + sent = Len(log) /\ kind = "eof" THEN Same(faults) ELSE MayFail /\ faults' = faults + 1
  /\ S!MasterSend([fault |-> kind, msg |-> IF kind = "err" THEN <<7>> ELSE <<>>])
  /\ ended' = TRUE /\ att' = [att EXCEPT !.end = kind]
  /\ Same(<<log, acc, calls, sent, nh, nm, atts>>)
HandlerRet(ok) ==
  /\ S!HandlerRet(ok)
  /\ IF ok THEN acc' = Append(acc, parser.out[1]) /\ Same(<<faults, att>>)
     ELSE MayFail /\ faults' = faults + 1 /\ Same(acc) /\ att' = [att EXCEPT !.hfail = nh]
  /\ Same(<<log, calls, sent, ended, nh, nm, atts>>)
MapperRet(ok) ==
  /\ S!MapperRet(ok)
  /\ IF ok THEN Same(<<faults, att>>) ELSE MayFail /\ faults' = faults + 1 /\ att' = [att EXCEPT !.mfail = nm]
  /\ Same(<<log, acc, calls, sent, ended, nh, nm, atts>>)
HandlerCall == S!HandlerCall /\ nh' = (IF Emit THEN nh + 1 ELSE 1) /\ Same(<<log, acc, faults, calls, sent, ended, nm, att, atts>>)
MapperCall == S!MapperCall /\ nm' = (IF Emit THEN nm + 1 ELSE 1) /\ Same(<<log, acc, faults, calls, sent, ended, nh, att, atts>>)

(* a Stream that does not wait for its reader                                           *)
CloseEarly == Bug = "no-wait" /\ phase = "stop" /\ phase' = "closed" /\ link' = "none"
              /\ Same(<<keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last>>)
StopAnyHow == IF Bug = "forgets-position"
              THEN phase = "run" /\ parser.err /\ user = "none" /\ phase' = "stop" /\ ret' = "fail"
                   /\ Same(<<keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, last, link>>)
              ELSE S!ParserFails
Stuck == Bug = "reader-stuck"   \* the reader offers its event for ever
Swallow == IF Bug = "swallows" THEN /\ rd = "reading" /\ wire # <<>> /\ S!IsFault(Head(wire)) /\ rd' = "gone"
                                    /\ why' = S!Why("eof", <<>>) /\ wire' = Tail(wire)
                                    /\ Same(<<phase, keep, parser, user, master, asked, held, cancelled, broken, ret, last, link>>)
           ELSE S!ReadFails

Inside ==
  \/ S!Connect \/ S!Request \/ S!SetupFail("fail")
  \/ S!Read \/ Swallow \/ S!ReaderReset \/ S!ReaderLost \/ (S!ReaderStops /\ ~(Stuck /\ rd = "holding")) \/ (S!Drain /\ ~Stuck) \/ S!HandOff
  \/ StopAnyHow \/ S!ParserEnds \/ S!ParserCancelled
  \/ S!Close \/ CloseEarly \/ S!Return("ok") \/ S!Return("fail")

Work == (Inside /\ Same(evars)) \/ HandlerCall \/ MapperCall
Users == HandlerRet(TRUE) \/ HandlerRet(FALSE) \/ MapperRet(TRUE) \/ MapperRet(FALSE)
Master == MasterAccept \/ MasterAnnounced \/ MasterDump \/ MasterSend \/ MasterEnds("eof") \/ MasterEnds("err") \/ MasterEnds("lost") \/ MasterEnds("reset")
Next == Work \/ Users \/ Master \/ Call \/ Renew \/ Cancel \/ Break

Fair == WF_<<svars, evars>>(Work) /\ WF_<<svars, evars>>(Users) /\ WF_<<svars, evars>>(Master)
        /\ WF_<<svars, evars>>(Call \/ Renew)
Spec == Init /\ [][Next]_<<svars, evars>> /\ Fair

(* ---- what must hold ------------------------------------------------------------------------ *)
ToSet(s) == { s[i] : i \in 1..Len(s) }
(* C01, C02, C04: what was accepted is a prefix of what was committed, each change once, in order *)
ExactlyOnce ==
  /\ Len(acc) <= Cardinality(Commits(log))
  /\ \A n \in 1..Len(acc) :
       LET i == Nth(Commits(log), n)
       IN acc[n].next = i /\ ToSet(acc[n].ch) = ChangesOf(log, i) /\ Len(acc[n].ch) = Cardinality(ChangesOf(log, i))
          /\ \A k \in 1..(Len(acc[n].ch) - 1) : acc[n].ch[k] < acc[n].ch[k + 1]
(* C03: start labels chain *)
LabelsChain == \A n \in 1..Len(acc) : acc[n].now = Max({ b \in Boundaries(log) : b < acc[n].next })
(* C02: nothing is handed out before its commit event was read *)
AfterCommit == parser.out # <<>> => IsCommit(log, parser.out[1].next)
(* C04: between attempts the streamer keeps the boundary after the last accepted transaction *)
KeepIsBoundary ==
  phase = "idle" =>
    /\ keep \in Boundaries(log)
    /\ LET done == IF acc = <<>> THEN 0 ELSE acc[Len(acc)].next
       IN keep >= done /\ ~\E i \in Commits(log) : i > done /\ i <= keep
(* C05 *)
HandlerInside == user # "none" => phase = "run"
NothingLeft == phase = "idle" => rd \in {"off", "gone"} /\ link = "none" /\ user = "none"
ReaderBeforeClose == link = "none" => rd \in {"off", "gone"}
(* C06 *)
Reported == (phase = "idle" /\ last.ret = "ok" /\ ~last.cancelled) => last.why.kind \in {"eof", "err", "lost"}
Latest == phase = "idle" /\ last.ret # "none"
NotSwallowed == (Latest /\ last.ret = "ok" /\ S!MayBeNil) => att.end = "eof" \/ last.cancelled
FailuresReturned == (Latest /\ last.ret = "ok") => att.hfail = 0 /\ att.mfail = 0
(* C07 *)
OneRequest == Len(asked) <= 1 /\ (asked # <<>> /\ phase = "run" => master = "announced")
              /\ (phase = "run" /\ asked # <<>> => asked[1] = keep)

(* C05: a stream that was cancelled or has ended returns; C04: in the end everything is accepted *)
Returns == (phase # "idle" /\ (cancelled \/ ended \/ broken)) ~> (phase = "idle")
Delivered == <>(Len(acc) = Cardinality({ i \in Commits(log) : i <= Reach(log) }))

(* ---- schedules for the replay: what the environment did, when all is over ------------------- *)
Over == phase = "idle" /\ calls > 0 /\ master # "none" /\ faults > 0
Schedules == (Emit /\ Over) => PrintT(<<"ENV", ToJson([log |-> log, atts |-> Append(atts, att)])>>)
=============================================================================
