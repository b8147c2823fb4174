---------------------------- MODULE StreamerTrace -----------------------------
(***************************************************************************)
(* Is a recorded run of the real Streamer a behaviour of Streamer.tla over  *)
(* the binlogs of Binlog.tla?  A trace event is the projection of an action *)
(* of Streamer.tla; what a run does not show (the reader, the parser's      *)
(* decision to stop, the teardown) are silent steps.                        *)
(*                                                                         *)
(* All runs of the file are checked at once: a state belongs to run tid,    *)
(* whose events 1..line-1 are explained.  An accepted run is printed.          *)
(***************************************************************************)
EXTENDS Binlog, Json, IOUtils, TLC

Runs == ndJsonDeserialize(IOEnv.RECS)
NRuns == Len(Runs)

VARIABLES tid, line, hist
VARIABLES phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link

R == Runs[tid]
Pos(t, f, o) == [t |-> t, f |-> f, o |-> o]

FeedRun(s, k) == FeedP(Runs[s.pos.t], s, k)
AnswerRun(s, a) == AnswerTo(Runs[s.pos.t], s, a)
S == INSTANCE Streamer WITH
       Fresh <- FreshP, Feed <- FeedRun, Answer <- AnswerRun, Accept <- AcceptP, Refuse <- RefuseP

tvars == <<tid, line, hist, phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

Init == \E t \in 1..NRuns :
  /\ tid = t /\ line = 1 /\ hist = <<>>
  /\ S!Init(Pos(t, Runs[t].sf, Runs[t].so))

E == R.ev[line]
Is(e) == line <= Len(R.ev) /\ E.e = e
Step(e) == Is(e) /\ line' = line + 1 /\ UNCHANGED tid
SameHist == UNCHANGED hist
Stay == UNCHANGED <<hist, phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

Checksum == T("@master_binlog_checksum")
SetWord == T("set")
AnnouncesChecksum(sql) == LET s == LowerAll(sql) IN Len(s) > 3 /\ SubSeq(s, 1, 3) = SetWord /\ S!Contains(s, Checksum)
Low32(o) == SubSeq(o, 1, 4)

(* a plain condition: TLC evaluates it as one, not as a part of the action      *)
Test(p) == IF p THEN TRUE ELSE FALSE

Observed ==
  \/ Step("setpos") /\ S!SetPosition(Pos(tid, E.f, E.o)) /\ SameHist
  \/ Step("call") /\ S!Call /\ SameHist
  \/ Step("cancel") /\ S!Cancel /\ SameHist
  \/ Step("cfault") /\ S!Break /\ SameHist
  \/ Step("accept") /\ S!MasterAccept /\ SameHist
  \/ Step("query") /\ SameHist
     /\ IF AnnouncesChecksum(E.sql) /\ master = "accepted" THEN S!MasterAnnounced
        ELSE master \in {"accepted", "announced"} /\ Stay
  \/ Step("dump") /\ SameHist
     /\ asked # <<>>
     /\ E.file = asked[1].f /\ E.pos = Low32(asked[1].o) /\ E.sid = R.sid /\ AllZero(E.flags)
     /\ S!MasterDump(asked[1])
  \/ Step("send") /\ S!MasterSend([k |-> E.k]) /\ SameHist
  \/ Step("fault") /\ S!MasterSend([fault |-> E.kind, msg |-> E.msg]) /\ SameHist
  \/ Step("mcall") /\ SameHist
     /\ parser.ask # <<>>
     /\ LET f == FormatAt(R, parser.fmt)
            tm == TableMapOf(Strip(R.pk[parser.ask[1]], f), f)
        IN E.db = tm.db /\ E.tb = tm.tb
     /\ S!MapperCall
  \/ Step("mret") /\ S!MapperRet(E.a) /\ SameHist
  \/ Step("hcall")
     /\ parser.out # <<>>
     /\ Test(MatchTran(R, parser.out[1], E.tran))
     /\ hist' = Append(hist, parser.out[1])
     /\ S!HandlerCall
  \/ Step("hret") /\ S!HandlerRet(E.ok) /\ SameHist
  \/ Step("ret") /\ S!Return(IF E.err THEN "fail" ELSE "ok") /\ SameHist
  \/ Step("renew") /\ S!Renew /\ SameHist
  \/ Step("error") /\ phase = "idle" /\ Stay
     /\ Test(IF E.nil THEN S!MayBeNil ELSE S!MayBeError(E.text) \/ (E.soft /\ last.cancelled))
  \/ Step("astray") /\ Stay
  \/ Step("closed") /\ phase = "idle" /\ link = "none" /\ Stay
  \/ Step("quiet") /\ phase = "idle" /\ rd \in {"off", "gone"} /\ Stay
  \* a delivered transaction, read again
  \/ Step("reread") /\ E.n <= Len(hist) /\ Test(MatchTran(R, hist[E.n], E.tran)) /\ Stay

(* Steps that leave no event.  Each is postponed until the next event needs   *)
(* it, which loses no behaviour: nothing but these steps reads what they      *)
(* write, and what they wait for only grows.                                  *)
Next1(es) == line <= Len(R.ev) /\ E.e \in es
Silent ==
  /\ UNCHANGED <<tid, line, hist>>
  /\ \/ Next1({"query", "dump", "ret", "hcall", "mcall"}) /\ S!Connect
     \/ Next1({"dump", "ret", "hcall", "mcall"}) /\ S!Request
     \/ Next1({"ret", "hcall", "mcall"}) /\ (S!Read \/ S!HandOff)
     \/ Next1({"ret"}) /\ \/ S!ReadFails \/ S!ReaderReset \/ S!ReaderLost \/ S!ReaderStops \/ S!Drain \/ S!Close
                          \/ S!ParserFails \/ S!ParserEnds \/ S!ParserCancelled
                          \/ S!SetupFail("ok") \/ S!SetupFail("fail")

Next == Observed \/ Silent
Done == line = Len(R.ev) + 1
Report == IF Done THEN PrintT(<<"ACCEPT", R.id>>) ELSE TRUE
(* for a rejected run: how far it is explained                                *)
Progress == PrintT(<<"AT", R.id, line>>)
=============================================================================
