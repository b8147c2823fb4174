------------------------------ MODULE Streamer -------------------------------
(***************************************************************************)
(* One Streamer and its master: the protocol of a sequence of Stream calls. *)
(*                                                                         *)
(*   caller  --Call-->  Stream: connect, announce checksums, request the   *)
(*   dump from the kept position, then two threads: the reader takes       *)
(*   packets off the wire and hands them one by one to the parser, which   *)
(*   folds them into transactions, asks the table mapper, and calls the    *)
(*   handler.  Whatever ends the parser, Stream stores the position, stops *)
(*   the reader, closes the connection and returns; Error() tells why the  *)
(*   reader stopped.                                                       *)
(*                                                                         *)
(* What a packet does to the parser's state is a parameter: an abstract    *)
(* alphabet in MCStreamer, real MySQL events in StreamerTrace (Binlog.tla). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Fresh(_),        \* parser state for a stream from a position
  Feed(_, _),      \* the set of parser states after an event
  Answer(_, _),    \* parser state after an answer of the table mapper
  Accept(_),       \* parser state after the handler accepted parser.out
  Refuse(_)        \* ... refused it
(* parser states have the fields
     pos  the last commit boundary (or rotation target)
     out  <<>> or <<transaction>> to be handled
     ask  <<>> or <<question>> for the table mapper
     err  a decode, lookup or handler failure                              *)

VARIABLES
  phase,     \* of the Stream call: idle, dial, announce, request, run, stop, closed
  keep,      \* the position the streamer keeps for its next attempt
  parser,         \* parser state
  user,      \* user code that is running: none, handler, mapper
  master,    \* of the current connection: none, accepted, announced, dumping
  asked,     \* dump requests on their way to the master: sequence of positions
  wire,      \* what the master sent and nobody read yet: [k |-> event] or [fault |-> eof, err, lost, reset]
  rd,        \* reader: off, reading, holding, gone
  held,      \* the event the reader holds, as a sequence of at most one
  why,       \* why the reader stopped: [kind |-> none, eof, err, lost, cancel, ...]
  cancelled, \* the caller's context is done
  broken,    \* the connection failed before the dump was requested
  ret,       \* what Stream is about to return: none, ok, fail
  last,      \* how the last Stream call ended
  link       \* the replica's end of the connection: none, open

vars == <<phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

NoWhy == [kind |-> "none", msg |-> <<>>]
NoLast == [ret |-> "none", why |-> NoWhy, cancelled |-> FALSE]
Why(kind, msg) == [kind |-> kind, msg |-> msg]

Init(pos) ==
  /\ phase = "idle" /\ keep = pos /\ parser = Fresh(pos) /\ user = "none" /\ master = "none"
  /\ asked = <<>> /\ wire = <<>> /\ rd = "off" /\ held = <<>> /\ why = NoWhy
  /\ cancelled = FALSE /\ broken = FALSE /\ ret = "none" /\ link = "none"
  /\ last = NoLast

Setup == {"dial", "announce", "request"}
Quiet == parser.out = <<>> /\ parser.ask = <<>> /\ ~parser.err /\ user = "none"

(* ---- the caller ----------------------------------------------------------- *)
SetPosition(pos) ==
  /\ phase = "idle" /\ keep' = pos
  /\ UNCHANGED <<phase, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

Call ==
  /\ phase = "idle"
  /\ phase' = "dial" /\ parser' = Fresh(keep) /\ user' = "none" /\ asked' = <<>> /\ wire' = <<>>
  /\ rd' = "off" /\ held' = <<>> /\ why' = NoWhy /\ ret' = "none"
  /\ UNCHANGED <<keep, master, cancelled, broken, last, link>>

Cancel ==
  /\ ~cancelled /\ cancelled' = TRUE
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, wire, rd, held, why, broken, ret, last, link>>

(* a fresh context and a fresh connection for the next attempt *)
Renew ==
  /\ phase = "idle" /\ cancelled' = FALSE /\ broken' = FALSE /\ master' = "none" /\ last' = NoLast
  /\ UNCHANGED <<phase, keep, parser, user, asked, wire, rd, held, why, ret, link>>

(* ---- connecting -------------------------------------------------------------- *)
MasterAccept ==
  /\ master = "none" /\ master' = "accepted"
  /\ UNCHANGED <<phase, keep, parser, user, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

Connect ==
  /\ phase = "dial" /\ master = "accepted"
  /\ phase' = "announce" /\ link' = "open"
  /\ UNCHANGED <<keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last>>

(* SET @master_binlog_checksum reaches the master ...                          *)
MasterAnnounced ==
  /\ phase = "announce" /\ master = "accepted"
  /\ master' = "announced"
  /\ UNCHANGED <<phase, keep, parser, user, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>
(* ... and only then the dump is requested, from the kept position             *)
Request ==
  /\ phase = "announce" /\ master = "announced"
  /\ phase' = "run" /\ asked' = <<keep>> /\ rd' = "reading"
  /\ UNCHANGED <<keep, parser, user, master, wire, held, why, cancelled, broken, ret, last, link>>

MasterDump(pos) ==
  /\ master = "announced" /\ asked # <<>> /\ asked[1] = pos
  /\ master' = "dumping" /\ asked' = Tail(asked)
  /\ UNCHANGED <<phase, keep, parser, user, wire, rd, held, why, cancelled, broken, ret, last, link>>

Break ==                \* the connection fails before the dump
  /\ master # "dumping" /\ broken' = TRUE
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, wire, rd, held, why, cancelled, ret, last, link>>

SetupFail(r) ==         \* ... or the caller gives up meanwhile
  /\ phase \in Setup /\ (broken \/ cancelled)
  /\ phase' = "stop" /\ ret' = r /\ rd' = "gone"
  /\ why' = IF cancelled THEN Why("cancel", <<>>) ELSE Why("lost", <<>>)
  /\ UNCHANGED <<keep, parser, user, master, asked, wire, held, cancelled, broken, last, link>>

(* ---- the master --------------------------------------------------------------- *)
MasterSend(item) ==
  /\ master = "dumping" /\ wire' = Append(wire, item)
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, rd, held, why, cancelled, broken, ret, last, link>>

(* ---- the reader ------------------------------------------------------------------ *)
IsFault(item) == "fault" \in DOMAIN item
Drops(item) == IsFault(item) /\ item.fault = "reset"
Stopping == cancelled \/ phase = "stop"

Read ==
  /\ rd = "reading" /\ wire # <<>> /\ ~IsFault(Head(wire))
  /\ rd' = "holding" /\ held' = <<Head(wire)>> /\ wire' = Tail(wire)
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, why, cancelled, broken, ret, last, link>>

ReadFails ==
  /\ rd = "reading" /\ wire # <<>> /\ IsFault(Head(wire)) /\ ~Drops(Head(wire))
  /\ rd' = "gone" /\ why' = Why(Head(wire).fault, Head(wire).msg) /\ wire' = Tail(wire)
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, held, cancelled, broken, ret, last, link>>

ReaderReset ==          \* a reset connection loses what was on its way
  /\ rd = "reading" /\ { i \in 1..Len(wire) : Drops(wire[i]) } # {}
  /\ rd' = "gone" /\ why' = Why("lost", <<>>) /\ wire' = <<>>
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, held, cancelled, broken, ret, last, link>>

ReaderLost ==           \* the request went into a connection that had already failed
  /\ rd = "reading" /\ broken /\ wire = <<>>
  /\ rd' = "gone" /\ why' = Why("lost", <<>>)
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, wire, held, cancelled, broken, ret, last, link>>

Drain ==                \* nobody wants the event any more: the reader may notice or read on
  /\ rd = "holding" /\ phase = "stop"
  /\ rd' = "reading" /\ held' = <<>>
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, wire, why, cancelled, broken, ret, last, link>>

ReaderStops ==
  /\ rd \in {"reading", "holding"} /\ Stopping
  /\ rd' = "gone" /\ held' = <<>> /\ why' = Why("cancel", <<>>)
  /\ UNCHANGED <<phase, keep, parser, user, master, asked, wire, cancelled, broken, ret, last, link>>

(* ---- the parser ---------------------------------------------------------------------- *)
HandOff ==
  /\ phase = "run" /\ Quiet /\ rd = "holding"
  /\ rd' = "reading" /\ held' = <<>> /\ parser' \in Feed(parser, held[1].k)
  /\ UNCHANGED <<phase, keep, user, master, asked, wire, why, cancelled, broken, ret, last, link>>

MapperCall ==
  /\ phase = "run" /\ user = "none" /\ parser.ask # <<>> /\ user' = "mapper"
  /\ UNCHANGED <<phase, keep, parser, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>
MapperRet(a) ==
  /\ user = "mapper" /\ user' = "none" /\ parser' = Answer(parser, a)
  /\ UNCHANGED <<phase, keep, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

HandlerCall ==
  /\ phase = "run" /\ user = "none" /\ parser.out # <<>> /\ user' = "handler"
  /\ UNCHANGED <<phase, keep, parser, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>
HandlerRet(ok) ==
  /\ user = "handler" /\ user' = "none" /\ parser' = IF ok THEN Accept(parser) ELSE Refuse(parser)
  /\ UNCHANGED <<phase, keep, master, asked, wire, rd, held, why, cancelled, broken, ret, last, link>>

(* ---- the end of a stream ------------------------------------------------------------------ *)
Stop(r) ==              \* the position is stored as soon as the parser is done
  /\ phase' = "stop" /\ ret' = r /\ keep' = parser.pos
  /\ UNCHANGED <<parser, user, master, asked, wire, rd, held, why, cancelled, broken, last, link>>
ParserFails == phase = "run" /\ parser.err /\ user = "none" /\ Stop("fail")
ParserEnds == phase = "run" /\ Quiet /\ rd = "gone" /\ Stop("ok")
ParserCancelled == phase = "run" /\ Quiet /\ cancelled /\ Stop("ok")

Close ==
  /\ phase = "stop" /\ rd \in {"off", "gone"}
  /\ phase' = "closed" /\ link' = "none"
  /\ UNCHANGED <<keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, ret, last>>

Return(r) ==
  /\ phase = "closed" /\ ret = r
  /\ phase' = "idle" /\ ret' = "none"
  /\ last' = [ret |-> r, why |-> why, cancelled |-> cancelled]
  /\ UNCHANGED <<keep, parser, user, master, asked, wire, rd, held, why, cancelled, broken, link>>

(* ---- Error() ----------------------------------------------------------------------------------- *)
Contains(text, part) ==
  \E i \in 0..(Len(text) - Len(part)) : SubSeq(text, i + 1, i + Len(part)) = part
(* may Error() return nil / an error with this text after the last Stream call *)
MayBeNil == \/ last.ret # "ok"
            \/ last.why.kind \in {"eof", "cancel"} \/ last.cancelled
MayBeError(text) == \/ last.ret # "ok"
                    \/ last.why.kind = "lost"
                    \/ last.why.kind = "err" /\ Contains(text, last.why.msg)
=============================================================================
