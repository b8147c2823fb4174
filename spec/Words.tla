-------------------------------- MODULE Words ---------------------------------
(***************************************************************************)
(* Abstract binlogs: grammatical words over                                 *)
(*   b BEGIN   t table map   c rows change   d statement change             *)
(*   x XID   k COMMIT   r ROLLBACK   o rotation                             *)
(*   j event to be ignored   q statement to be ignored   u unsupported event *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Alphabet
Ends == {"x", "k", "r"}

(* ---- words ---------------------------------------------------------------- *)
(* st: out of a transaction (known: a table map just came), in one (known: some table is) *)
RECURSIVE Words(_, _, _)
Words(n, open, known) ==
  LET After(s) == CASE s = "b" -> <<TRUE, FALSE>>
                    [] s \in Ends -> <<FALSE, FALSE>>
                    [] s = "t" -> <<open, TRUE>>
                    [] s = "c" -> <<open, open>>
                    [] OTHER -> <<open, known>>
      Ok(s) == CASE s \in {"b", "o"} -> ~open /\ ~known
                 [] s \in Ends -> open
                 [] s = "c" -> known
                 [] s = "t" -> ~known
                 [] OTHER -> open \/ ~known
  IN (IF ~open /\ ~known THEN {<<>>} ELSE {}) \cup
     IF n = 0 THEN {} ELSE
       UNION { { <<s>> \o w : w \in Words(n - 1, After(s)[1], After(s)[2]) } : s \in { a \in Alphabet : Ok(a) } }
=============================================================================
