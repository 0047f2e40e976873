------------------------------ MODULE CdParse ------------------------------
(***************************************************************************)
(* Reads the source texts of CD_TEXTS: the front end of the specification. *)
(* What program p is, or why it is none, goes to the file CD_TREES p.      *)
(***************************************************************************)
EXTENDS CdSyntax, Json, IOUtils

Texts == TLCEval(JsonDeserialize(IOEnv.CD_TEXTS))

VARIABLES p, e
Init == p \in 1..Len(Texts) /\ e = "unread"
Read == /\ e = "unread"
        /\ p' = p
        /\ e' = LET r == TLCEval(IF "lex" \in DOMAIN Texts[p] THEN [e |-> "", ts |-> [j \in DOMAIN Texts[p].lex |-> Lex(Texts[p].lex[j])]] ELSE Front(Texts[p].src)) IN
                IF JsonSerialize(IOEnv.CD_TREES \o ToString(p), <<r>>) THEN "read: " \o r.e ELSE "not written"
Spec == Init /\ [][Read]_<<p, e>>
Written == e # "not written"
=============================================================================
