------------------------------- MODULE CdRun -------------------------------
(***************************************************************************)
(* Checks every program of Progs against the static semantics and runs     *)
(* the accepted ones on the abstract machine.                              *)
(***************************************************************************)
EXTENDS CdStatic

VARIABLES p, s
vars == <<p, s>>
K == 64                       \* machine steps per transition
MaxSteps == 60000

Idle(st, why) == [status |-> st, why |-> why, out |-> <<>>, code |-> 0, steps |-> 0]
Init == p \in 1..NProgs /\ s = Idle("check", "")

RECURSIVE Run(_, _, _, _)
Run(st, P, c, k) == IF k = 0 \/ st.status # "run" THEN st ELSE Run(TLCEval(Step(st, P, c)), P, c, k - 1)

Report == PrintT("@@" \o ToJson([id |-> p, status |-> s'.status, why |-> s'.why, out |-> s'.out, code |-> s'.code, steps |-> s'.steps]))

Check == /\ s.status = "check"
         /\ s' = LET e == SyntaxError(Progs[p])
                     v == IF e = "" THEN Verdict(Progs[p], Ctx[p])
                          ELSE IF SubSeq(e, 1, 1) = "?" THEN Unk(e) ELSE Bad("syntax: " \o e) IN
                 IF IsOk(v) THEN InitMachine(Progs[p], Ctx[p])
                 ELSE IF v[1] = "bad" THEN Idle("rejected", v[2]) ELSE Idle("open", v[2])
Go == /\ s.status = "run"
      /\ s' = LET r == Run(s, Progs[p], Ctx[p], K) IN
              IF r.status = "run" /\ r.steps > MaxSteps THEN UB(r, "too long") ELSE [r EXCEPT !.steps = @ + K]

Next == /\ Check \/ Go
        /\ p' = p
        /\ (s'.status # "run" => Report)

Spec == Init /\ [][Next]_vars
\* what the static semantics accepts never gets stuck
NeverStuck == s.status # "stuck"
=============================================================================
