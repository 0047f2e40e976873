------------------------------ MODULE CdBuild ------------------------------
(***************************************************************************)
(* What the command line does with a project: `candice build|run|init DIR` *)
(* and `compiler FILE`.                                                    *)
(*                                                                         *)
(* A case is a file tree, a configuration and a command line.  Paths are   *)
(* sequences of names from the root of the tree.  A source file prints its *)
(* number and how often it was shown before, then shows what it imports.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == TLCEval(JsonDeserialize(IOEnv.CD_CASES))
Input == 81                        \* what a program reads

VARIABLES k,       \* the case
          pc,      \* args, config, entry, front, write, link, run, done
          exe,     \* the configured output: "none", "old" (of an earlier build), "new"
          inter,   \* is there an intermediate file
          calls,   \* invocations of the linker: what it is told
          ran,     \* did the program run
          verdict  \* "", "ok", "error"
vars == <<k, pc, exe, inter, calls, ran, verdict>>
C == Cases[k]

(* paths *)
RECURSIVE Norm(_, _)
Norm(done, p) == IF p = <<>> THEN done
                 ELSE IF p[1] \in {".", ""} THEN Norm(done, Tail(p))
                 ELSE IF p[1] = ".." THEN Norm(SubSeq(done, 1, Len(done) - 1), Tail(p))
                 ELSE Norm(Append(done, p[1]), Tail(p))
Dir(p) == SubSeq(p, 1, Len(p) - 1)
At(c, p) == LET S == {i \in DOMAIN c.files : c.files[i].p = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* every path of a configuration starts at its project; those of the command line where the command runs
Base(c) == IF c.mode = "compile" THEN c.cwd ELSE c.proj
EntryOf(c) == Norm(Base(c), c.conf.entry)
OutputOf(c) == LET o == Norm(Base(c), c.conf.output) IN
               IF c.conf.binary = "obj" /\ o # Base(c) THEN Append(Dir(o), o[Len(o)] \o ".o") ELSE o
Target(c, i, j) == At(c, Norm(Dir(c.files[i].p), c.files[i].ims[j]))

(* the front end: all files that the entry reaches *)
RECURSIVE Reach(_, _)
Reach(c, S) == LET T == S \cup UNION {{Target(c, i, j) : j \in DOMAIN c.files[i].ims} : i \in S \ {0}} IN IF T = S THEN S ELSE Reach(c, T)
Reached(c) == LET e == At(c, EntryOf(c)) IN IF e = 0 THEN {0} ELSE Reach(c, {e})
RECURSIVE Below(_, _, _)
Below(c, S, n) == IF n = 0 THEN S ELSE Below(c, UNION {{Target(c, i, j) : j \in DOMAIN c.files[i].ims} : i \in S}, n - 1)
Cyclic(c) == LET R == Reached(c) IN 0 \notin R /\ Below(c, R, Cardinality(R) + 1) # {}
Good(c) == LET R == Reached(c) IN 0 \notin R /\ ~Cyclic(c) /\ \A i \in R : c.files[i].what \notin {"syntax", "types", "code", "obj"}
Added(c) == {i \in Reached(c) : c.files[i].flag}

(* what the program does *)
Externs(c) == {i \in Reached(c) : c.files[i].what = "extern"}
FlagFiles(c) == {At(c, Norm(Base(c), c.conf.flags[j].p)) : j \in {j \in DOMAIN c.conf.flags : c.conf.flags[j].p # <<>>}}
ObjValue(c) == c.files[CHOOSE i \in FlagFiles(c) : TRUE].code
RECURSIVE Show(_, _, _), ShowAll(_, _, _, _)
ShowAll(c, i, j, s) == IF j > Len(c.files[i].ims) THEN s ELSE ShowAll(c, i, j + 1, Show(c, Target(c, i, j), s))
Show(c, i, s) == LET n == s.n[i]
                     t == ToString(i) \o "." \o ToString(n) \o " "
                     x == CASE c.files[i].what = "extern" -> "e" \o ToString(ObjValue(c)) \o " "
                            [] c.files[i].what = "stdin" -> "i" \o ToString(IF s.read THEN -1 ELSE Input) \o " "
                            [] OTHER -> ""
                 IN ShowAll(c, i, 1, [out |-> s.out \o t \o x, n |-> [s.n EXCEPT ![i] = n + 1], read |-> s.read \/ c.files[i].what = "stdin"])
Text(c) == Show(c, At(c, EntryOf(c)), [out |-> "", n |-> [i \in DOMAIN c.files |-> 0], read |-> FALSE]).out
Code(c) == c.files[At(c, EntryOf(c))].code

(* the linker *)
Links(c) == /\ c.conf.cxx = "clang"
            /\ c.conf.output # <<>> /\ Dir(OutputOf(c)) \in {c.dirs[j] : j \in DOMAIN c.dirs}
            /\ 0 \notin FlagFiles(c)
            /\ (c.conf.binary = "obj" \/ Externs(c) = {} \/ FlagFiles(c) # {})
Call(c) == [flags |-> [j \in DOMAIN c.conf.flags |-> c.conf.flags[j].t], added |-> Added(c), out |-> OutputOf(c),
            opt |-> c.release /\ c.mode # "compile", obj |-> c.conf.binary = "obj"]

Init == /\ k \in DOMAIN Cases /\ pc = "args" /\ inter = FALSE /\ calls = <<>> /\ ran = FALSE /\ verdict = ""
        /\ exe = IF C.stale THEN "old" ELSE "none"
Stop(v) == pc' = "done" /\ verdict' = v
Goto(p) == pc' = p /\ verdict' = verdict

Args == /\ pc = "args" /\ UNCHANGED <<k, exe, inter, calls, ran>>
        /\ IF ~C.args THEN Stop("error")
           ELSE IF C.mode = "init" THEN (IF C.conf.form = "nodir" THEN Stop("error") ELSE Goto("make")) ELSE IF C.mode = "compile" THEN Goto("entry") ELSE Goto("config")
\* a new project: a configuration and a program that says hello
Make == /\ pc = "make" /\ UNCHANGED <<k, exe, inter, calls, ran>> /\ Stop("ok")
Config == /\ pc = "config" /\ UNCHANGED <<k, exe, inter, calls, ran>>
          /\ IF C.conf.form = "ok" THEN Goto("entry") ELSE Stop("error")
Entry == /\ pc = "entry" /\ UNCHANGED <<k, exe, inter, calls, ran>>
         /\ IF At(C, EntryOf(C)) = 0 THEN Stop("error") ELSE Goto("front")
Front == /\ pc = "front" /\ UNCHANGED <<k, exe, inter, calls, ran>>
         /\ IF ~Good(C) \/ C.conf.kind \notin {"cxx", "llvm"} THEN Stop("error") ELSE Goto("write")
\* an old output may disappear from here on
Write == /\ pc = "write" /\ UNCHANGED <<k, calls, ran>> /\ exe' \in {exe, "none"}
         /\ \/ Goto("link") /\ inter' = TRUE
            \/ /\ C.conf.kind = "llvm" /\ (C.conf.output = <<>> \/ ~Links(C))        \* no place to write to
               /\ Stop("error") /\ inter' = FALSE
Link == /\ pc = "link" /\ UNCHANGED <<k, ran>>
        /\ calls' = IF C.conf.cxx = "missing" THEN calls ELSE Append(calls, Call(C))
        /\ inter' \in (IF C.conf.kind = "cxx" THEN {FALSE} ELSE {TRUE, FALSE})
        /\ IF Links(C) THEN exe' = "new" /\ (IF C.mode = "run" THEN IF C.conf.binary = "obj" THEN Stop("error") ELSE Goto("run") ELSE Stop("ok"))
           ELSE exe' \in {exe, "none"} /\ Stop("error")
Run == /\ pc = "run" /\ UNCHANGED <<k, exe, inter, calls>>
       /\ ran' = TRUE /\ Stop("ok")

Final == [id |-> k, verdict |-> verdict', exe |-> exe', inter |-> inter', calls |-> calls', ran |-> ran',
          made |-> IF C.mode = "init" /\ verdict' = "ok" THEN {Append(C.proj, "candice.json"), Append(C.proj, "main.cd")} ELSE {}, hello |-> "Hello world!",
          text |-> IF exe' = "new" /\ C.conf.binary # "obj" THEN Text(C) ELSE "", code |-> IF exe' = "new" /\ C.conf.binary # "obj" THEN Code(C) ELSE 0]
Next == /\ Args \/ Make \/ Config \/ Entry \/ Front \/ Write \/ Link \/ Run
        /\ (pc' = "done" => PrintT("@@" \o ToJson(Final)))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what users rely on *)
ErrorLeavesNone == verdict = "error" => exe # "new" \/ (C.mode = "run" /\ C.conf.binary = "obj")
SuccessWorks == verdict = "ok" /\ C.mode # "init" => exe = "new" /\ Len(calls) = 1 /\ Good(C)
RunsWhatItBuilt == ran => exe = "new" /\ C.mode = "run" /\ C.conf.binary # "obj"
LinksOnce == Len(calls) <= 1 /\ (calls # <<>> => Good(C))
NothingLeft == pc = "done" /\ C.conf.kind = "cxx" => ~inter
OnlyTheLinkerBuilds == [][exe' = "new" /\ exe # "new" => pc = "link"]_vars
Ends == <>(pc = "done")
=============================================================================
