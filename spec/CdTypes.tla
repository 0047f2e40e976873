------------------------------ MODULE CdTypes ------------------------------
(***************************************************************************)
(* Programs and their types.                                               *)
(*                                                                         *)
(* Progs is a sequence of programs, read from the JSON file that the       *)
(* environment variable CD_PROGS names.  A program is an abstract syntax   *)
(* tree, flattened: p.n[i] is node i, a node refers to others by number.   *)
(* p.mods are its source files (the first one is the root), each with its  *)
(* top level declarations.                                                 *)
(*                                                                         *)
(* A source file that declares type parameters is instantiated once for    *)
(* every list of types that it is imported with; types, functions and      *)
(* globals belong to an *instance*.  Ctx[p] is everything that name        *)
(* resolution needs to know: instances, the table of structs and unions    *)
(* (with their layout), functions and globals.                             *)
(*                                                                         *)
(* Types:  <<"i",bits>> <<"u",bits>> <<"f",bits>> <<"*",T>> <<"arr",n,T>>  *)
(*         <<"st",k>> (k in the table) <<"fn",params,ret>> <<"void">>      *)
(*         <<"list",Ts>>  and, in source, <<"name",s>> <<"qual",m,s>>      *)
(***************************************************************************)
EXTENDS CdFloat, Json, IOUtils, FiniteSets

Progs == TLCEval(JsonDeserialize(IOEnv.CD_PROGS))
\* programs that CdParse has read have the error e
SyntaxError(P) == IF "e" \in DOMAIN P THEN P.e ELSE ""
NProgs == Len(Progs)

Void == <<"void">>
I1  == <<"i", 1>>
I8  == <<"i", 8>>
I32 == <<"i", 32>>
I64 == <<"i", 64>>
U64 == <<"u", 64>>
F32 == <<"f", 32>>
Ptr(t) == <<"*", t>>
Str == Ptr(I8)
BadType == <<"bad">>

IsInt(t) == t[1] = "i" \/ t[1] = "u"
IsUns(t) == t[1] = "u"
IsFlt(t) == t[1] = "f"
IsNum(t) == IsInt(t) \/ IsFlt(t)
IsPtr(t) == t[1] = "*"
IsArr(t) == t[1] = "arr"
IsAgg(t) == t[1] = "st"
IsFn(t)  == t[1] = "fn"
IsList(t) == t[1] = "list"

------------------------------------------------------------------------------
(* lists of <<name, value>> *)
RECURSIVE AssocRec(_, _, _)
AssocRec(l, k, i) == IF i = 0 THEN 0 ELSE IF l[i][1] = k THEN i ELSE AssocRec(l, k, i - 1)
AssocIdx(l, k) == AssocRec(l, k, Len(l))      \* index of the last entry for k, 0 if none
RECURSIVE SeqIdxRec(_, _, _)
SeqIdxRec(l, k, i) == IF i > Len(l) THEN 0 ELSE IF l[i] = k THEN i ELSE SeqIdxRec(l, k, i + 1)
SeqIdx(l, k) == SeqIdxRec(l, k, 1)            \* index of the first occurrence, 0 if none

------------------------------------------------------------------------------
(* Instances.  Building a context walks the declarations of a file in      *)
(* order; an import instantiates the imported file first.                  *)
(* c = [insts, sts]                                                        *)
(* inst = [mod, targs, tnames, imps, tys, funs, vars, bad]                 *)

RECURSIVE Resolve(_, _, _)
Resolve(c, k, t) ==
  CASE t[1] = "*" -> LET r == Resolve(c, k, t[2]) IN IF r = BadType THEN r ELSE <<"*", r>>
    \* nothing holds a value of void; a pointer to it is fine
    [] t[1] = "arr" -> LET r == Resolve(c, k, t[3]) IN IF r = BadType \/ r = Void THEN BadType ELSE <<"arr", t[2], r>>
    [] t[1] = "fn" ->
         LET ps == TLCEval([i \in DOMAIN t[2] |-> Resolve(c, k, t[2][i])])
             r == Resolve(c, k, t[3])
         IN IF r = BadType \/ (\E i \in DOMAIN ps : ps[i] = BadType \/ ps[i] = Void) THEN BadType ELSE <<"fn", ps, r>>
    [] t[1] = "list" ->
         LET ps == TLCEval([i \in DOMAIN t[2] |-> Resolve(c, k, t[2][i])])
         IN IF \E i \in DOMAIN ps : ps[i] = BadType THEN BadType ELSE <<"list", ps>>
    [] t[1] = "name" -> LET j == AssocIdx(c.insts[k].tys, t[2])
                        IN IF j = 0 THEN BadType ELSE c.insts[k].tys[j][2]
    [] t[1] = "qual" -> LET j == AssocIdx(c.insts[k].imps, t[2])
                        IN IF j = 0 THEN BadType
                           ELSE Resolve(c, c.insts[k].imps[j][2], <<"name", t[3]>>)
    [] OTHER -> t

\* first pass over the declarations of an instance: names of structs and unions
RECURSIVE PreTypes(_, _, _, _, _)
PreTypes(P, c, k, ds, i) ==
  IF i > Len(ds) THEN c
  ELSE LET d == P.n[ds[i]] IN
       IF d.k = "struct" \/ d.k = "union"
       THEN PreTypes(P, [c EXCEPT !.sts = Append(@, [n |-> d.s, inst |-> k, un |-> d.k = "union", node |-> ds[i],
                                                      fs |-> d.fs, ts |-> <<>>]),
                                  !.insts[k].tys = Append(@, <<d.s, <<"st", Len(c.sts) + 1>>>>)], k, ds, i + 1)
       ELSE PreTypes(P, c, k, ds, i + 1)

NewInst(m, targs) == [mod |-> m, targs |-> targs, ntp |-> 0, imps |-> <<>>, tys |-> <<>>, funs |-> <<>>,
                      vars |-> <<>>, bad |-> FALSE]

\* declarations of a file with the blocks of its #if directives spliced in
\* conditional compilation: the condition is an integer literal or the name of a platform
PlatformNames == {"WINDOWS", "MACOS", "LINUX", "X64", "ARM64", "ARM", "ARM64BE", "ARMBE"}
OurPlatform == {"LINUX", "X64"}
MacroOn(d) == IF d.mc[1] = "int" THEN \E i \in DOMAIN d.mc[2] : d.mc[2][i] # 0 ELSE d.mc[2] \in OurPlatform
RECURSIVE Decls(_, _, _)
Decls(P, ds, i) ==
  IF i > Len(ds) THEN <<>>
  ELSE LET d == P.n[ds[i]] IN
       (IF d.k = "macro" THEN IF MacroOn(d) THEN Decls(P, d.c, 1) ELSE <<>> ELSE <<ds[i]>>) \o Decls(P, ds, i + 1)

RECURSIVE Instantiate(_, _, _, _)
RECURSIVE Fill(_, _, _, _, _)
Fill(P, c, k, ds, i) ==
  IF i > Len(ds) THEN c
  ELSE LET d == P.n[ds[i]] IN
    Fill(P,
      CASE d.k = "import" ->
             LET targs == TLCEval([j \in DOMAIN d.ts |-> Resolve(c, k, d.ts[j])])
                 r == Instantiate(P, c, d.m, targs)
             IN [r[1] EXCEPT !.insts[k].imps = Append(@, <<d.s, r[2]>>),
                             !.insts[k].bad = @ \/ (\E j \in DOMAIN targs : targs[j] = BadType) \/ r[1].insts[r[2]].bad]
        [] d.k = "tparam" ->
             LET n == c.insts[k].ntp + 1 IN
             IF n > Len(c.insts[k].targs) THEN [c EXCEPT !.insts[k].bad = TRUE]
             ELSE [c EXCEPT !.insts[k].ntp = n,
                            !.insts[k].tys = Append(@, <<d.s, c.insts[k].targs[n]>>)]
        [] d.k = "alias" ->
             LET t == Resolve(c, k, d.t) IN
             [c EXCEPT !.insts[k].tys = Append(@, <<d.s, t>>), !.insts[k].bad = @ \/ t = BadType]
        [] d.k = "struct" \/ d.k = "union" ->
             LET ts == TLCEval([j \in DOMAIN d.ts |-> Resolve(c, k, d.ts[j])])
                 j == CHOOSE x \in DOMAIN c.sts : c.sts[x].inst = k /\ c.sts[x].node = ds[i]
             IN [c EXCEPT !.sts[j].ts = ts, !.insts[k].bad = @ \/ (\E x \in DOMAIN ts : ts[x] = BadType \/ ts[x] = Void)]
        [] d.k = "func" \/ d.k = "extern" -> [c EXCEPT !.insts[k].funs = Append(@, <<d.s, ds[i]>>)]
        [] d.k = "decl" -> [c EXCEPT !.insts[k].vars = Append(@, <<d.s, ds[i]>>)]
        [] OTHER -> c,
      k, ds, i + 1)

Instantiate(P, c, m, targs) ==
  IF \E k \in DOMAIN c.insts : c.insts[k].mod = m /\ c.insts[k].targs = targs
  THEN <<c, CHOOSE k \in DOMAIN c.insts : c.insts[k].mod = m /\ c.insts[k].targs = targs>>
  ELSE LET k == Len(c.insts) + 1
           ds == Decls(P, P.mods[m].ds, 1)
           c1 == PreTypes(P, [c EXCEPT !.insts = Append(@, NewInst(m, targs))], k, ds, 1)
       IN <<Fill(P, c1, k, ds, 1), k>>

------------------------------------------------------------------------------
(* Layout: natural alignment, as in C.                                     *)
RECURSIVE ContainsAgg(_, _, _, _)
\* does a value of type t contain (by value) the aggregate j?  depth bounds the search
ContainsAgg(sts, t, j, depth) ==
  CASE t[1] = "st" -> t[2] = j \/ (depth > 0 /\ \E f \in DOMAIN sts[t[2]].ts : ContainsAgg(sts, sts[t[2]].ts[f], j, depth - 1))
    [] t[1] = "arr" -> ContainsAgg(sts, t[3], j, depth)
    [] OTHER -> FALSE
RecursiveAgg(sts) == \E j \in DOMAIN sts : \E f \in DOMAIN sts[j].ts : ContainsAgg(sts, sts[j].ts[f], j, Len(sts))

MaxN(a, b) == IF a > b THEN a ELSE b
RoundUp(a, al) == ((a + al - 1) \div al) * al
RECURSIVE SizeOf0(_, _)
RECURSIVE AlignOf0(_, _)
RECURSIVE AlignSeq(_, _, _)
AlignSeq(sts, ts, i) == IF i > Len(ts) THEN 1 ELSE MaxN(AlignOf0(sts, ts[i]), AlignSeq(sts, ts, i + 1))
AlignOf0(sts, t) ==
  CASE t[1] \in {"i", "u", "f"} -> IF t[2] = 1 THEN 1 ELSE t[2] \div 8
    [] t[1] = "arr" -> AlignOf0(sts, t[3])
    [] t[1] = "st" -> AlignSeq(sts, sts[t[2]].ts, 1)
    [] OTHER -> 8
\* offset of every field, and the end of the last one
RECURSIVE Offsets(_, _, _, _, _)
Offsets(sts, ts, i, at, acc) ==
  IF i > Len(ts) THEN <<acc, at>>
  ELSE LET o == RoundUp(at, AlignOf0(sts, ts[i]))
       IN Offsets(sts, ts, i + 1, o + SizeOf0(sts, ts[i]), Append(acc, o))
RECURSIVE MaxSize(_, _, _)
MaxSize(sts, ts, i) == IF i > Len(ts) THEN 0 ELSE MaxN(SizeOf0(sts, ts[i]), MaxSize(sts, ts, i + 1))
SizeOf0(sts, t) ==
  CASE t[1] \in {"i", "u", "f"} -> IF t[2] = 1 THEN 1 ELSE t[2] \div 8
    [] t[1] = "arr" -> t[2] * SizeOf0(sts, t[3])
    [] t[1] = "st" -> IF sts[t[2]].un
                      THEN RoundUp(MaxSize(sts, sts[t[2]].ts, 1), AlignOf0(sts, t))
                      ELSE RoundUp(Offsets(sts, sts[t[2]].ts, 1, 0, <<>>)[2], AlignOf0(sts, t))
    [] OTHER -> 8

(* The C side: functions that the program links with.  What they do is      *)
(* written down as functions of a file of its own that nothing imports; an  *)
(* extern function is the one of that name there, or the public function of *)
(* that name in any file.                                                   *)
CMods(P) == {m \in DOMAIN P.mods : "c" \in DOMAIN P.mods[m]}
RECURSIVE ExtRec(_, _, _, _)
ExtRec(P, c, k, j) ==          \* functions j.. of instance k, and those of the instances after it: <<name, instance, node>>
  IF k > Len(c.insts) THEN <<>>
  ELSE IF j > Len(c.insts[k].funs) THEN ExtRec(P, c, k + 1, 1)
  ELSE LET f == c.insts[k].funs[j]  d == P.n[f[2]] IN
       (IF d.k = "func" /\ (d.pub \/ c.insts[k].mod \in CMods(P)) THEN <<<<f[1], k, f[2]>>>> ELSE <<>>) \o ExtRec(P, c, k, j + 1)
ExtOf(c, s) == LET J == {j \in DOMAIN c.ext : c.ext[j][1] = s} IN IF J = {} THEN <<"", 0, 0>> ELSE c.ext[CHOOSE j \in J : TRUE]

Context(P) ==
  LET r0 == Instantiate(P, [insts |-> <<>>, sts |-> <<>>], 1, <<>>)
      r == IF CMods(P) = {} THEN r0 ELSE Instantiate(P, r0[1], CHOOSE m \in CMods(P) : TRUE, <<>>)
      c == r[1]
      badT == \E k \in DOMAIN c.insts : c.insts[k].bad
      rec == ~badT /\ RecursiveAgg(c.sts)
      lay == IF badT \/ rec THEN <<>>
             ELSE TLCEval([j \in DOMAIN c.sts |->
                    [size |-> SizeOf0(c.sts, <<"st", j>>), align |-> AlignOf0(c.sts, <<"st", j>>),
                     offs |-> IF c.sts[j].un THEN [f \in DOMAIN c.sts[j].ts |-> 0]
                              ELSE Offsets(c.sts, c.sts[j].ts, 1, 0, <<>>)[1]]])
  IN [insts |-> c.insts, sts |-> c.sts, lay |-> lay, badTypes |-> badT, recursive |-> rec,
      ext |-> TLCEval(ExtRec(P, c, 1, 1))]

Ctx == TLCEval([p \in 1..NProgs |-> TLCEval(Context(Progs[p]))])

RECURSIVE SizeOf(_, _)
SizeOf(c, t) ==
  CASE t[1] \in {"i", "u", "f"} -> IF t[2] = 1 THEN 1 ELSE t[2] \div 8
    [] t[1] = "arr" -> t[2] * SizeOf(c, t[3])
    [] t[1] = "st" -> c.lay[t[2]].size
    [] OTHER -> 8

FieldIdx(c, t, f) == IF IsAgg(t) THEN SeqIdx(c.sts[t[2]].fs, f) ELSE 0
FieldType(c, t, f) == c.sts[t[2]].ts[FieldIdx(c, t, f)]
FieldOff(c, t, f) == c.lay[t[2]].offs[FieldIdx(c, t, f)]
IsUnion(c, t) == IsAgg(t) /\ c.sts[t[2]].un

\* the type of an integer literal depends on its value only
LitType(v8) == IF IsNegB(v8) THEN U64
               ELSE IF (\E i \in 5..8 : v8[i] # 0) \/ v8[4] >= 128 THEN I64 ELSE I32

\* function node -> its type in instance k
FnType(P, c, k, nd) ==
  LET d == P.n[nd] IN
  <<"fn", TLCEval([i \in DOMAIN d.pts |-> Resolve(c, k, d.pts[i])]), Resolve(c, k, d.rt)>>

ImportOf(c, k, s) == LET j == AssocIdx(c.insts[k].imps, s) IN IF j = 0 THEN 0 ELSE c.insts[k].imps[j][2]
FunOf(c, k, s) == LET j == AssocIdx(c.insts[k].funs, s) IN IF j = 0 THEN 0 ELSE c.insts[k].funs[j][2]

(* x.f(...) where f is no field of x: the function f of the module that     *)
(* declares the struct x (or points to); for anything else the first        *)
(* imported module, in import order, then this module, whose f takes x's    *)
(* type first.  <<instance, node>>, <<0,0>> when there is none.             *)
RECURSIVE MethodRec(_, _, _, _, _, _)
MethodRec(P, c, k, i, t, f) ==
  LET imps == c.insts[k].imps
      j == IF i > Len(imps) THEN k ELSE imps[i][2]
      nd == FunOf(c, j, f)
      fits == nd # 0 /\ Len(P.n[nd].pts) > 0 /\ Resolve(c, j, P.n[nd].pts[1]) = t
  IN IF fits THEN <<j, nd>>
     ELSE IF i > Len(imps) THEN <<0, 0>> ELSE MethodRec(P, c, k, i + 1, t, f)
Method(P, c, k, t, f) ==
  LET agg == IF IsPtr(t) THEN t[2] ELSE t IN
  IF IsAgg(agg)
  THEN LET home == c.sts[agg[2]].inst
           \* the struct's module if it is imported here, this module otherwise
           j == IF \E x \in DOMAIN c.insts[k].imps : c.insts[k].imps[x][2] = home THEN home ELSE k
           nd == FunOf(c, j, f)
       IN IF nd # 0 /\ Len(P.n[nd].pts) > 0 /\ Resolve(c, j, P.n[nd].pts[1]) = t THEN <<j, nd>> ELSE <<0, 0>>
  ELSE MethodRec(P, c, k, 1, t, f)
=============================================================================
