------------------------------ MODULE CdStatic ------------------------------
(***************************************************************************)
(* The static semantics: which programs candice accepts.                   *)
(*                                                                         *)
(* Verdict(P, c) is <<"ok">>, <<"bad", why>> (the program breaks a rule:   *)
(* candice has to refuse it) or <<"unk", why>> (a corner that this         *)
(* specification leaves open; nothing is claimed about the program).       *)
(*                                                                         *)
(* TE checks an expression, its result is <<"ok", type>> or a verdict.     *)
(* TS checks a statement, its result is [v: verdict, env, rets] where rets *)
(* says that control never passes the statement.                           *)
(* x = [k: instance, env: bindings [n, t, const], rt: expected type of     *)
(* return, loop: "no" | "yes" | "blk", ec: a constant expression is        *)
(* expected, en: the expression is the target of a mutation]               *)
(***************************************************************************)
EXTENDS CdMachine

OK == <<"ok">>
Bad(w) == <<"bad", w>>
Unk(w) == <<"unk", w>>
Good(t) == <<"ok", t>>
IsOk(r) == r[1] = "ok"

\* a value of type b where a is expected, with the coercions of unions: "yes" "no" "unk"
RECURSIVE EqU(_, _, _)
EqU(c, a, b) ==
  IF a = b THEN "yes"
  ELSE IF IsUnion(c, a) THEN IF \E f \in DOMAIN c.sts[a[2]].ts : c.sts[a[2]].ts[f] = b THEN "yes" ELSE "no"
  ELSE IF IsUnion(c, b) THEN IF \E f \in DOMAIN c.sts[b[2]].ts : c.sts[b[2]].ts[f] = a THEN "unk" ELSE "no"
  ELSE IF IsPtr(a) /\ IsPtr(b) THEN EqU(c, a[2], b[2])
  ELSE IF IsFn(a) /\ IsFn(b) THEN
    IF Len(a[2]) # Len(b[2]) THEN "no"
    ELSE IF (\E i \in DOMAIN a[2] : EqU(c, b[2][i], a[2][i]) = "no") \/ EqU(c, a[3], b[3]) = "no" THEN "no" ELSE "unk"
  ELSE IF IsArr(a) /\ IsArr(b) THEN IF a[2] = b[2] /\ EqU(c, a[3], b[3]) # "no" THEN "unk" ELSE "no"
  ELSE "no"

RECURSIVE EnvRec(_, _, _)
EnvRec(env, s, i) == IF i = 0 THEN 0 ELSE IF env[i].n = s THEN i ELSE EnvRec(env, s, i - 1)
EnvIdx(env, s) == EnvRec(env, s, Len(env))

HasDup(q) == \E i, j \in DOMAIN q : i < j /\ q[i] = q[j]

\* expressions that the compiler can evaluate for a constant, a global or a case
RECURSIVE ConstForm(_, _, _)
ConstForm(P, x, n) ==
  LET d == P.n[n] IN
  CASE d.k \in {"int", "char", "flt", "str"} -> TRUE
    [] d.k = "id" -> LET e == EnvIdx(x.env, d.s) IN e # 0 /\ x.env[e].const
    [] d.k = "bin" -> d.op \in {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"} /\ ConstForm(P, x, d.c[1]) /\ ConstForm(P, x, d.c[2])
                      /\ P.n[d.c[1]].k # "str"
    [] d.k = "cast" -> ConstForm(P, x, d.c[1]) /\ P.n[d.c[1]].k # "str"
    [] d.k = "pre" -> d.op = "-" /\ ConstForm(P, x, d.c[1]) /\ P.n[d.c[1]].k # "str"
    [] OTHER -> FALSE

\* the value of such an expression (not a string): <<"ok", value>>, or a verdict when it has none
RECURSIVE ConstVal(_, _, _, _)
ConstVal(P, c, x, n) ==
  LET d == P.n[n]
      V(i) == ConstVal(P, c, x, d.c[i])
  IN
  CASE d.k = "int" -> LET v == Digits(d.d, d.base, 8)  t == LitType(v) IN <<"ok", Val(t, SubSeq(v, 1, t[2] \div 8))>>
    [] d.k = "char" -> <<"ok", Val(I8, <<d.v>>)>>
    [] d.k = "flt" -> <<"ok", Val(F32, FLiteral(4, d.d, d.f))>>
    [] d.k = "id" -> <<"ok", x.env[EnvIdx(x.env, d.s)].v>>
    [] d.k = "cast" ->
         LET a == V(1) IN
         IF ~IsOk(a) THEN a
         ELSE LET r == Convert(c, a[2], Resolve(c, x.k, d.t)) IN IF r[1] = "run" THEN <<"ok", r[3]>> ELSE Unk("constant conversion")
    [] d.k = "pre" ->
         LET a == V(1) IN
         IF ~IsOk(a) THEN a
         ELSE <<"ok", [a[2] EXCEPT !.c = IF IsFlt(a[2].t) THEN Neg(@) ELSE IF a[2].t[2] = 1 THEN @ ELSE NegB(@)]>>
    [] OTHER ->
         LET a == TLCEval(V(1))  b == TLCEval(V(2)) IN
         IF ~IsOk(a) THEN a ELSE IF ~IsOk(b) THEN b
         ELSE LET r == TLCEval(BinOp(<<>>, c, d.op, a[2], b[2])) IN
              IF r[1] = "run" THEN <<"ok", r[3]>>
              ELSE IF r[2] = "division" /\ IsZeroB(b[2].c) THEN Bad("division by zero in a constant")
              ELSE IF r[2] = "shift" /\ a[2].t[2] > 1 /\ a[2].t[2] >= b[2].t[2] THEN Bad("shift in a constant")
              ELSE Unk("undefined constant")

Cmps == {"==", "!=", "<", "<=", ">", ">=", "&&", "||"}

RECURSIVE TE(_, _, _, _)
RECURSIVE TS(_, _, _, _)
RECURSIVE TSs(_, _, _, _, _)
RECURSIVE TArgs(_, _, _, _, _, _)
RECURSIVE TList(_, _, _, _, _)

\* the arguments ns[i..] against the parameter types ts[i..]
TArgs(P, c, x, ns, ts, i) ==
  IF i > Len(ns) THEN OK
  ELSE LET a == TLCEval(TE(P, c, x, ns[i])) IN
       IF ~IsOk(a) THEN a
       ELSE IF i <= Len(ts) /\ a[2] # ts[i] THEN Bad("argument type")
       ELSE IF i > Len(ts) /\ ~IsNum(a[2]) /\ ~IsPtr(a[2]) THEN Unk("variadic argument")
       ELSE TArgs(P, c, x, ns, ts, i + 1)
TList(P, c, x, ns, acc) ==
  IF Len(ns) = Len(acc) THEN Good(acc)
  ELSE LET a == TLCEval(TE(P, c, x, ns[Len(acc) + 1])) IN
       IF ~IsOk(a) THEN a ELSE TList(P, c, x, ns, Append(acc, a[2]))

TCallArgs(P, c, x, ns, ts, ret, var) ==
  IF ~var /\ Len(ns) # Len(ts) THEN Bad("number of arguments")
  ELSE IF Len(ns) < Len(ts) THEN Bad("too few arguments of a variadic function")
  ELSE LET a == TArgs(P, c, x, ns, ts, 1) IN IF ~IsOk(a) THEN a ELSE Good(ret)

TBin(c, op, l, r) ==
  IF op \in {"<<", ">>"} THEN
    IF r[1] # "i" THEN Bad("shift amount")
    ELSE IF ~IsInt(l) THEN Bad("shifted value")
    ELSE IF r[2] = 1 \/ l[2] = 1 THEN Unk("shift of booleans") ELSE Good(l)
  ELSE IF IsPtr(l) /\ IsInt(r) /\ op \in {"+", "-"} THEN Good(l)
  ELSE IF l # r THEN Bad("operand types differ")
  ELSE IF op \in Cmps THEN IF IsNum(l) \/ IsPtr(l) THEN Good(I1) ELSE Bad("comparison of such values")
  ELSE IF IsFlt(l) THEN IF op \in {"&", "|", "^"} THEN Bad("bitwise operation on floats") ELSE Good(l)
  ELSE IF IsInt(l) THEN IF l[2] = 1 /\ op \in {"/", "%"} THEN Unk("division of booleans") ELSE Good(l)
  ELSE IF l = Str /\ op = "+" THEN Good(l)
  ELSE Bad("operand type")

TCast(f, t) ==
  LET ok(y) == IsNum(y) \/ IsPtr(y) \/ IsArr(y) IN
  IF ~ok(f) \/ ~ok(t) THEN Bad("cast")
  ELSE IF IsArr(t) \/ (IsArr(f) /\ ~IsPtr(t)) THEN Bad("cast of arrays")
  ELSE IF (IsFlt(f) /\ IsPtr(t)) \/ (IsPtr(f) /\ IsFlt(t)) THEN Unk("cast between float and pointer")
  ELSE Good(t)

\* a place in a name that a list of constants declares: nobody may assign to it, its values need not be constant expressions
RECURSIVE ListConst(_, _, _)
ListConst(P, x, n) ==
  LET d == P.n[n] IN
  CASE d.k \in {"dot", "idx"} -> ListConst(P, x, d.c[1])
    [] d.k = "id" -> LET e == EnvIdx(x.env, d.s) IN e # 0 /\ x.env[e].const /\ "v" \notin DOMAIN x.env[e]
    [] OTHER -> FALSE

\* a reference to a name: env of the function, then the functions of the instance
TName(P, c, x, s) ==
  IF ImportOf(c, x.k, s) # 0 THEN Unk("module as value")
  ELSE LET e == EnvIdx(x.env, s) IN
  IF e # 0 THEN
    LET b == x.env[e] IN
    IF x.ec /\ ~b.const THEN Bad("variable in a constant expression")
    ELSE IF x.ec /\ "v" \notin DOMAIN b THEN Unk("constant of a list in a constant expression")
    ELSE IF x.en /\ b.const THEN Bad("mutated constant")
    ELSE Good(b.t)
  ELSE LET nd == FunOf(c, x.k, s) IN
    IF nd = 0 THEN Bad("undefined name")
    ELSE IF x.ec THEN Bad("function in a constant expression")
    ELSE IF x.en THEN Unk("assignment to a function")
    ELSE LET t == FnType(P, c, x.k, nd) IN IF t = BadType THEN Bad("type") ELSE Good(t)

RECURSIVE GlobVar(_, _, _, _)
\* the last global s of an instance among its variables vs, 0 if none
GlobVar(P, vs, s, i) == IF i = 0 THEN 0 ELSE IF vs[i][1] = s THEN vs[i][2] ELSE GlobVar(P, vs, s, i - 1)
RECURSIVE GlobEnv(_, _, _, _, _)
TModMember(P, c, x, k, s) ==
  LET nd == GlobVar(P, c.insts[k].vars, s, Len(c.insts[k].vars)) IN
  IF nd # 0 THEN
    LET d == P.n[nd]
        t == IF d.t # <<"none">> THEN Good(Resolve(c, k, d.t)) ELSE GlobEnv(P, c, k, nd, 0)
    IN IF ~IsOk(t) THEN t
       ELSE IF x.ec /\ ~d.const THEN Bad("variable of a module in a constant expression")
       ELSE IF x.en /\ d.const THEN Bad("mutated constant of a module")
       ELSE IF x.ec THEN Unk("constant of a module in a constant expression")
       ELSE t
  ELSE LET f == FunOf(c, k, s) IN
    IF f = 0 THEN Bad("undefined member of a module")
    ELSE IF x.ec THEN Unk("function of a module in a constant expression")
    ELSE IF x.en THEN Unk("assignment to a function")
    ELSE Good(FnType(P, c, k, f))

TMethod(P, c, x, n) ==       \* x.f(args), x no module
  LET d == P.n[n]  f == P.n[d.c[1]]
      l == TLCEval(TE(P, c, [x EXCEPT !.en = FALSE], f.c[1]))
  IN IF ~IsOk(l) THEN l
     ELSE LET t == l[2]  agg == IF IsPtr(t) THEN t[2] ELSE t IN
       IF ~(IsAgg(agg) \/ IsNum(t) \/ IsPtr(t)) THEN (IF IsArr(t) \/ IsFn(t) THEN Unk("method of such a value") ELSE Bad("field of such a value"))
       ELSE IF FieldIdx(c, agg, f.s) # 0
       THEN LET ft == FieldType(c, agg, f.s) IN
            IF ~IsFn(ft) THEN Bad("call of a field that is no function")
            ELSE TCallArgs(P, c, x, Tail(d.c), ft[2], ft[3], FALSE)
       ELSE LET m == Method(P, c, x.k, t, f.s) IN
            IF EnvIdx(x.env, f.s) # 0 THEN Unk("method named like a variable")
            ELSE IF m[1] = 0 THEN Bad("unknown field or method")
            ELSE LET ft == FnType(P, c, m[1], m[2]) IN TCallArgs(P, c, x, Tail(d.c), Tail(ft[2]), ft[3], FALSE)

TE(P, c, x, n) ==
  LET N(i) == P.n[i]
      d == P.n[n]
      in == [x EXCEPT !.en = FALSE]
      Sub(y, m) == TLCEval(TE(P, c, y, m))
  IN
  CASE d.k = "int" -> Good(LitType(Digits(d.d, d.base, 8)))
    [] d.k = "char" -> Good(I8)
    [] d.k = "flt" -> Good(F32)
    [] d.k = "str" -> Good(Str)
    [] d.k = "id" -> TName(P, c, x, d.s)
    [] d.k = "dot" /\ ModuleOf(N, c, x.k, n) # 0 -> TModMember(P, c, x, ModuleOf(N, c, x.k, n), d.s)
    [] d.k = "dot" ->
         LET l == Sub(x, d.c[1]) IN
         IF ~IsOk(l) THEN l
         ELSE LET agg == IF IsPtr(l[2]) THEN l[2][2] ELSE l[2] IN
           IF x.ec THEN Unk("field in a constant expression")
           ELSE IF ~IsAgg(agg) THEN (IF Method(P, c, x.k, l[2], d.s)[1] # 0 THEN Bad("method as value") ELSE Bad("field of such a value"))
           ELSE IF FieldIdx(c, agg, d.s) # 0 THEN Good(FieldType(c, agg, d.s))
           ELSE IF Method(P, c, x.k, l[2], d.s)[1] # 0 THEN Bad("method as value") ELSE Bad("unknown field")
    [] d.k = "idx" ->
         LET l == Sub(x, d.c[1]) IN
         IF ~IsOk(l) THEN l
         ELSE IF ~IsArr(l[2]) /\ ~IsPtr(l[2]) THEN Bad("index of such a value")
         ELSE LET i == Sub(in, d.c[2]) IN
           IF ~IsOk(i) THEN i
           ELSE IF ~IsInt(i[2]) THEN Bad("index type")
           ELSE IF x.ec THEN Unk("index in a constant expression")
           ELSE IF l[2] = Ptr(Void) THEN Bad("element of a pointer to void")
           ELSE Good(IF IsArr(l[2]) THEN l[2][3] ELSE l[2][2])
    [] d.k = "pre" /\ d.op = "*" ->
         LET l == Sub(x, d.c[1]) IN
         IF ~IsOk(l) THEN l ELSE IF x.ec THEN Bad("dereference in a constant expression")
         ELSE IF l[2] = Ptr(Void) THEN Bad("dereference of a pointer to void")
         ELSE IF IsPtr(l[2]) THEN Good(l[2][2]) ELSE Bad("dereference")
    [] d.k = "pre" /\ d.op \in {"++", "--"} ->
         LET l == Sub([x EXCEPT !.en = TRUE], d.c[1]) IN
         IF ~IsOk(l) THEN l
         ELSE IF x.ec THEN Bad("mutation in a constant expression")
         ELSE IF ~IsNum(l[2]) THEN Bad("increment of such a value")
         ELSE IF N(d.c[1]).k \in {"int", "flt"} THEN Bad("increment of a literal")
         ELSE IF IsLocNode(N(d.c[1])) THEN Good(l[2]) ELSE Unk("increment of a value")
    [] d.k = "pre" /\ d.op = "&" ->
         LET l == Sub(in, d.c[1]) IN
         IF ~IsOk(l) THEN l
         ELSE IF x.ec THEN Bad("address in a constant expression")
         ELSE IF l[2] = Void THEN Bad("address of void")
         ELSE IF ListConst(P, x, d.c[1]) THEN Unk("address of a constant of a list")
         ELSE IF IsFn(l[2]) \/ IsList(l[2]) THEN Unk("address of such a value") ELSE Good(Ptr(l[2]))
    [] d.k = "pre" ->
         LET l == Sub(in, d.c[1]) IN
         IF ~IsOk(l) THEN l
         ELSE IF d.op = "!" THEN IF IsNum(l[2]) \/ IsPtr(l[2]) THEN (IF x.ec THEN Unk("! in a constant") ELSE Good(I1)) ELSE Bad("! of such a value")
         ELSE IF ~IsNum(l[2]) THEN Bad("sign of such a value")
         ELSE IF d.op = "+" THEN Unk("unary plus") ELSE Good(l[2])
    [] d.k = "bin" -> IF d.op \in {".", "="} THEN Bad("no operator of an expression") ELSE
         LET l == Sub(in, d.c[1]) IN
         IF ~IsOk(l) THEN l
         ELSE LET r == Sub(in, d.c[2]) IN IF ~IsOk(r) THEN r ELSE TBin(c, d.op, l[2], r[2])
    [] d.k = "cast" ->
         LET l == Sub(in, d.c[1])  t == Resolve(c, x.k, d.t) IN
         IF ~IsOk(l) THEN l ELSE IF t = BadType THEN Bad("type")
         ELSE IF x.ec /\ IsNum(l[2]) # IsNum(t) THEN Unk("cast of a pointer in a constant expression") ELSE TCast(l[2], t)
    [] d.k = "sizeof" -> LET t == Resolve(c, x.k, d.t) IN
         IF t = BadType THEN Bad("type") ELSE IF t = Void \/ IsList(t) THEN Unk("size of such a type") ELSE Good(I32)
    [] d.k = "alloc" ->
         LET t == Resolve(c, x.k, d.t)  l == Sub(in, d.c[1]) IN
         IF x.ec THEN Bad("allocation in a constant expression")
         ELSE IF t = BadType THEN Bad("type")
         ELSE IF ~IsOk(l) THEN l ELSE IF ~IsInt(l[2]) THEN Bad("length type") ELSE IF t = Void THEN Bad("allocation of void") ELSE Good(Ptr(t))
    [] d.k = "realloc" ->
         LET p == Sub(in, d.c[1]) IN
         IF x.ec THEN Bad("allocation in a constant expression")
         ELSE IF ~IsOk(p) THEN p ELSE IF ~IsPtr(p[2]) THEN Bad("realloc of such a value")
         ELSE LET l == Sub(in, d.c[2]) IN IF ~IsOk(l) THEN l ELSE IF ~IsInt(l[2]) THEN Bad("length type") ELSE Good(p[2])
    [] d.k = "free" ->
         LET p == Sub(in, d.c[1]) IN
         IF x.ec THEN Bad("free in a constant expression")
         ELSE IF ~IsOk(p) THEN p ELSE IF ~IsPtr(p[2]) THEN Bad("free of such a value") ELSE Good(Void)
    [] d.k = "unreachable" -> Unk("unreachable as value")
    [] d.k = "print" ->
         LET q == TList(P, c, in, d.c, <<>>) IN
         IF x.ec THEN Bad("print in a constant expression")
         ELSE IF ~IsOk(q) THEN q
         ELSE IF \E i \in DOMAIN q[2] : q[2][i] = Void THEN Bad("print of void")
         ELSE IF \E i \in DOMAIN q[2] : ~(IsNum(q[2][i]) \/ q[2][i] = Str) THEN Unk("print of such a value")
         ELSE IF Len(q[2]) = 0 THEN Unk("print of nothing") ELSE Good(Void)
    [] d.k = "comma" ->
         LET q == TList(P, c, x, d.c, <<>>) IN
         IF ~IsOk(q) THEN q
         ELSE IF \E i \in DOMAIN q[2] : q[2][i] = Void THEN Bad("void in a list")
         ELSE IF \E i \in DOMAIN q[2] : IsList(q[2][i]) THEN Unk("list in a list") ELSE Good(<<"list", q[2]>>)
    [] d.k = "slit" ->
         LET k == IF d.m = "" THEN x.k ELSE ImportOf(c, x.k, d.m)
             t == IF k = 0 THEN BadType ELSE Resolve(c, k, <<"name", d.s>>)
             RECURSIVE Fields(_)
             Fields(i) ==
               IF i > Len(d.c) THEN Good(t)
               ELSE IF FieldIdx(c, t, d.fs[i]) = 0 THEN Bad("unknown field in a literal")
               ELSE LET e == Sub(in, d.c[i]) IN
                    IF ~IsOk(e) THEN e
                    ELSE LET q == EqU(c, FieldType(c, t, d.fs[i]), e[2]) IN
                         IF q = "no" THEN Bad("field type") ELSE IF q = "unk" THEN Unk("union") ELSE Fields(i + 1)
         IN IF t = BadType THEN Bad("unknown struct")
            ELSE IF ~IsAgg(t) \/ IsUnion(c, t) THEN Bad("literal of no struct")
            ELSE IF x.ec THEN Unk("literal in a constant expression")
            ELSE IF HasDup(d.fs) THEN Bad("field given twice") ELSE Fields(1)
    [] d.k = "alit" ->
         LET t == Resolve(c, x.k, d.t)
             RECURSIVE Elems(_)
             Elems(i) ==
               IF i > Len(d.c) THEN Good(t)
               ELSE LET e == Sub(in, d.c[i]) IN
                    IF ~IsOk(e) THEN e ELSE IF e[2] # t[3] THEN Bad("element type") ELSE Elems(i + 1)
         IN IF t = BadType THEN Bad("type")
            ELSE IF Len(d.c) > t[2] THEN Bad("too many elements")
            ELSE IF x.ec THEN Unk("literal in a constant expression") ELSE Elems(1)
    [] d.k = "lam" ->
         LET pts == TLCEval([i \in DOMAIN d.pts |-> Resolve(c, x.k, d.pts[i])])
             rt == Resolve(c, x.k, d.rt)
         IN IF x.ec THEN Unk("anonymous function in a constant expression")
            ELSE IF rt = BadType \/ (\E i \in DOMAIN pts : pts[i] = BadType) THEN Bad("type")
            ELSE IF \E i \in DOMAIN pts : pts[i] = Void THEN Bad("void parameter")
            ELSE IF HasDup(d.ps) THEN Bad("two parameters with one name") ELSE IF \E i \in DOMAIN pts : IsList(pts[i]) THEN Unk("parameters")
            ELSE LET b == TLCEval(TSs(P, c, [x EXCEPT !.env = @ \o TLCEval([i \in DOMAIN pts |-> [n |-> d.ps[i], t |-> pts[i], const |-> FALSE]]),
                                            !.rt = rt, !.loop = "no", !.en = FALSE], N(d.b).c, 1))
                 IN IF ~IsOk(b.v) THEN b.v
                    ELSE IF rt # Void /\ ~b.rets THEN Bad("missing return") ELSE Good(<<"fn", pts, rt>>)
    [] d.k = "blk" ->
         LET t == Resolve(c, x.k, d.t) IN
         IF x.ec THEN Unk("block expression in a constant expression")
         ELSE IF t = BadType THEN Bad("type")
         ELSE IF t = Void \/ IsList(t) THEN Unk("block expression of such a type")
         ELSE LET b == TLCEval(TSs(P, c, [x EXCEPT !.rt = t, !.loop = IF @ = "no" THEN "no" ELSE "blk", !.en = FALSE], N(d.b).c, 1))
              IN IF ~IsOk(b.v) THEN b.v ELSE IF ~b.rets THEN Bad("block expression without return") ELSE Good(t)
    [] d.k = "call" ->
         LET f == N(d.c[1]) IN
         IF x.ec THEN Bad("call in a constant expression")
         ELSE IF f.k = "dot" /\ ModuleOf(N, c, x.k, d.c[1]) = 0 THEN TMethod(P, c, in, n)
         ELSE LET l == Sub(in, d.c[1]) IN
           IF ~IsOk(l) THEN l
           ELSE IF ~IsFn(l[2]) THEN Bad("call of no function")
           ELSE LET nd == IF f.k = "id" /\ EnvIdx(x.env, f.s) = 0 THEN FunOf(c, x.k, f.s)
                          ELSE IF f.k = "dot" THEN FunOf(c, ModuleOf(N, c, x.k, d.c[1]), f.s) ELSE 0
                    var == nd # 0 /\ N(nd).k = "extern" /\ N(nd).var
                IN TCallArgs(P, c, in, Tail(d.c), l[2][2], l[2][3], var)
    [] OTHER -> Unk("expression")

------------------------------------------------------------------------------
RECURSIVE SameC(_, _)
\* the same type for C: pointers to anything are
SameC(a, b) == \/ a = b \/ (IsPtr(a) /\ IsPtr(b))
               \/ (IsFn(a) /\ IsFn(b) /\ Len(a[2]) = Len(b[2]) /\ SameC(a[3], b[3]) /\ \A i \in DOMAIN a[2] : SameC(a[2][i], b[2][i]))
Res(v, env, rets) == [v |-> v, env |-> env, rets |-> rets]
Fine(x) == Res(OK, x.env, FALSE)
Fail(x, v) == Res(v, x.env, FALSE)

\* statements ns[i..] of one scope
TSs(P, c, x, ns, i) ==
  IF i > Len(ns) THEN Fine(x)
  ELSE LET r == TLCEval(TS(P, c, x, ns[i])) IN
       IF ~IsOk(r.v) \/ r.rets THEN r ELSE TSs(P, c, [x EXCEPT !.env = r.env], ns, i + 1)
\* a block: what it declares is gone afterwards
TBlock(P, c, x, n) == LET r == TSs(P, c, x, P.n[n].c, 1) IN [r EXCEPT !.env = x.env]

Bind(x, s, t, const, v) == Append(x.env, [n |-> s, t |-> t, const |-> const, v |-> v])

TDecl(P, c, x, n, global) ==
  LET d == P.n[n]
      e == TLCEval(TE(P, c, [x EXCEPT !.ec = d.const], d.c[1]))
      t == IF d.t = <<"none">> THEN e[2] ELSE Resolve(c, x.k, d.t)
  IN IF ~IsOk(e) THEN Fail(x, e)
     ELSE IF IsList(e[2]) THEN Fail(x, Bad("declaration of one variable from a list"))
     ELSE IF e[2] = Void THEN Fail(x, Bad("declaration of a void variable"))
     ELSE IF t = BadType THEN Fail(x, Bad("type"))
     ELSE IF ImportOf(c, x.k, d.s) # 0 THEN Fail(x, Unk("variable named like a module"))
     ELSE LET q == EqU(c, t, e[2]) IN
       IF q = "no" THEN Fail(x, Bad("declared type"))
       ELSE IF q = "unk" THEN Fail(x, Unk("union"))
       ELSE IF global /\ ~d.const /\ IsFn(e[2]) /\ t = e[2] /\ P.n[d.c[1]].k = "id" THEN
         IF EnvIdx(x.env, P.n[d.c[1]].s) # 0 THEN Fail(x, Bad("no constant")) ELSE Res(OK, Bind(x, d.s, t, FALSE, <<>>), FALSE)
       ELSE IF (d.const \/ global) /\ ~ConstForm(P, x, d.c[1]) THEN Fail(x, Bad("no constant"))
       ELSE IF (d.const \/ global) /\ ~((IsNum(e[2]) \/ P.n[d.c[1]].k = "str") /\ t = e[2]) THEN Fail(x, Unk("form of a constant"))
       ELSE LET v == TLCEval(IF (d.const \/ global) /\ IsNum(t) THEN ConstVal(P, c, x, d.c[1]) ELSE <<"ok", <<>>>>) IN
            IF ~IsOk(v) THEN Fail(x, v) ELSE Res(OK, Bind(x, d.s, t, d.const, v[2]), FALSE)

RECURSIVE TIf(_, _, _, _, _, _)
\* condition number j of an if (and those after it); all: every branch so far returns
TIf(P, c, x, d, j, all) ==
  IF 2 * j <= Len(d.c) THEN
    LET e == TLCEval(TE(P, c, x, d.c[2 * j - 1])) IN
    IF ~IsOk(e) THEN Fail(x, e)
    ELSE IF ~IsNum(e[2]) THEN Fail(x, Bad("condition type"))
    ELSE LET b == TLCEval(TBlock(P, c, x, d.c[2 * j])) IN
         IF ~IsOk(b.v) THEN b ELSE TIf(P, c, x, d, j + 1, all /\ b.rets)
  ELSE IF Len(d.c) = 2 * j - 1 THEN
    LET b == TLCEval(TBlock(P, c, x, d.c[2 * j - 1])) IN IF ~IsOk(b.v) THEN b ELSE Res(OK, x.env, all /\ b.rets)
  ELSE Fine(x)

RECURSIVE TCases(_, _, _, _, _, _, _)
TCases(P, c, x, d, t, j, all) ==
  IF 2 * j + 1 <= Len(d.c) THEN
    LET e == TLCEval(TE(P, c, [x EXCEPT !.ec = TRUE], d.c[2 * j])) IN
    IF ~IsOk(e) THEN Fail(x, e)
    ELSE IF e[2] # t THEN Fail(x, Bad("case type"))
    ELSE IF ~ConstForm(P, x, d.c[2 * j]) THEN Fail(x, Bad("no constant in a case"))
    ELSE IF ~IsInt(t) THEN Fail(x, Unk("form of a case"))
    ELSE IF ~IsOk(ConstVal(P, c, x, d.c[2 * j])) THEN Fail(x, ConstVal(P, c, x, d.c[2 * j]))
    ELSE LET b == TLCEval(TBlock(P, c, x, d.c[2 * j + 1])) IN
         IF ~IsOk(b.v) THEN b ELSE TCases(P, c, x, d, t, j + 1, all /\ b.rets)
  ELSE IF d.def = 0 THEN Fine(x)
  ELSE LET b == TLCEval(TBlock(P, c, x, d.def)) IN IF ~IsOk(b.v) THEN b ELSE Res(OK, x.env, all /\ b.rets)

TS(P, c, x, n) ==
  LET d == P.n[n]
      E(y, m) == TLCEval(TE(P, c, y, m))
  IN
  CASE d.k = "block" -> TBlock(P, c, x, n)
    [] d.k = "ex" ->
         IF P.n[d.c[1]].k = "unreachable" THEN Res(OK, x.env, TRUE)
         ELSE LET e == E(x, d.c[1]) IN IF IsOk(e) THEN Fine(x) ELSE Fail(x, e)
    [] d.k = "decl" -> TDecl(P, c, x, n, FALSE)
    [] d.k = "mdecl" ->
         LET e == E(x, d.c[1]) IN
         IF ~IsOk(e) THEN Fail(x, e)
         ELSE IF ~IsList(e[2]) THEN Fail(x, Bad("declaration of several variables from one value"))
         ELSE IF Len(e[2][2]) # Len(d.ss) THEN Fail(x, Bad("number of declared variables"))
         ELSE IF HasDup(d.ss) \/ (\E i \in DOMAIN d.ss : ImportOf(c, x.k, d.ss[i]) # 0) THEN Fail(x, Unk("names of a declaration"))
         ELSE Res(OK, x.env \o TLCEval([i \in DOMAIN d.ss |-> [n |-> d.ss[i], t |-> e[2][2][i], const |-> d.const]]), FALSE)
    [] d.k = "asg" ->
         LET r == E(x, d.c[2]) IN
         IF ~IsOk(r) THEN Fail(x, r)
         ELSE LET l == E([x EXCEPT !.en = TRUE], d.c[1])  tn == P.n[d.c[1]] IN
           IF ~IsOk(l) THEN Fail(x, l)
           ELSE IF ~(tn.k \in LocKinds \/ tn.k = "comma" \/ (tn.k = "pre" /\ tn.op = "*")) THEN Fail(x, Unk("target"))
           ELSE IF tn.k = "comma" /\ (\E i \in DOMAIN tn.c : ~IsLocNode(P.n[tn.c[i]])) THEN Fail(x, Unk("target"))
           ELSE IF r[2] = Void THEN Fail(x, Bad("void value"))
           ELSE LET q == EqU(c, l[2], r[2]) IN
             IF q = "no" THEN Fail(x, Bad("assigned type")) ELSE IF q = "unk" THEN Fail(x, Unk("union")) ELSE Fine(x)
    [] d.k = "if" -> TIf(P, c, x, d, 1, TRUE)
    [] d.k = "for" ->
         LET i == IF d.init = 0 THEN Fine(x) ELSE TLCEval(TS(P, c, x, d.init)) IN
         IF ~IsOk(i.v) THEN i
         ELSE LET y == [x EXCEPT !.env = i.env]
                  e == IF d.cond = 0 THEN Good(I1) ELSE E(y, d.cond)
              IN IF ~IsOk(e) THEN Fail(x, e)
                 ELSE IF e[2] = Void THEN Fail(x, Unk("void condition"))
                 ELSE IF ~IsNum(e[2]) THEN Fail(x, Bad("condition type"))
                 ELSE LET u == IF d.upd = 0 THEN Fine(y) ELSE TLCEval(TS(P, c, y, d.upd)) IN
                   IF ~IsOk(u.v) THEN u
                   ELSE LET b == TBlock(P, c, [y EXCEPT !.loop = "yes"], d.b) IN
                     IF IsOk(b.v) THEN Fine(x) ELSE b
    [] d.k = "sw" ->
         LET e == E(x, d.c[1]) IN IF ~IsOk(e) THEN Fail(x, e) ELSE TCases(P, c, x, d, e[2], 1, TRUE)
    [] d.k = "ret" ->
         IF Len(d.c) = 0 THEN IF x.rt = Void THEN Res(OK, x.env, TRUE) ELSE Fail(x, Bad("return without value"))
         ELSE LET e == E(x, d.c[1]) IN
           IF ~IsOk(e) THEN Fail(x, e)
           ELSE IF e[2] # x.rt THEN Fail(x, Bad("returned type"))
           ELSE IF e[2] = Void THEN Fail(x, Unk("return of a void value"))
           ELSE Res(OK, x.env, TRUE)
    [] d.k \in {"brk", "cont"} ->
         IF x.loop = "no" THEN Fail(x, Bad("break or continue outside of a loop"))
         ELSE IF x.loop = "blk" THEN Fail(x, Unk("break out of a block expression")) ELSE Fine(x)
    [] d.k = "macro" -> IF MacroOn(d) THEN TSs(P, c, x, d.c, 1) ELSE Fine(x)
    [] d.k \in {"func", "extern", "struct", "union", "alias", "tparam", "import"} -> Fail(x, Bad("declaration inside of a function"))
    [] OTHER -> Fail(x, Unk("statement"))

------------------------------------------------------------------------------
GlobalCtx(k) == [k |-> k, env |-> <<>>, rt |-> Void, loop |-> "no", ec |-> FALSE, en |-> FALSE]

TFunc(P, c, x, nd) ==
  LET d == P.n[nd]
      t == FnType(P, c, x.k, nd)
  IN IF t = BadType \/ t[3] = BadType \/ (\E i \in DOMAIN t[2] : t[2][i] = BadType) THEN Bad("type")
     ELSE IF \E i \in DOMAIN t[2] : t[2][i] = Void THEN Bad("void parameter")
     ELSE IF HasDup(d.ps) THEN Bad("two parameters with one name") ELSE IF \E i \in DOMAIN t[2] : IsList(t[2][i]) THEN Unk("parameters")
     ELSE IF \E i \in DOMAIN d.ps : ImportOf(c, x.k, d.ps[i]) # 0 THEN Unk("variable named like a module")
     ELSE LET b == TLCEval(TSs(P, c, [x EXCEPT !.env = @ \o TLCEval([i \in DOMAIN d.ps |-> [n |-> d.ps[i], t |-> t[2][i], const |-> FALSE]]),
                                              !.rt = t[3]], P.n[d.b].c, 1))
          IN IF ~IsOk(b.v) THEN b.v
             ELSE IF t[3] # Void /\ ~b.rets THEN Bad("missing return") ELSE OK

RECURSIVE TDecls(_, _, _, _, _)
TDecls(P, c, x, ds, i) ==
  IF i > Len(ds) THEN OK
  ELSE LET d == P.n[ds[i]] IN
    CASE d.k = "decl" -> LET r == TLCEval(TDecl(P, c, x, ds[i], TRUE)) IN
                         IF ~IsOk(r.v) THEN r.v ELSE TDecls(P, c, [x EXCEPT !.env = r.env], ds, i + 1)
      [] d.k = "func" -> LET v == TLCEval(TFunc(P, c, x, ds[i])) IN IF ~IsOk(v) THEN v ELSE TDecls(P, c, x, ds, i + 1)
      [] d.k = "extern" ->
           LET t == FnType(P, c, x.k, ds[i])  e == ExtOf(c, d.s) IN
           IF t[3] = BadType \/ (\E j \in DOMAIN t[2] : t[2][j] = BadType \/ t[2][j] = Void) THEN Bad("type")
           ELSE IF d.s = "printf" /\ d.var THEN IF t = <<"fn", <<Str>>, I32>> THEN TDecls(P, c, x, ds, i + 1) ELSE Unk("type of printf")
           ELSE IF e[2] = 0 \/ d.var THEN Unk("extern function")
           ELSE IF ~SameC(t, FnType(P, c, e[2], e[3])) THEN Unk("type of an extern function")
           ELSE TDecls(P, c, x, ds, i + 1)
      [] d.k \in {"struct", "union", "alias", "tparam", "import"} -> TDecls(P, c, x, ds, i + 1)
      [] d.k = "mdecl" -> Bad("statement outside of a function")
      [] d.k \in {"ex", "asg", "if", "for", "sw", "block", "ret", "brk", "cont"} -> Bad("statement outside of a function")
      [] OTHER -> Unk("declaration")

\* type of the global nd of instance k
GlobEnv(P, c, k, nd, z) ==
  LET ds == SelectSeq(Decls(P, P.mods[c.insts[k].mod].ds, 1), LAMBDA i : P.n[i].k = "decl")
      RECURSIVE Go(_, _)
      Go(x, i) == LET r == TLCEval(TDecl(P, c, x, ds[i], TRUE)) IN
                  IF ~IsOk(r.v) THEN r.v
                  ELSE IF ds[i] = nd THEN Good(r.env[Len(r.env)].t) ELSE Go([x EXCEPT !.env = r.env], i + 1)
  IN Go(GlobalCtx(k), 1)

HasDupExt(c) == \E i, j \in DOMAIN c.ext : i < j /\ c.ext[i][1] = c.ext[j][1]
NamesOf(P, c, k, kinds) == LET ds == Decls(P, P.mods[c.insts[k].mod].ds, 1)
                           IN SelectSeq([i \in DOMAIN ds |-> IF P.n[ds[i]].k \in kinds THEN P.n[ds[i]].s ELSE ""], LAMBDA s : s # "")
RECURSIVE TInsts(_, _, _)
\* an instance is numbered before the ones that it imports; they are checked first
TInsts(P, c, k) ==
  IF k = 0 THEN OK
  ELSE IF HasDup(NamesOf(P, c, k, {"func", "decl"})) \/ HasDup(NamesOf(P, c, k, {"struct", "union", "alias", "tparam"}))
          \/ (\E a \in DOMAIN NamesOf(P, c, k, {"func", "decl"}), b \in DOMAIN NamesOf(P, c, k, {"extern"}) :
                 NamesOf(P, c, k, {"func", "decl"})[a] = NamesOf(P, c, k, {"extern"})[b])
  THEN Bad("name declared twice")
  ELSE IF HasDup(NamesOf(P, c, k, {"extern"})) \/ HasDup(NamesOf(P, c, k, {"import"}))
  THEN Unk("name declared twice")
  ELSE LET v == TLCEval(TDecls(P, c, GlobalCtx(k), Decls(P, P.mods[c.insts[k].mod].ds, 1), 1)) IN
       IF IsOk(v) THEN TInsts(P, c, k - 1) ELSE v

Verdict(P, c) ==
  IF \E i \in DOMAIN P.n : P.n[i].k = "macro" /\ P.n[i].mc[1] = "name" /\ P.n[i].mc[2] \notin PlatformNames THEN Bad("unknown platform")
  ELSE IF c.badTypes THEN Bad("unknown type")
  ELSE IF c.recursive THEN Bad("type that contains itself")
  ELSE IF HasDupExt(c) THEN Unk("public name declared twice")
  ELSE IF \E j \in DOMAIN c.sts : HasDup(c.sts[j].fs) THEN Bad("duplicate field")
  ELSE LET v == TInsts(P, c, Len(c.insts))
           m == FunOf(c, 1, "main")
       IN IF ~IsOk(v) THEN v
          ELSE IF m = 0 THEN Unk("no main")
          ELSE IF P.n[m].k # "func" \/ Len(P.n[m].pts) # 0 \/ P.n[m].rt \notin {Void, I32} THEN Unk("type of main")
          ELSE OK
=============================================================================
