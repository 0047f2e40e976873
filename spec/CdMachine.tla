----------------------------- MODULE CdMachine -----------------------------
(***************************************************************************)
(* The abstract machine that gives candice programs their meaning: a       *)
(* small step machine with a control stack, a value stack, an environment  *)
(* of scopes and a byte addressed memory of objects.                       *)
(*                                                                         *)
(*  s.ctl  what remains to be done, first item first.  Work items are      *)
(*         <<"E",n>> evaluate n to a value, <<"L",n>> evaluate n to a      *)
(*         location, <<"S",n>> execute n; the others continue a            *)
(*         construct or mark where a scope, loop, block expression or call *)
(*         ends.                                                           *)
(*  s.vs   values [t,c] (type, memory cells) and locations [t,r,i,s,f]     *)
(*  s.env  bindings of the running function, innermost last                *)
(*  s.stk  objects of the scopes that are alive, s.hp heap, globals,       *)
(*         captured variables and string literals                          *)
(*  s.gl   bindings of globals, s.cap of captured variables, s.out bytes   *)
(*                                                                         *)
(* A cell is a byte 0..255, -1 (indeterminate), 1000+b (byte b of a float) *)
(* or at least 10^6 (part of a pointer).  Programs whose behaviour candice *)
(* leaves to the machine (out of bounds, use after free, division by zero, *)
(* reading what was never written, ...) end with status "ub": the spec     *)
(* says nothing about them.  A program that CdStatic accepts never ends    *)
(* "stuck" (checked by CdRun).                                             *)
(***************************************************************************)
EXTENDS CdTypes

PT == 1000000
HeapTag == PT
StackTag == PT + 1
FnTag == PT + 2

Undef(n) == TLCEval([i \in 1..n |-> -1])
PtrCells(lv) == <<IF lv.r = "s" THEN StackTag ELSE HeapTag, PT + lv.i, PT + lv.s, PT + lv.f, PT, PT, PT, PT>>
FnCells(k, nd) == <<FnTag, PT + k, PT + nd, PT, PT, PT, PT, PT>>
NullCells == <<0, 0, 0, 0, 0, 0, 0, 0>>
IsObjPtr(c) == c[1] = HeapTag \/ c[1] = StackTag
\* the location that a pointer value points to
Pointee(v) == [t |-> v.t[2], r |-> IF v.c[1] = StackTag THEN "s" ELSE "h", i |-> v.c[2] - PT, s |-> v.c[3] - PT, f |-> v.c[4] - PT]

AbsI(x) == IF x < 0 THEN -x ELSE x

IsByteSeq(c) == \A i \in DOMAIN c : c[i] \in 0..255
\* may a value of scalar type t consist of these cells?
GoodScalar(t, c) ==
  CASE IsInt(t) -> IF t[2] = 1 THEN c[1] \in {0, 1} ELSE IsByteSeq(c)
    [] IsFlt(t) -> IsByteSeq(c) \/ c = NaN(Len(c))
    [] IsPtr(t) -> c = NullCells \/ IsObjPtr(c)
    [] IsFn(t) -> c[1] = FnTag
    [] OTHER -> TRUE

Val(t, c) == [t |-> t, c |-> c]
BoolV(b) == [t |-> I1, c |-> IF b THEN <<1>> ELSE <<0>>]
VoidV == [t |-> Void, c |-> <<>>]

------------------------------------------------------------------------------
Top(s) == s.vs[Len(s.vs)]
Nth(s, k) == s.vs[Len(s.vs) - k]          \* k values below the top
PopN(s, k) == SubSeq(s.vs, 1, Len(s.vs) - k)
UB(s, why) == [s EXCEPT !.status = "ub", !.why = why]
Stuck(s, why) == [s EXCEPT !.status = "stuck", !.why = why]
Push(s, v) == [s EXCEPT !.vs = Append(@, v)]
\* replace the first control item
Do(s, items) == [s EXCEPT !.ctl = items \o Tail(@)]
Next1(s) == [s EXCEPT !.ctl = Tail(@)]
PopPush(s, k, v) == [s EXCEPT !.vs = Append(SubSeq(@, 1, Len(@) - k), v), !.ctl = Tail(@)]
PushV(s, v) == [s EXCEPT !.vs = Append(@, v), !.ctl = Tail(@)]

\* memory -----------------------------------------------------------------
Valid(s, lv, n) ==
  /\ lv.f >= 0
  /\ \/ lv.r = "s" /\ lv.i \in 1..Len(s.stk) /\ s.stk[lv.i].s = lv.s /\ lv.f + n <= Len(s.stk[lv.i].c)
     \/ lv.r = "h" /\ lv.i \in 1..Len(s.hp) /\ s.hp[lv.i].live /\ lv.f + n <= Len(s.hp[lv.i].c)
Cells(s, lv, n) == IF lv.r = "s" THEN SubSeq(s.stk[lv.i].c, lv.f + 1, lv.f + n)
                   ELSE SubSeq(s.hp[lv.i].c, lv.f + 1, lv.f + n)
Splice(old, f, new) == SubSeq(old, 1, f) \o new \o SubSeq(old, f + Len(new) + 1, Len(old))
Write(s, lv, cells) ==
  IF lv.r = "s" THEN [s EXCEPT !.stk[lv.i].c = Splice(@, lv.f, cells)]
  ELSE [s EXCEPT !.hp[lv.i].c = Splice(@, lv.f, cells)]
Writable(s, lv, n) == Valid(s, lv, n) /\ (lv.r = "h" => ~s.hp[lv.i].ro)

\* a new object of the innermost scope, its location
NewStk(s, cells) == [s EXCEPT !.stk = Append(@, [s |-> s.ser, c |-> cells]), !.ser = @ + 1]
StkLoc(s, t) == [t |-> t, r |-> "s", i |-> Len(s.stk), s |-> s.stk[Len(s.stk)].s, f |-> 0]
NewHeap(s, cells, kind) == [s EXCEPT !.hp = Append(@, [c |-> cells, live |-> TRUE, ro |-> kind = "lit", kind |-> kind])]
HeapLoc(s, t) == [t |-> t, r |-> "h", i |-> Len(s.hp), s |-> 0, f |-> 0]

BindLoc(s, name, lv) == [s EXCEPT !.env = Append(@, [n |-> name, k |-> "var", b |-> lv])]
BindConst(s, name, v) == [s EXCEPT !.env = Append(@, [n |-> name, k |-> "const", b |-> v])]
\* declare a variable in the innermost scope
Declare(s, c, name, t, cells) ==
  LET n == SizeOf(c, t)
      full == IF Len(cells) < n THEN cells \o Undef(n - Len(cells)) ELSE cells
      s1 == NewStk(s, full)
  IN BindLoc(s1, name, StkLoc(s1, t))

RECURSIVE FindRec(_, _, _)
FindRec(env, name, i) == IF i = 0 THEN 0 ELSE IF env[i].n = name THEN i ELSE FindRec(env, name, i - 1)
FindLocal(s, name) == FindRec(s.env, name, Len(s.env))
RECURSIVE FindGlobRec(_, _, _, _)
FindGlobRec(gl, k, name, i) == IF i = 0 THEN 0 ELSE IF gl[i].inst = k /\ gl[i].n = name THEN i ELSE FindGlobRec(gl, k, name, i - 1)
FindGlob(s, k, name) == FindGlobRec(s.gl, k, name, Len(s.gl))

\* unwinding --------------------------------------------------------------
RECURSIVE Unwind(_, _)
Unwind(ctl, tags) == IF Len(ctl) = 0 THEN <<>> ELSE IF ctl[1][1] \in tags THEN ctl ELSE Unwind(Tail(ctl), tags)
\* leave everything that was entered after the marker m = <<tag, n, |env|, |stk|, |vs|>>
Leave(s, m) == [s EXCEPT !.env = SubSeq(@, 1, m[3]), !.stk = SubSeq(@, 1, m[4]), !.vs = SubSeq(@, 1, m[5])]
Mark(s, tag, n) == <<tag, n, Len(s.env), Len(s.stk), Len(s.vs)>>

------------------------------------------------------------------------------
(* operators *)
ArithI(op, t, a, b) ==       \* <<ok, cells>>
  LET n == Len(a) IN
  IF t[2] = 1 THEN
    CASE op \in {"+", "-", "^"} -> <<TRUE, <<(a[1] + b[1]) % 2>>>>
      [] op \in {"*", "&"} -> <<TRUE, <<a[1] * b[1]>>>>
      [] op = "|" -> <<TRUE, <<IF a[1] + b[1] > 0 THEN 1 ELSE 0>>>>
      [] OTHER -> <<FALSE, <<>>>>
  ELSE
  CASE op = "+" -> <<TRUE, AddB(a, b)>>
    [] op = "-" -> <<TRUE, SubB(a, b)>>
    [] op = "*" -> <<TRUE, MulB(a, b)>>
    [] op = "&" -> <<TRUE, AndB(a, b)>>
    [] op = "|" -> <<TRUE, OrB(a, b)>>
    [] op = "^" -> <<TRUE, XorB(a, b)>>
    [] op \in {"/", "%"} ->
         IF IsZeroB(b) \/ (~IsUns(t) /\ DivOverflows(a, b)) THEN <<FALSE, <<>>>>
         ELSE <<TRUE, IF op = "/" THEN IF IsUns(t) THEN UDivB(a, b) ELSE SDivB(a, b)
                      ELSE IF IsUns(t) THEN URemB(a, b) ELSE SRemB(a, b)>>
    [] OTHER -> <<FALSE, <<>>>>

\* the shift amount b (of integer type tb) as a number, -1 when it is not in 0..width-1
ShiftAmount(t, b) == IF ~IsByteSeq(b) \/ t[2] = 1 THEN -1
                     ELSE IF Small(b) /\ ToNat(b) < t[2] THEN ToNat(b) ELSE -1

CmpOps == {"==", "!=", "<", "<=", ">", ">="}
Cmp(op, lt, eq) ==
  CASE op = "==" -> eq [] op = "!=" -> ~eq
    [] op = "<" -> lt [] op = "<=" -> lt \/ eq
    [] op = ">" -> ~lt /\ ~eq [] op = ">=" -> ~lt

\* the characters of the string at a pointer, <<ok, bytes>>
RECURSIVE CStrRec(_, _)
CStrRec(cells, i) == IF i > Len(cells) \/ cells[i] \notin 0..255 THEN <<FALSE, <<>>>>
                     ELSE IF cells[i] = 0 THEN <<TRUE, SubSeq(cells, 1, i - 1)>>
                     ELSE CStrRec(cells, i + 1)
CStr(s, v) ==
  IF ~IsObjPtr(v.c) THEN <<FALSE, <<>>>>
  ELSE LET p == Pointee(v) IN
       IF ~Valid(s, p, 1) THEN <<FALSE, <<>>>>
       ELSE LET all == IF p.r = "s" THEN s.stk[p.i].c ELSE s.hp[p.i].c
            IN CStrRec(SubSeq(all, p.f + 1, Len(all)), 1)
RECURSIVE StrLt(_, _, _)
StrLt(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE StrLt(a, b, i + 1)

\* truth value of a scalar: <<ok, bool>>
Truth(v) ==
  CASE IsFlt(v.t) -> <<TRUE, FTrue(v.c)>>
    [] IsInt(v.t) -> <<TRUE, ~IsZeroB(v.c)>>
    [] IsPtr(v.t) -> <<TRUE, v.c # NullCells>>
    [] OTHER -> <<FALSE, FALSE>>

\* pointer p moved by k elements (k a TLC integer)
MovePtr(c, v, k) == [v EXCEPT !.c[4] = @ + k * SizeOf(c, v.t[2])]
\* an index or offset as TLC integer, <<ok, k>>
Offset(v) == LET b == v.c IN
  IF v.t[2] = 1 THEN <<TRUE, b[1]>>
  ELSE IF IsUns(v.t) THEN IF Small(b) /\ ToNat(b) < 1000000 THEN <<TRUE, ToNat(b)>> ELSE <<FALSE, 0>>
  ELSE IF SmallS(b) /\ AbsI(ToIntS(b)) < 1000000 THEN <<TRUE, ToIntS(b)>> ELSE <<FALSE, 0>>

\* l op r, both values: <<status, why, value>>
BinOp(s, c, op, l, r) ==
  IF IsPtr(l.t) /\ IsInt(r.t) THEN
    LET k == Offset(r) IN
    IF ~k[1] \/ ~IsObjPtr(l.c) THEN <<"ub", "pointer offset", l>>
    ELSE LET p == MovePtr(c, l, IF op = "+" THEN k[2] ELSE -k[2]) IN
         \* one past the end of the object is the last valid address
         IF p.c[4] < PT \/ ~Valid(s, [Pointee(p) EXCEPT !.t = I8], 0) THEN <<"ub", "pointer out of bounds", l>> ELSE <<"run", "", p>>
  ELSE IF op \in {"<<", ">>"} THEN
    LET k == ShiftAmount(l.t, r.c) IN
    IF k < 0 THEN <<"ub", "shift", l>>
    ELSE <<"run", "", Val(l.t, IF op = "<<" THEN ShlB(l.c, k) ELSE ShrB(l.c, k))>>
  ELSE IF op \in CmpOps THEN
    IF IsPtr(l.t) THEN
      IF l.t = Str THEN
        LET a == CStr(s, l)  b == CStr(s, r) IN
        IF ~a[1] \/ ~b[1] THEN <<"ub", "string", l>>
        ELSE <<"run", "", BoolV(Cmp(op, StrLt(a[2], b[2], 1), a[2] = b[2]))>>
      ELSE IF op \in {"==", "!="} THEN <<"run", "", BoolV(Cmp(op, FALSE, l.c = r.c))>>
      ELSE IF IsObjPtr(l.c) /\ IsObjPtr(r.c) /\ SubSeq(l.c, 1, 3) = SubSeq(r.c, 1, 3)
           THEN <<"run", "", BoolV(Cmp(op, l.c[4] < r.c[4], l.c[4] = r.c[4]))>>
           ELSE <<"ub", "order of unrelated pointers", l>>
    ELSE IF IsFlt(l.t) THEN <<"run", "", BoolV(FTest(op, l.c, r.c))>>
    ELSE IF IsInt(l.t) THEN
      <<"run", "", BoolV(Cmp(op, IF IsUns(l.t) \/ l.t[2] = 1 THEN ULt(l.c, r.c) ELSE SLt(l.c, r.c), l.c = r.c))>>
    ELSE <<"stuck", "comparison", l>>
  ELSE IF IsPtr(l.t) /\ op = "+" THEN     \* concatenation, the result is a new heap object
    LET a == CStr(s, l)  b == CStr(s, r) IN
    IF ~a[1] \/ ~b[1] THEN <<"ub", "string", l>> ELSE <<"concat", "", Val(l.t, a[2] \o b[2] \o <<0>>)>>
  ELSE IF IsFlt(l.t) THEN
    IF op \notin FOps THEN <<"stuck", "operator", l>>
    ELSE IF op = "%" /\ FRemTooFar(l.c, r.c) THEN <<"ub", "remainder of numbers that are far apart", l>>
    ELSE <<"run", "", Val(l.t, FArith(op, l.c, r.c))>>
  ELSE IF IsInt(l.t) THEN
    LET q == ArithI(op, l.t, l.c, r.c) IN
    IF q[1] THEN <<"run", "", Val(l.t, q[2])>> ELSE <<"ub", "division", l>>
  ELSE <<"stuck", "operator", l>>

\* v as t: <<status, why, value>>.  Arrays decay to a pointer before they get here.
Convert(c, v, t) ==
  LET n == SizeOf(c, t) IN
  CASE IsInt(v.t) /\ IsInt(t) ->
         LET wide == IF IsUns(v.t) \/ v.t[2] = 1 THEN ZExt(v.c, n) ELSE SExt(v.c, n)
         IN <<"run", "", Val(t, IF t[2] = 1 THEN <<v.c[1] % 2>> ELSE wide)>>
    [] IsInt(v.t) /\ IsFlt(t) -> <<"run", "", Val(t, FFromInt(n, v.c, IsUns(v.t) \/ v.t[2] = 1))>>
    [] IsFlt(v.t) /\ IsInt(t) ->
         LET q == FToInt(v.c, n, IsUns(t)) IN
         IF t[2] = 1 \/ ~q[1] THEN <<"ub", "float out of range", v>> ELSE <<"run", "", Val(t, q[2])>>
    [] IsFlt(v.t) /\ IsFlt(t) -> <<"run", "", Val(t, FToF(n, v.c))>>
    [] IsPtr(v.t) /\ IsPtr(t) -> <<"run", "", Val(t, v.c)>>
    [] IsInt(v.t) /\ IsPtr(t) -> IF IsZeroB(v.c) THEN <<"run", "", Val(t, NullCells)>> ELSE <<"ub", "integer to pointer", v>>
    [] IsPtr(v.t) /\ IsInt(t) -> IF v.c = NullCells THEN <<"run", "", Val(t, TLCEval([i \in 1..n |-> 0]))>> ELSE <<"ub", "pointer to integer", v>>
    [] OTHER -> <<"stuck", "cast", v>>

\* text that @print writes for a value: <<ok, bytes>>
Text(s, c, v) ==
  CASE IsInt(v.t) -> <<TRUE, IF IsUns(v.t) \/ v.t[2] = 1 THEN UDec(v.c) ELSE SDec(v.c)>>
    [] IsFlt(v.t) -> FText(v.c)
    [] v.t = Str -> CStr(s, v)
    [] OTHER -> <<FALSE, <<>>>>
RECURSIVE PrintRec(_, _, _, _, _)
PrintRec(s, c, vals, i, out) ==
  IF i > Len(vals) THEN <<TRUE, out>>
  ELSE LET t == Text(s, c, vals[i]) IN
       IF ~t[1] THEN t ELSE PrintRec(s, c, vals, i + 1, (IF i > 1 THEN Append(out, 32) ELSE out) \o t[2])

------------------------------------------------------------------------------
(* steps: N(i) is node i of the program, c its context *)

Apply(s, r) ==   \* the outcome of an operator that consumed k operands becomes the state
  r

\* load the location on top of the value stack
LoadTop(s, c) ==
  LET lv == Top(s)  n == SizeOf(c, lv.t) IN
  IF ~Valid(s, lv, n) THEN UB(s, "invalid read")
  ELSE LET cells == Cells(s, lv, n) IN
       IF ~IsAgg(lv.t) /\ ~IsArr(lv.t) /\ ~GoodScalar(lv.t, cells) THEN UB(s, "indeterminate value")
       ELSE PopPush(s, 1, Val(lv.t, cells))

\* the function value that a name denotes in instance k, or a global
GlobalLoc(s, P, c, k, name) ==       \* <<kind, thing>>
  LET g == FindGlob(s, k, name) IN
  IF g # 0 THEN <<s.gl[g].k, s.gl[g].b>>
  ELSE LET nd == FunOf(c, k, name) IN
       IF nd # 0 THEN <<"const", Val(FnType(P, c, k, nd), FnCells(k, nd))>> ELSE <<"none", 0>>
NameRef(s, P, c, name) ==
  LET e == FindLocal(s, name) IN
  IF e # 0 THEN <<s.env[e].k, s.env[e].b>> ELSE GlobalLoc(s, P, c, s.inst, name)

\* is n of the form module.member?
ModuleOf(N(_), c, k, n) == LET d == N(n) IN
  IF d.k = "dot" /\ N(d.c[1]).k = "id" THEN ImportOf(c, k, N(d.c[1]).s) ELSE 0

LocKinds == {"id", "idx", "dot"}
IsLocNode(d) == d.k \in LocKinds \/ (d.k = "pre" /\ d.op \in {"*", "++", "--"})

RECURSIVE Items(_, _)
Items(tag, ns) == IF Len(ns) = 0 THEN <<>> ELSE <<<<tag, ns[1]>>>> \o Items(tag, Tail(ns))

\* push the value or the location of a reference
PushRef(s, c, ref, asLoc) ==
  IF ref[1] = "none" THEN Stuck(s, "undefined name")
  ELSE IF ref[1] = "const" THEN
    IF asLoc THEN LET s1 == NewStk(s, ref[2].c) IN PushV(s1, StkLoc(s1, ref[2].t)) ELSE PushV(s, ref[2])
  ELSE IF asLoc THEN PushV(s, ref[2]) ELSE LoadTop([Push(s, ref[2]) EXCEPT !.ctl = @], c)

EvalStep(s, P, c, n) ==
  LET N(i) == P.n[i]
      d == P.n[n]
  IN
  CASE d.k = "int" -> LET v == Digits(d.d, d.base, 8)  t == LitType(v)
                      IN PushV(s, Val(t, SubSeq(v, 1, t[2] \div 8)))
    [] d.k = "char" -> PushV(s, Val(I8, <<d.v>>))
    [] d.k = "flt" -> PushV(s, Val(F32, FLiteral(4, d.d, d.f)))
    [] d.k = "str" -> LET s1 == NewHeap(s, Append(d.v, 0), "lit") IN PushV(s1, Val(Str, PtrCells(HeapLoc(s1, I8))))
    [] d.k = "id" -> PushRef(s, c, NameRef(s, P, c, d.s), FALSE)
    [] d.k = "dot" /\ ModuleOf(N, c, s.inst, n) # 0 ->
         PushRef(s, c, GlobalLoc(s, P, c, ModuleOf(N, c, s.inst, n), d.s), FALSE)
    [] d.k \in {"idx", "dot"} \/ (d.k = "pre" /\ d.op \in {"*", "++", "--"}) -> Do(s, <<<<"L", n>>, <<"load">>>>)
    [] d.k = "pre" /\ d.op = "&" -> Do(s, <<<<"L", d.c[1]>>, <<"addr">>>>)
    [] d.k = "pre" -> Do(s, <<<<"E", d.c[1]>>, <<"un", d.op>>>>)
    [] d.k = "bin" /\ d.op \in {"&&", "||"} -> Do(s, <<<<"E", d.c[1]>>, <<"sc", n>>>>)
    [] d.k = "bin" -> Do(s, <<<<"E", d.c[1]>>, <<"E", d.c[2]>>, <<"bin", d.op>>>>)
    [] d.k = "cast" -> Do(s, <<<<"L", d.c[1]>>, <<"cast", d.t>>>>)
    [] d.k = "sizeof" -> PushV(s, Val(I32, FromNat(SizeOf(c, Resolve(c, s.inst, d.t)), 4)))
    [] d.k = "alloc" -> Do(s, <<<<"E", d.c[1]>>, <<"alloc", d.t>>>>)
    [] d.k = "realloc" -> Do(s, <<<<"E", d.c[1]>>, <<"E", d.c[2]>>, <<"realloc">>>>)
    [] d.k = "free" -> Do(s, <<<<"E", d.c[1]>>, <<"free">>>>)
    [] d.k = "unreachable" -> UB(s, "unreachable")
    [] d.k = "print" -> Do(s, Items("E", d.c) \o <<<<"print", Len(d.c)>>>>)
    [] d.k = "comma" -> Do(s, Items("E", d.c) \o <<<<"tuple", Len(d.c)>>>>)
    [] d.k = "slit" ->
         LET k == IF d.m = "" THEN s.inst ELSE ImportOf(c, s.inst, d.m)
             t == Resolve(c, k, <<"name", d.s>>)
             s1 == NewStk(s, Undef(SizeOf(c, t)))
         IN [s1 EXCEPT !.ctl = <<<<"slit", n, 1>>>> \o Tail(@), !.vs = Append(@, StkLoc(s1, t))]
    [] d.k = "alit" ->
         LET t == Resolve(c, s.inst, d.t)
             s1 == NewStk(s, Undef(SizeOf(c, t)))
         IN [s1 EXCEPT !.ctl = <<<<"alit", n, 1>>>> \o Tail(@), !.vs = Append(@, StkLoc(s1, t))]
    [] d.k = "lam" -> Do(s, <<<<"lam", n>>>>)
    [] d.k = "blk" -> Do(s, <<<<"S", d.b>>, Mark(s, "blk", n)>>)
    [] d.k = "call" ->
         LET f == N(d.c[1])  args == Tail(d.c) IN
         IF f.k = "dot" /\ ModuleOf(N, c, s.inst, d.c[1]) = 0
         THEN Do(s, <<<<"L", f.c[1]>>, <<"sel", n>>>>)
         ELSE Do(s, <<<<"E", d.c[1]>>>> \o Items("E", args) \o <<<<"call", Len(args)>>>>)
    [] OTHER -> Stuck(s, "expression")

LocStep(s, P, c, n) ==
  LET N(i) == P.n[i]
      d == P.n[n]
  IN
  CASE d.k = "id" -> PushRef(s, c, NameRef(s, P, c, d.s), TRUE)
    [] d.k = "dot" /\ ModuleOf(N, c, s.inst, n) # 0 ->
         PushRef(s, c, GlobalLoc(s, P, c, ModuleOf(N, c, s.inst, n), d.s), TRUE)
    [] d.k = "dot" -> Do(s, <<<<"L", d.c[1]>>, <<"fld", d.s>>>>)
    [] d.k = "idx" -> Do(s, <<<<"L", d.c[1]>>, <<"E", d.c[2]>>, <<"idx">>>>)
    [] d.k = "pre" /\ d.op = "*" -> Do(s, <<<<"E", d.c[1]>>, <<"deref">>>>)
    [] d.k = "pre" /\ d.op \in {"++", "--"} -> Do(s, <<<<"L", d.c[1]>>, <<"incr", d.op>>>>)
    [] OTHER -> Do(s, <<<<"E", n>>, <<"temp">>>>)

StmtStep(s, P, c, n) ==
  LET d == P.n[n] IN
  CASE d.k = "block" -> Do(s, Items("S", d.c) \o <<Mark(s, "scope", 0)>>)
    [] d.k = "ex" -> Do(s, <<<<"E", d.c[1]>>, <<"drop">>>>)
    [] d.k = "decl" -> Do(s, <<<<"E", d.c[1]>>, <<"decl", n>>>>)
    [] d.k = "mdecl" -> Do(s, <<<<"E", d.c[1]>>, <<"mdecl", n>>>>)
    [] d.k = "asg" ->
         LET l == P.n[d.c[1]] IN
         IF l.k = "comma" THEN Do(s, Items("L", l.c) \o <<<<"E", d.c[2]>>, <<"mstore", Len(l.c)>>>>)
         ELSE Do(s, <<<<"L", d.c[1]>>, <<"E", d.c[2]>>, <<"store">>>>)
    [] d.k = "if" -> Do(s, <<<<"E", d.c[1]>>, <<"if", n, 1>>>>)
    [] d.k = "for" ->
         Do(s, (IF d.init = 0 THEN <<>> ELSE <<<<"S", d.init>>>>) \o <<<<"fcond", n>>, Mark(s, "scope", 0)>>)
    [] d.k = "sw" -> Do(s, <<<<"E", d.c[1]>>, <<"swc", n, 1>>>>)
    [] d.k = "ret" -> IF Len(d.c) = 0 THEN Do(s, <<<<"return", 0>>>>) ELSE Do(s, <<<<"E", d.c[1]>>, <<"return", 1>>>>)
    [] d.k = "brk" ->
         LET u == Unwind(s.ctl, {"loop"}) IN
         IF Len(u) = 0 THEN Stuck(s, "break") ELSE [Leave(s, u[1]) EXCEPT !.ctl = Tail(u)]
    [] d.k = "cont" ->
         LET u == Unwind(s.ctl, {"loop"}) IN
         IF Len(u) = 0 THEN Stuck(s, "continue") ELSE [Leave(s, u[1]) EXCEPT !.ctl = u]
    [] d.k = "macro" -> IF MacroOn(d) THEN Do(s, Items("S", d.c)) ELSE Next1(s)
    [] OTHER -> Stuck(s, "statement")

\* store value v in the location lv; a member of a union is stored at its start
Store(s, c, lv, v) ==
  IF ~Writable(s, lv, SizeOf(c, lv.t)) THEN UB(s, "invalid write") ELSE Write(s, lv, v.c)

RECURSIVE BindParams(_, _, _, _, _, _)
BindParams(s, c, names, types, vals, i) ==
  IF i > Len(names) THEN s
  ELSE BindParams(Declare(s, c, names[i], types[i], vals[i].c), c, names, types, vals, i + 1)

\* the C function printf: <<ok, bytes>>; any directive but these, or for another type, is left undefined
RECURSIVE Format(_, _, _, _, _, _)
Format(s, c, f, i, args, out) ==
  LET Is(k, b) == i + k <= Len(f) /\ f[i + k] = b
      v == Head(args)
      Int32 == args # <<>> /\ IsInt(v.t) /\ v.t[2] <= 32
      Int64 == args # <<>> /\ IsInt(v.t) /\ v.t[2] = 64
      As32 == Convert(c, v, I32)[3].c              \* smaller integers become i32
      More(n, bs) == Format(s, c, f, i + n, Tail(args), out \o bs)
      No == <<FALSE, <<>>>>
  IN IF i > Len(f) THEN <<TRUE, out>>
     ELSE IF f[i] # 37 THEN Format(s, c, f, i + 1, args, Append(out, f[i]))
     ELSE IF Is(1, 37) THEN Format(s, c, f, i + 2, args, Append(out, 37))
     ELSE IF Is(1, 100) THEN IF Int32 THEN More(2, SDec(As32)) ELSE No                     \* d
     ELSE IF Is(1, 117) THEN IF Int32 THEN More(2, UDec(As32)) ELSE No                     \* u
     ELSE IF Is(1, 99) THEN IF Int32 THEN More(2, <<As32[1]>>) ELSE No                     \* c
     ELSE IF Is(1, 108) /\ Is(2, 100) THEN IF Int64 THEN More(3, SDec(v.c)) ELSE No       \* ld
     ELSE IF Is(1, 108) /\ Is(2, 117) THEN IF Int64 THEN More(3, UDec(v.c)) ELSE No       \* lu
     ELSE IF Is(1, 46) /\ Is(2, 51) /\ Is(3, 102) THEN IF args # <<>> /\ IsFlt(v.t) /\ FText(v.c)[1] THEN More(4, FText(v.c)[2]) ELSE No     \* .3f
     ELSE IF Is(1, 115) THEN IF args = <<>> \/ v.t # Str THEN No                          \* s
                             ELSE LET q == CStr(s, v) IN IF q[1] THEN More(2, q[2]) ELSE No
     ELSE No
Printf(s, c, args) ==
  LET f == CStr(s, args[1])
      q == IF f[1] THEN Format(s, c, f[2], 1, Tail(args), <<>>) ELSE f
  IN IF ~q[1] THEN UB(s, "printf")
     ELSE [s EXCEPT !.out = @ \o q[2], !.vs = Append(@, Val(I32, FromInt(Len(q[2]), 4))), !.ctl = Tail(@)]

RECURSIVE Enter(_, _, _, _, _)
\* call the function value fv with the values args; the operands are already off the stack
Enter(s, P, c, fv, args) ==
  IF fv.c[1] # FnTag THEN UB(s, "call of no function")
  ELSE
  LET k == fv.c[2] - PT  nd == fv.c[3] - PT  d == P.n[nd]
      marker == <<"frame", nd, Len(s.env), Len(s.stk), Len(s.vs), s.env, s.inst>>
      caps == IF d.k = "lam" THEN LET j == CHOOSE x \in DOMAIN s.cap : s.cap[x].inst = k /\ s.cap[x].node = nd IN s.cap[j].env ELSE <<>>
      s1 == [s EXCEPT !.env = caps, !.inst = k, !.depth = @ + 1,
                      !.ctl = <<<<"S", d.b>>, marker>> \o Tail(@)]
  IN IF s.depth > 60 THEN UB(s, "too deep")
     ELSE IF d.k = "extern" THEN
       IF d.var THEN Printf(s, c, args)
       ELSE LET e == ExtOf(c, d.s) IN Enter(s, P, c, Val(fv.t, FnCells(e[2], e[3])), args)
     ELSE BindParams(s1, c, d.ps, TLCEval([i \in DOMAIN d.pts |-> Resolve(c, k, d.pts[i])]), args, 1)

\* names that occur in a subtree
RECURSIVE Names(_, _)
Names(P, n) ==
  IF n = 0 THEN {}
  ELSE LET d == P.n[n]
           own == IF d.k = "id" THEN {d.s} ELSE {}
           kids == IF "c" \in DOMAIN d THEN UNION {Names(P, d.c[i]) : i \in DOMAIN d.c} ELSE {}
           body == IF "b" \in DOMAIN d THEN Names(P, d.b) ELSE {}
           more == IF d.k = "for" THEN Names(P, d.init) \cup Names(P, d.cond) \cup Names(P, d.upd)
                   ELSE IF d.k = "sw" THEN Names(P, d.def) ELSE {}
       IN own \cup kids \cup body \cup more

\* creating an anonymous function copies what it uses of the surrounding variables to its own storage
RECURSIVE Capture(_, _, _, _, _)
Capture(s, c, names, env, acc) ==   \* names: sequence; acc: bindings
  IF Len(names) = 0 THEN <<s, acc>>
  ELSE LET e == FindRec(env, names[1], Len(env)) IN
       IF e = 0 THEN Capture(s, c, Tail(names), env, acc)
       ELSE IF env[e].k = "const" THEN Capture(s, c, Tail(names), env, Append(acc, env[e]))
       ELSE LET lv == env[e].b
                s1 == NewHeap(s, Cells(s, lv, SizeOf(c, lv.t)), "cap")
            IN Capture(s1, c, Tail(names), env, Append(acc, [n |-> names[1], k |-> "var", b |-> HeapLoc(s1, lv.t)]))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
\* the storage exists once per anonymous function: creating it again overwrites it
RECURSIVE Recapture(_, _, _, _, _)
Recapture(s, c, binds, env, i) ==
  IF i > Len(binds) THEN s
  ELSE IF binds[i].k = "const" THEN Recapture(s, c, binds, env, i + 1)
  ELSE LET lv == env[FindRec(env, binds[i].n, Len(env))].b
       IN Recapture(Write(s, binds[i].b, Cells(s, lv, SizeOf(c, lv.t))), c, binds, env, i + 1)

ContStep(s, P, c, it) ==
  LET N(i) == P.n[i] IN
  CASE it[1] = "load" -> LoadTop(s, c)
    [] it[1] = "drop" -> [s EXCEPT !.vs = PopN(s, 1), !.ctl = Tail(@)]
    [] it[1] = "bin" ->
         LET l == Nth(s, 1)  r == Top(s)  q == BinOp(s, c, it[2], l, r) IN
         IF q[1] = "ub" THEN UB(s, q[2])
         ELSE IF q[1] = "stuck" THEN Stuck(s, q[2])
         ELSE IF q[1] = "concat" THEN LET s1 == NewHeap(s, q[3].c, "heap") IN PopPush(s1, 2, Val(Str, PtrCells(HeapLoc(s1, I8))))
         ELSE PopPush(s, 2, q[3])
    [] it[1] = "sc" ->           \* left operand of && or || evaluated
         LET d == N(it[2])  t == Truth(Top(s)) IN
         IF ~t[1] THEN Stuck(s, "condition")
         ELSE IF t[2] = (d.op = "||") THEN PopPush(s, 1, BoolV(t[2]))
         ELSE [Do(s, <<<<"E", d.c[2]>>, <<"bool">>>>) EXCEPT !.vs = PopN(s, 1)]
    [] it[1] = "bool" -> LET t == Truth(Top(s)) IN IF ~t[1] THEN Stuck(s, "condition") ELSE PopPush(s, 1, BoolV(t[2]))
    [] it[1] = "un" ->
         LET v == Top(s) IN
         IF it[2] = "!" THEN LET t == Truth(v) IN IF ~t[1] THEN Stuck(s, "!") ELSE PopPush(s, 1, BoolV(~t[2]))
         ELSE IF it[2] = "+" THEN Stuck(s, "unary +")
         ELSE IF IsFlt(v.t) THEN PopPush(s, 1, Val(v.t, Neg(v.c)))
         ELSE IF IsInt(v.t) THEN PopPush(s, 1, Val(v.t, IF v.t[2] = 1 THEN v.c ELSE NegB(v.c)))
         ELSE Stuck(s, "unary")
    [] it[1] = "temp" -> LET s1 == NewStk(s, Top(s).c) IN PopPush(s1, 1, StkLoc(s1, Top(s).t))
    [] it[1] = "addr" -> LET lv == Top(s) IN PopPush(s, 1, Val(Ptr(lv.t), PtrCells(lv)))
    [] it[1] = "deref" ->
         LET v == Top(s) IN
         IF ~IsPtr(v.t) THEN Stuck(s, "deref") ELSE IF ~IsObjPtr(v.c) THEN UB(s, "null dereference") ELSE PopPush(s, 1, Pointee(v))
    [] it[1] = "incr" ->
         LET lv == Top(s)  n == SizeOf(c, lv.t) IN
         IF ~Writable(s, lv, n) THEN UB(s, "invalid write")
         ELSE LET x == Cells(s, lv, n) IN
              IF ~GoodScalar(lv.t, x) THEN UB(s, "indeterminate value")
              ELSE IF IsFlt(lv.t) THEN
                LET one == FFromInt(n, <<1>>, TRUE) IN Next1(Write(s, lv, IF it[2] = "++" THEN FAdd(x, one) ELSE FSub(x, one)))
              ELSE IF IsInt(lv.t) THEN
                Next1(Write(s, lv, IF lv.t[2] = 1 THEN <<1 - x[1]>> ELSE IF it[2] = "++" THEN AddB(x, One(n)) ELSE SubB(x, One(n))))
              ELSE Stuck(s, "++")
    [] it[1] = "fld" ->
         LET lv == Top(s) IN
         IF IsPtr(lv.t) THEN
           IF ~Valid(s, lv, 8) THEN UB(s, "invalid read")
           ELSE LET v == Val(lv.t, Cells(s, lv, 8)) IN
                IF ~IsObjPtr(v.c) THEN UB(s, "null dereference")
                ELSE LET p == Pointee(v) IN
                     IF FieldIdx(c, p.t, it[2]) = 0 THEN Stuck(s, "field")
                     ELSE PopPush(s, 1, [p EXCEPT !.t = FieldType(c, p.t, it[2]), !.f = @ + FieldOff(c, p.t, it[2])])
         ELSE IF FieldIdx(c, lv.t, it[2]) = 0 THEN Stuck(s, "field")
         ELSE PopPush(s, 1, [lv EXCEPT !.t = FieldType(c, lv.t, it[2]), !.f = @ + FieldOff(c, lv.t, it[2])])
    [] it[1] = "idx" ->
         LET lv == Nth(s, 1)  k == Offset(Top(s)) IN
         IF ~k[1] THEN UB(s, "index")
         ELSE IF IsArr(lv.t) THEN
           IF k[2] < 0 \/ k[2] >= lv.t[2] THEN UB(s, "index out of bounds")
           ELSE PopPush(s, 2, [lv EXCEPT !.t = lv.t[3], !.f = @ + k[2] * SizeOf(c, lv.t[3])])
         ELSE IF IsPtr(lv.t) THEN
           IF ~Valid(s, lv, 8) THEN UB(s, "invalid read")
           ELSE LET v == Val(lv.t, Cells(s, lv, 8)) IN
                IF ~IsObjPtr(v.c) THEN UB(s, "null dereference") ELSE PopPush(s, 2, Pointee(MovePtr(c, v, k[2])))
         ELSE Stuck(s, "index")
    [] it[1] = "cast" ->
         LET lv == Top(s)  t == Resolve(c, s.inst, it[2]) IN
         IF IsArr(lv.t) THEN    \* an array becomes a pointer to its first element
           IF IsPtr(t) THEN PopPush(s, 1, Val(t, PtrCells(lv))) ELSE Stuck(s, "array cast")
         ELSE LET n == SizeOf(c, lv.t) IN
           IF ~Valid(s, lv, n) THEN UB(s, "invalid read")
           ELSE LET v == Val(lv.t, Cells(s, lv, n)) IN
             IF ~GoodScalar(v.t, v.c) THEN UB(s, "indeterminate value")
             ELSE LET q == Convert(c, v, t) IN
                  IF q[1] = "run" THEN PopPush(s, 1, q[3]) ELSE IF q[1] = "ub" THEN UB(s, q[2]) ELSE Stuck(s, q[2])
    [] it[1] = "alloc" ->
         LET t == Resolve(c, s.inst, it[2])  k == Offset(Top(s)) IN
         IF ~k[1] \/ k[2] <= 0 \/ k[2] > 400 THEN UB(s, "allocation")
         ELSE LET s1 == NewHeap(s, Undef(k[2] * SizeOf(c, t)), "heap") IN PopPush(s1, 1, Val(Ptr(t), PtrCells(HeapLoc(s1, t))))
    [] it[1] = "realloc" ->
         LET p == Nth(s, 1)  k == Offset(Top(s)) IN
         IF ~k[1] \/ k[2] <= 0 \/ k[2] > 400 \/ p.c[1] # HeapTag THEN UB(s, "allocation")
         ELSE LET lv == Pointee(p)  n == k[2] * SizeOf(c, p.t[2]) IN
              IF ~Valid(s, lv, 0) \/ lv.f # 0 \/ s.hp[lv.i].kind # "heap" THEN UB(s, "realloc")
              ELSE LET old == s.hp[lv.i].c
                       new == IF Len(old) >= n THEN SubSeq(old, 1, n) ELSE old \o Undef(n - Len(old))
                       s1 == NewHeap([s EXCEPT !.hp[lv.i].live = FALSE], new, "heap")
                   IN PopPush(s1, 2, Val(p.t, PtrCells(HeapLoc(s1, p.t[2]))))
    [] it[1] = "free" ->
         LET p == Top(s) IN
         IF p.c[1] # HeapTag THEN UB(s, "free")
         ELSE LET lv == Pointee(p) IN
              IF ~Valid(s, lv, 0) \/ lv.f # 0 \/ s.hp[lv.i].kind # "heap" THEN UB(s, "free")
              ELSE PopPush([s EXCEPT !.hp[lv.i].live = FALSE, !.hp[lv.i].c = <<>>], 1, VoidV)
    [] it[1] = "print" ->
         LET vals == SubSeq(s.vs, Len(s.vs) - it[2] + 1, Len(s.vs))
             q == PrintRec(s, c, vals, 1, s.out)
         IN IF ~q[1] THEN UB(s, "print") ELSE [PopPush(s, it[2], VoidV) EXCEPT !.out = q[2]]
    [] it[1] = "tuple" ->
         LET vals == SubSeq(s.vs, Len(s.vs) - it[2] + 1, Len(s.vs))
         IN PopPush(s, it[2], Val(<<"list", TLCEval([i \in DOMAIN vals |-> vals[i].t])>>, TLCEval([i \in DOMAIN vals |-> vals[i].c])))
    [] it[1] = "slit" ->         \* its location is on top, evaluate field i
         LET d == N(it[2]) IN
         IF it[3] > Len(d.c) THEN LET lv == Top(s) IN PopPush(s, 1, Val(lv.t, Cells(s, lv, SizeOf(c, lv.t))))
         ELSE Do(s, <<<<"E", d.c[it[3]]>>, <<"slitf", it[2], it[3]>>>>)
    [] it[1] = "slitf" ->
         LET d == N(it[2])  lv == Nth(s, 1)  f == d.fs[it[3]] IN
         IF FieldIdx(c, lv.t, f) = 0 THEN Stuck(s, "literal field")
         ELSE LET at == [lv EXCEPT !.t = FieldType(c, lv.t, f), !.f = @ + FieldOff(c, lv.t, f)]
                  s1 == Store(s, c, at, Top(s))
              IN IF s1.status # "run" THEN s1 ELSE [Do(s1, <<<<"slit", it[2], it[3] + 1>>>>) EXCEPT !.vs = PopN(s, 1)]
    [] it[1] = "alit" ->
         LET d == N(it[2]) IN
         IF it[3] > Len(d.c) THEN LET lv == Top(s) IN PopPush(s, 1, Val(lv.t, Cells(s, lv, SizeOf(c, lv.t))))
         ELSE Do(s, <<<<"E", d.c[it[3]]>>, <<"alitf", it[2], it[3]>>>>)
    [] it[1] = "alitf" ->
         LET lv == Nth(s, 1)
             at == [lv EXCEPT !.t = lv.t[3], !.f = @ + (it[3] - 1) * SizeOf(c, lv.t[3])]
             s1 == Store(s, c, at, Top(s))
         IN IF s1.status # "run" THEN s1 ELSE [Do(s1, <<<<"alit", it[2], it[3] + 1>>>>) EXCEPT !.vs = PopN(s, 1)]
    [] it[1] = "lam" ->
         LET n == it[2]  d == N(n)
             ft == <<"fn", TLCEval([i \in DOMAIN d.pts |-> Resolve(c, s.inst, d.pts[i])]), Resolve(c, s.inst, d.rt)>>
             known == {x \in DOMAIN s.cap : s.cap[x].inst = s.inst /\ s.cap[x].node = n}
             s1 == IF known = {}
                   THEN LET q == Capture(s, c, SetSeq(Names(P, d.b) \ {d.ps[i] : i \in DOMAIN d.ps}), s.env, <<>>)
                        IN [q[1] EXCEPT !.cap = Append(@, [inst |-> s.inst, node |-> n, env |-> q[2]])]
                   ELSE Recapture(s, c, s.cap[CHOOSE x \in known : TRUE].env, s.env, 1)
         IN PushV(s1, Val(ft, FnCells(s.inst, n)))
    [] it[1] = "sel" ->          \* x.f(...): the location of x is on top
         LET d == N(it[2])  f == N(d.c[1]).s  lv == Top(s)  args == Tail(d.c)
             agg == IF IsPtr(lv.t) THEN lv.t[2] ELSE lv.t
         IN IF FieldIdx(c, agg, f) # 0
            THEN Do(s, <<<<"fld", f>>, <<"load">>>> \o Items("E", args) \o <<<<"call", Len(args)>>>>)
            ELSE LET m == Method(P, c, s.inst, lv.t, f) IN
                 IF m[1] = 0 THEN Stuck(s, "method")
                 ELSE [Do(s, <<<<"load">>>> \o Items("E", args) \o <<<<"call", Len(args) + 1>>>>) EXCEPT
                         !.vs = Append(Append(PopN(s, 1), Val(FnType(P, c, m[1], m[2]), FnCells(m[1], m[2]))), lv)]
    [] it[1] = "call" ->
         LET n == it[2]
             args == SubSeq(s.vs, Len(s.vs) - n + 1, Len(s.vs))
             fv == Nth(s, n)
         IN Enter([s EXCEPT !.vs = PopN(s, n + 1)], P, c, fv, args)
    [] it[1] = "scope" -> Next1(Leave(s, it))
    [] it[1] = "blk" -> Stuck(s, "block expression without value")
    [] it[1] = "frame" -> \* the end of the body: a void function returns
         IF P.n[it[2]].rt # Void THEN Stuck(s, "missing return")
         ELSE [s EXCEPT !.vs = Append(SubSeq(@, 1, it[5]), VoidV), !.stk = SubSeq(@, 1, it[4]), !.env = it[6],
                        !.inst = it[7], !.depth = @ - 1, !.ctl = Tail(@)]
    [] it[1] = "return" ->
         LET u == Unwind(s.ctl, {"frame", "blk"})
             v == IF it[2] = 0 THEN VoidV ELSE Top(s)
         IN IF Len(u) = 0 THEN Stuck(s, "return")
            ELSE LET m == u[1] IN
              IF m[1] = "blk"
              THEN [Leave(s, m) EXCEPT !.vs = Append(@, v), !.ctl = Tail(u)]
              ELSE [s EXCEPT !.vs = Append(SubSeq(@, 1, m[5]), v), !.stk = SubSeq(@, 1, m[4]), !.env = m[6],
                             !.inst = m[7], !.depth = @ - 1, !.ctl = Tail(u)]
    [] it[1] = "decl" ->
         LET d == N(it[2])  v == Top(s)
             t == IF d.t = <<"none">> THEN v.t ELSE Resolve(c, s.inst, d.t)
             s1 == [s EXCEPT !.vs = PopN(s, 1), !.ctl = Tail(@)]
         IN IF d.const THEN BindConst(s1, d.s, v) ELSE Declare(s1, c, d.s, t, v.c)
    [] it[1] = "mdecl" ->
         LET d == N(it[2])  v == Top(s)  s1 == [s EXCEPT !.vs = PopN(s, 1), !.ctl = Tail(@)]
         IN IF ~IsList(v.t) \/ Len(v.c) # Len(d.ss) THEN Stuck(s, "declaration of a list")
            ELSE BindParams(s1, c, d.ss, v.t[2], TLCEval([i \in DOMAIN v.c |-> Val(v.t[2][i], v.c[i])]), 1)
    [] it[1] = "store" ->
         LET s1 == Store(s, c, Nth(s, 1), Top(s)) IN
         IF s1.status # "run" THEN s1 ELSE [s1 EXCEPT !.vs = PopN(s, 2), !.ctl = Tail(@)]
    [] it[1] = "mstore" ->
         LET v == Top(s)  n == it[2] IN
         IF ~IsList(v.t) \/ Len(v.c) # n THEN Stuck(s, "assignment of a list")
         ELSE LET RECURSIVE All(_, _)
                  All(st, i) == IF i > n \/ st.status # "run" THEN st
                                ELSE All(Store(st, c, s.vs[Len(s.vs) - n - 1 + i], Val(v.t[2][i], v.c[i])), i + 1)
                  s1 == All(s, 1)
              IN IF s1.status # "run" THEN s1 ELSE [s1 EXCEPT !.vs = PopN(s, n + 1), !.ctl = Tail(@)]
    [] it[1] = "if" ->           \* condition number it[3] evaluated
         LET d == N(it[2])  t == Truth(Top(s))  j == it[3]  s1 == [s EXCEPT !.vs = PopN(s, 1)] IN
         IF ~t[1] THEN Stuck(s, "condition")
         ELSE IF t[2] THEN Do(s1, <<<<"S", d.c[2 * j]>>>>)
         ELSE IF 2 * j + 2 <= Len(d.c) THEN Do(s1, <<<<"E", d.c[2 * j + 1]>>, <<"if", it[2], j + 1>>>>)
         ELSE IF 2 * j + 1 <= Len(d.c) THEN Do(s1, <<<<"S", d.c[2 * j + 1]>>>>)
         ELSE Next1(s1)
    [] it[1] = "fcond" ->
         LET d == N(it[2]) IN
         IF d.cond = 0 THEN Do(s, <<<<"S", d.b>>, Mark(s, "loop", it[2])>>)
         ELSE Do(s, <<<<"E", d.cond>>, <<"ftest", it[2]>>>>)
    [] it[1] = "ftest" ->
         LET d == N(it[2])  t == Truth(Top(s))  s1 == [s EXCEPT !.vs = PopN(s, 1)] IN
         IF ~t[1] THEN Stuck(s, "condition")
         ELSE IF t[2] THEN Do(s1, <<<<"S", d.b>>, Mark(s1, "loop", it[2])>>) ELSE Next1(s1)
    [] it[1] = "loop" ->
         LET d == N(it[2]) IN
         Do(Leave(s, it), (IF d.upd = 0 THEN <<>> ELSE <<<<"S", d.upd>>>>) \o <<<<"fcond", it[2]>>>>)
    [] it[1] = "swc" ->          \* the scrutinee is on top: try case number it[3]
         LET d == N(it[2])  j == it[3] IN
         IF 2 * j + 1 <= Len(d.c) THEN Do(s, <<<<"E", d.c[2 * j]>>, <<"swt", it[2], j>>>>)
         ELSE LET s1 == [s EXCEPT !.vs = PopN(s, 1)] IN
              IF d.def = 0 THEN Next1(s1) ELSE Do(s1, <<<<"S", d.def>>>>)
    [] it[1] = "swt" ->
         LET d == N(it[2])  j == it[3] IN
         IF Top(s).c = Nth(s, 1).c THEN [Do(s, <<<<"S", d.c[2 * j + 1]>>>>) EXCEPT !.vs = PopN(s, 2)]
         ELSE [Do(s, <<<<"swc", it[2], j + 1>>>>) EXCEPT !.vs = PopN(s, 1)]
    [] it[1] = "global" ->       \* initial value of a global evaluated, it = <<"global", inst, node>>
         LET d == N(it[3])  v == Top(s)
             t == IF d.t = <<"none">> THEN v.t ELSE Resolve(c, it[2], d.t)
             s0 == [s EXCEPT !.vs = PopN(s, 1), !.ctl = Tail(@)]
         IN IF d.const THEN [s0 EXCEPT !.gl = Append(@, [inst |-> it[2], n |-> d.s, k |-> "const", b |-> v])]
            ELSE LET s1 == NewHeap(s0, v.c, "glob") IN
                 [s1 EXCEPT !.gl = Append(@, [inst |-> it[2], n |-> d.s, k |-> "var", b |-> HeapLoc(s1, t)])]
    [] it[1] = "inst" -> [s EXCEPT !.inst = it[2], !.ctl = Tail(@)]
    [] it[1] = "main" ->
         LET nd == FunOf(c, 1, "main") IN
         IF nd = 0 THEN Stuck(s, "no main") ELSE Enter(Do(s, <<<<"x">>, <<"exit">>>>), P, c, Val(FnType(P, c, 1, nd), FnCells(1, nd)), <<>>)
    [] it[1] = "exit" -> [s EXCEPT !.status = "done", !.ctl = <<>>, !.vs = <<>>, !.env = <<>>, !.stk = <<>>,
                                   !.code = IF Len(s.vs) = 1 /\ Len(Top(s).c) > 0 THEN Top(s).c[1] ELSE 0]
    [] OTHER -> Stuck(s, "control")

\* one step of the machine
Step(s, P, c) ==
  LET it == Head(s.ctl) IN
  CASE it[1] = "E" -> EvalStep(s, P, c, it[2])
    [] it[1] = "L" -> LocStep(s, P, c, it[2])
    [] it[1] = "S" -> StmtStep(s, P, c, it[2])
    [] OTHER -> ContStep(s, P, c, it)

\* the globals of every instance, imports first, in the order of their declarations
RECURSIVE InitItems(_, _, _, _, _)
InitItems(P, c, k, ds, i) ==
  IF i > Len(ds) THEN <<>>
  ELSE LET d == P.n[ds[i]] IN
       (IF d.k = "decl" THEN <<<<"inst", k>>, <<"E", d.c[1]>>, <<"global", k, ds[i]>>>> ELSE <<>>)
       \o InitItems(P, c, k, ds, i + 1)
RECURSIVE InitInsts(_, _, _)
\* an instance is numbered before the ones that it imports
InitInsts(P, c, k) == IF k = 0 THEN <<>>
  ELSE InitItems(P, c, k, Decls(P, P.mods[c.insts[k].mod].ds, 1), 1) \o InitInsts(P, c, k - 1)

InitMachine(P, c) ==
  [ctl |-> InitInsts(P, c, Len(c.insts)) \o <<<<"inst", 1>>, <<"main">>>>,
   vs |-> <<>>, env |-> <<>>, stk |-> <<>>, hp |-> <<>>, gl |-> <<>>, cap |-> <<>>, out |-> <<>>,
   ser |-> 1, inst |-> 1, depth |-> 0, steps |-> 0, status |-> "run", why |-> "", code |-> 0]
=============================================================================
