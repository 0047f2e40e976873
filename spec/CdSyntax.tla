------------------------------ MODULE CdSyntax ------------------------------
(***************************************************************************)
(* The grammar of candice: Front(src) turns source files into the abstract *)
(* syntax that CdTypes describes.                                          *)
(*                                                                         *)
(* src is a sequence of [file: name, b: bytes], the first one is the root. *)
(* The result has an error e: "" if there is none, "?..." for a corner     *)
(* that the specification leaves open.                                     *)
(*                                                                         *)
(* Expressions are parsed by precedence: PExpr(T, i, p) takes operators     *)
(* that bind tighter than p.  Statements need no separator; semicolons     *)
(* after one are skipped.                                                  *)
(***************************************************************************)
EXTENDS CdFloat, CdLex

Prec(t) ==
  CASE t = "=" -> 1
    [] t = "," -> 2
    [] t \in {"&&", "||"} -> 3
    [] t \in {"==", "!=", "<", "<=", ">", ">="} -> 4
    [] t \in {"+", "-"} -> 5
    [] t \in {"&", "|", "^", "<<", ">>"} -> 6
    [] t \in {"*", "/", "%"} -> 7
    [] t = "as" -> 8
    [] t = "(" -> 10
    [] t = "[" -> 12
    [] t = "." -> 13
    [] OTHER -> 0
PrefixPrec == 9
PrefixOps == {"!", "&", "-", "+", "*", "++", "--"}
ArgPrec == 2                   \* an argument or element ends at a comma

LiteralTypes ==
  [x \in {"i1", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "void", "i0", "bool"} |->
     CASE x = "i1" -> <<"i", 1>> [] x = "bool" -> <<"i", 1>> [] x = "i8" -> <<"i", 8>> [] x = "i16" -> <<"i", 16>>
       [] x = "i32" -> <<"i", 32>> [] x = "i64" -> <<"i", 64>> [] x = "u8" -> <<"u", 8>> [] x = "u16" -> <<"u", 16>>
       [] x = "u32" -> <<"u", 32>> [] x = "u64" -> <<"u", 64>> [] x = "f32" -> <<"f", 32>> [] x = "f64" -> <<"f", 64>>
       [] OTHER -> <<"void">>]
TypeStart == {"IDENT", "*", "[", "func", "("}
Void0 == <<"void">>
NoType == <<"none">>
Nothing == [k |-> "none"]

Tk(T, i) == IF i <= Len(T) THEN T[i] ELSE T[Len(T)]
Is(T, i, t) == Tk(T, i).t = t
Name(T, i) == Text(Tk(T, i).v)

Err(w) == [e |-> w, i |-> 0, x |-> Nothing]
Got(i, x) == [e |-> "", i |-> i, x |-> x]
Fails(r) == r.e # ""

------------------------------------------------------------------------------
(* literals *)
RECURSIVE FirstNot0(_, _)
FirstNot0(d, i) == IF i < Len(d) /\ d[i] = 0 THEN FirstNot0(d, i + 1) ELSE i
Strip(d) == IF d = <<>> THEN d ELSE SubSeq(d, FirstNot0(d, 1), Len(d))
DigitVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IntTree(d, base) == [k |-> "int", d |-> d, base |-> base]
IntLit(T, i) ==
  LET tk == Tk(T, i)
      base == IF tk.t = "INT" THEN 10 ELSE IF tk.t = "HEX" THEN 16 ELSE 2
      raw == IF base = 10 THEN tk.v ELSE SubSeq(tk.v, 3, Len(tk.v))
      d == TLCEval(Strip([j \in DOMAIN raw |-> DigitVal(raw[j])]))
      most == IF base = 10 THEN 20 ELSE IF base = 16 THEN 16 ELSE 64
  IN IF d = <<>> THEN Err("a number without digits")
     ELSE IF Len(d) > most \/ Digits(d, base, 9)[9] # 0 THEN Err("a number that no type can hold")
     ELSE Got(i + 1, IntTree(d, base))

RECURSIVE DotAt(_, _)
DotAt(v, i) == IF v[i] = 46 THEN i ELSE DotAt(v, i + 1)
FloatLit(T, i) ==
  LET v == Tk(T, i).v
      p == DotAt(v, 1)
      w == TLCEval(Strip([j \in 1..(p - 1) |-> v[j] - 48]))
      fr == TLCEval([j \in 1..(Len(v) - p) |-> v[p + j] - 48])
      ds == w \o fr
  IN IF Len(ds) > 60 THEN Err("?float")
     ELSE IF Len(w) > 38 /\ FLiteral(4, ds, Len(fr)) = FInf(4, 0) THEN Err("a number that no type can hold")
     ELSE Got(i + 1, [k |-> "flt", d |-> ds, f |-> Len(fr)])

------------------------------------------------------------------------------
(* types *)
RECURSIVE Small10(_, _, _)
Small10(d, i, acc) == IF i > Len(d) THEN acc ELSE Small10(d, i + 1, acc * 10 + d[i])
RECURSIVE PType(_, _)
RECURSIVE PTypes(_, _)
RECURSIVE PFnParams(_, _, _)

\* a type where a list of types can not be
PType1(T, i) == LET r == TLCEval(PType(T, i)) IN IF ~Fails(r) /\ r.x[1] = "list" THEN Err("?list of types") ELSE r
RECURSIVE PTypesRec(_, _, _)
PTypesRec(T, i, acc) ==
  IF Is(T, i, ",") THEN LET r == TLCEval(PType1(T, i + 1)) IN IF Fails(r) THEN r ELSE PTypesRec(T, r.i, Append(acc, r.x))
  ELSE Got(i, IF Len(acc) = 1 THEN acc[1] ELSE <<"list", acc>>)
PTypes(T, i) ==
  LET r == TLCEval(PType(T, i)) IN
  IF Fails(r) THEN r
  ELSE IF r.x[1] = "list" THEN IF Is(T, r.i, ",") THEN Err("?list of types") ELSE r
  ELSE PTypesRec(T, r.i, <<r.x>>)

\* func name(types) type : [nm, ps, va, rt]
PFnParams(T, i, acc) ==
  IF Is(T, i, ")") THEN Got(i + 1, [ps |-> acc, va |-> FALSE])
  ELSE IF acc # <<>> /\ ~Is(T, i, ",") THEN Err("a comma expected")
  ELSE LET j == IF acc # <<>> THEN i + 1 ELSE i IN
    IF Is(T, j, "..") THEN IF Is(T, j + 1, ")") THEN Got(j + 2, [ps |-> acc, va |-> TRUE]) ELSE Err("the last parameter expected")
    ELSE LET r == TLCEval(PType1(T, j)) IN IF Fails(r) THEN r ELSE PFnParams(T, r.i, Append(acc, r.x))
PFnType(T, i) ==
  LET named == Is(T, i + 1, "IDENT")
      j == IF named THEN i + 2 ELSE i + 1
      p == TLCEval(IF Is(T, j, "(") THEN PFnParams(T, j + 1, <<>>) ELSE Err("parameters expected"))
      r == TLCEval(IF Fails(p) THEN p ELSE IF Tk(T, p.i).t \in TypeStart THEN PType(T, p.i) ELSE Got(p.i, Void0))
  IN IF Fails(r) THEN r
     ELSE Got(r.i, [nm |-> IF named THEN Name(T, i + 1) ELSE "", ps |-> p.x.ps, va |-> p.x.va, rt |-> r.x])
PType(T, i) ==
  CASE Is(T, i, "(") ->
         LET r == TLCEval(PTypes(T, i + 1)) IN
         IF Fails(r) THEN r ELSE IF Is(T, r.i, ")") THEN Got(r.i + 1, r.x) ELSE Err("a closing parenthesis expected")
    [] Is(T, i, "*") -> LET r == TLCEval(PType1(T, i + 1)) IN IF Fails(r) THEN r ELSE Got(r.i, <<"*", r.x>>)
    [] Is(T, i, "IDENT") ->
         IF ~Is(T, i + 1, ".") THEN Got(i + 1, IF Name(T, i) \in DOMAIN LiteralTypes THEN LiteralTypes[Name(T, i)] ELSE <<"name", Name(T, i)>>)
         ELSE IF ~Is(T, i + 2, "IDENT") THEN Err("the name of a type expected")
         ELSE IF Is(T, i + 3, ".") THEN Err("?a path of modules")
         ELSE Got(i + 3, <<"qual", Name(T, i), Name(T, i + 2)>>)
    [] Is(T, i, "func") ->
         LET r == TLCEval(PFnType(T, i)) IN
         IF Fails(r) THEN r ELSE IF r.x.nm # "" \/ r.x.va THEN Err("?a function type with a name or any number of parameters")
         ELSE Got(r.i, <<"fn", r.x.ps, r.x.rt>>)
    [] Is(T, i, "[") ->
         IF ~Is(T, i + 1, "INT") THEN Err("the length of an array expected")
         ELSE IF ~Is(T, i + 2, "]") THEN Err("a closing bracket expected")
         ELSE LET d == TLCEval(Strip([j \in DOMAIN Tk(T, i + 1).v |-> Tk(T, i + 1).v[j] - 48]))
                  r == TLCEval(PType1(T, i + 3))
              IN IF Len(d) > 10 \/ (Len(d) = 10 /\ d[1] > 2) THEN Err("an array that is too long")
                 ELSE IF Fails(r) THEN r
                 ELSE IF Len(d) > 4 THEN Err("?a long array")
                 ELSE Got(r.i, <<"arr", Small10(d, 1, 0), r.x>>)
    [] OTHER -> Err("a type expected")

------------------------------------------------------------------------------
(* expressions *)
RECURSIVE PExpr(_, _, _)
RECURSIVE PLoop(_, _, _, _)
RECURSIVE PPrefix(_, _)
RECURSIVE PArgs(_, _, _, _)
RECURSIVE PComma(_, _, _)
RECURSIVE PFields(_, _, _, _)
RECURSIVE PStmt(_, _)
RECURSIVE PStmts(_, _, _)
RECURSIVE PBlock(_, _)
RECURSIVE PParams(_, _, _, _)

\* expressions separated by commas up to the token `end`
PArgs(T, i, end, acc) ==
  IF Is(T, i, end) THEN Got(i + 1, acc)
  ELSE IF acc # <<>> /\ ~Is(T, i, ",") THEN Err("a comma expected")
  ELSE LET r == TLCEval(PExpr(T, IF acc # <<>> THEN i + 1 ELSE i, ArgPrec)) IN
       IF Fails(r) THEN r ELSE PArgs(T, r.i, end, TLCEval(Append(acc, r.x)))
PComma(T, i, acc) ==
  IF Is(T, i, ",") THEN LET r == TLCEval(PExpr(T, i + 1, ArgPrec)) IN IF Fails(r) THEN r ELSE PComma(T, r.i, TLCEval(Append(acc, r.x)))
  ELSE Got(i, [k |-> "comma", c |-> acc])
PFields(T, i, fs, vs) ==
  IF Is(T, i, "}") THEN Got(i + 1, [fs |-> fs, vs |-> vs])
  ELSE IF ~Is(T, i, "IDENT") \/ ~Is(T, i + 1, ":") THEN Err("a field expected")
  ELSE LET r == TLCEval(PExpr(T, i + 2, ArgPrec)) IN
       IF Fails(r) THEN r
       ELSE IF Is(T, r.i, ",") THEN PFields(T, r.i + 1, TLCEval(Append(fs, Name(T, i))), TLCEval(Append(vs, r.x)))
       ELSE IF Is(T, r.i, "}") THEN Got(r.i + 1, [fs |-> Append(fs, Name(T, i)), vs |-> Append(vs, r.x)])
       ELSE Err("a comma expected")

PBuiltin(T, i, s) ==          \* i: after the opening parenthesis
  LET With(r, n, x) == IF Fails(r) THEN r ELSE IF Len(r.x) # n THEN Err("wrong number of arguments") ELSE Got(r.i, x)
      ty == TLCEval(PType1(T, i))
  IN
  CASE s = "print" -> LET r == TLCEval(PArgs(T, i, ")", <<>>)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "print", c |-> r.x])
    [] s = "realloc" -> LET r == TLCEval(PArgs(T, i, ")", <<>>)) IN With(r, 2, [k |-> "realloc", c |-> r.x])
    [] s = "free" -> LET r == TLCEval(PArgs(T, i, ")", <<>>)) IN With(r, 1, [k |-> "free", c |-> r.x])
    [] s = "unreachable" -> IF Is(T, i, ")") THEN Got(i + 1, [k |-> "unreachable"]) ELSE Err("a closing parenthesis expected")
    [] s = "sizeof" -> IF Fails(ty) THEN ty ELSE IF Is(T, ty.i, ")") THEN Got(ty.i + 1, [k |-> "sizeof", t |-> ty.x]) ELSE Err("a closing parenthesis expected")
    [] s \in {"cast", "alloc"} ->
         IF Fails(ty) THEN ty ELSE IF ~Is(T, ty.i, ",") THEN Err("a comma expected")
         ELSE LET r == TLCEval(PExpr(T, ty.i + 1, ArgPrec)) IN
              IF Fails(r) THEN r ELSE IF ~Is(T, r.i, ")") THEN Err("a closing parenthesis expected")
              ELSE Got(r.i + 1, [k |-> s, t |-> ty.x, c |-> <<r.x>>])
    [] s \in {"asm", "add_compiler_flag"} -> Err("?@" \o s)
    [] OTHER -> Err("no such builtin")
PAt(T, i) ==
  LET dotted == Is(T, i + 2, ".")
      j == IF dotted THEN i + 3 ELSE i + 1
  IN IF ~Is(T, i + 1, "IDENT") \/ ~Is(T, j, "IDENT") THEN Err("a name expected after @")
     ELSE IF Is(T, j + 1, "{")
     THEN LET r == TLCEval(PFields(T, j + 2, <<>>, <<>>)) IN
          IF Fails(r) THEN r
          ELSE Got(r.i, [k |-> "slit", m |-> IF dotted THEN Name(T, i + 1) ELSE "", s |-> Name(T, j), fs |-> r.x.fs, c |-> r.x.vs])
     ELSE IF dotted \/ ~Is(T, j + 1, "(") THEN Err("a struct or the arguments of a builtin expected")
     ELSE PBuiltin(T, j + 2, Name(T, j))

\* parameters with names, up to the closing parenthesis
PParams(T, i, ps, pts) ==
  IF Is(T, i, ")") THEN Got(i + 1, [ps |-> ps, pts |-> pts])
  ELSE LET j == IF ps # <<>> THEN i + 1 ELSE i IN
    IF ps # <<>> /\ ~Is(T, i, ",") THEN Err("a comma expected")
    ELSE IF ~Is(T, j, "IDENT") THEN Err("a parameter expected")
    ELSE LET r == TLCEval(PType1(T, j + 1)) IN IF Fails(r) THEN r ELSE PParams(T, r.i, TLCEval(Append(ps, Name(T, j))), TLCEval(Append(pts, r.x)))
\* (parameters) types block
PFunc(T, i) ==
  LET p == TLCEval(IF Is(T, i, "(") THEN PParams(T, i + 1, <<>>, <<>>) ELSE Err("parameters expected"))
      t == TLCEval(IF Fails(p) THEN p ELSE IF Tk(T, p.i).t \in TypeStart THEN PTypes(T, p.i) ELSE Got(p.i, Void0))
      b == TLCEval(IF Fails(t) THEN t ELSE PBlock(T, t.i))
  IN IF Fails(b) THEN b ELSE Got(b.i, [ps |-> p.x.ps, pts |-> p.x.pts, rt |-> t.x, b |-> b.x])

PPrefix(T, i) ==
  LET t == Tk(T, i).t IN
  CASE t \in {"INT", "HEX", "BINARY"} -> IntLit(T, i)
    [] t = "FLOAT" -> FloatLit(T, i)
    [] t = "CHAR" -> Got(i + 1, [k |-> "char", v |-> Tk(T, i).v[1]])
    [] t = "STRING" -> Got(i + 1, [k |-> "str", v |-> Tk(T, i).v])
    [] t = "IDENT" -> Got(i + 1, [k |-> "id", s |-> Name(T, i)])
    [] t = "(" -> LET r == TLCEval(PExpr(T, i + 1, 0)) IN
                  IF Fails(r) THEN r ELSE IF Is(T, r.i, ")") THEN Got(r.i + 1, r.x) ELSE Err("a closing parenthesis expected")
    [] t = "[" -> LET ty == TLCEval(PType1(T, i)) IN
                  IF Fails(ty) THEN ty ELSE IF ~Is(T, ty.i, "{") THEN Err("the elements of an array expected")
                  ELSE LET r == TLCEval(PArgs(T, ty.i + 1, "}", <<>>)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "alit", t |-> ty.x, c |-> r.x])
    [] t = "@" -> PAt(T, i)
    [] t = "func" -> LET r == TLCEval(PFunc(T, i + 1)) IN
                     IF Fails(r) THEN r ELSE Got(r.i, [k |-> "lam", ps |-> r.x.ps, pts |-> r.x.pts, rt |-> r.x.rt, b |-> r.x.b])
    [] t = ":" -> LET ty == TLCEval(PType1(T, i + 1))
                      r == TLCEval(IF Fails(ty) THEN ty ELSE PBlock(T, ty.i))
                  IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "blk", t |-> ty.x, b |-> r.x])
    [] t \in PrefixOps -> LET r == TLCEval(PExpr(T, i + 1, PrefixPrec)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "pre", op |-> t, c |-> <<r.x>>])
    [] OTHER -> Err("an expression expected")

PLoop(T, i, left, prec) ==
  LET t == Tk(T, i).t IN
  IF ~(prec < Prec(t)) THEN Got(i, left)
  ELSE
  LET r == TLCEval(
        CASE t = "(" -> LET a == TLCEval(PArgs(T, i + 1, ")", <<>>)) IN IF Fails(a) THEN a ELSE Got(a.i, [k |-> "call", c |-> <<left>> \o a.x])
          [] t = "[" -> LET a == TLCEval(PExpr(T, i + 1, 0)) IN
                        IF Fails(a) THEN a ELSE IF Is(T, a.i, "]") THEN Got(a.i + 1, [k |-> "idx", c |-> <<left, a.x>>]) ELSE Err("a closing bracket expected")
          [] t = "as" -> LET a == TLCEval(PType1(T, i + 1)) IN IF Fails(a) THEN a ELSE Got(a.i, [k |-> "cast", t |-> a.x, c |-> <<left>>])
          [] t = "," -> PComma(T, i, <<left>>)
          [] OTHER -> LET a == TLCEval(PExpr(T, i + 1, Prec(t))) IN
                      IF Fails(a) THEN a
                      ELSE IF t # "." THEN Got(a.i, [k |-> "bin", op |-> t, c |-> <<left, a.x>>])
                      ELSE IF a.x.k = "id" THEN Got(a.i, [k |-> "dot", s |-> a.x.s, c |-> <<left>>])
                      ELSE Got(a.i, [k |-> "bin", op |-> ".", c |-> <<left, a.x>>]))
  IN IF Fails(r) THEN r ELSE PLoop(T, r.i, r.x, prec)
PExpr(T, i, prec) == LET r == TLCEval(PPrefix(T, i)) IN IF Fails(r) THEN r ELSE PLoop(T, r.i, r.x, prec)

------------------------------------------------------------------------------
(* statements *)
RECURSIVE Semicolons(_, _)
Semicolons(T, i) == IF Is(T, i, ";") THEN Semicolons(T, i + 1) ELSE i

\* statements up to `end`; a = [e: error, i, x: trees, done]
StmtStep(T, end, a) ==
  IF Is(T, a.i, end) THEN [a EXCEPT !.done = TRUE]
  ELSE IF Is(T, a.i, "EOF") THEN [a EXCEPT !.e = "a closing brace expected", !.done = TRUE]
  ELSE LET r == TLCEval(PStmt(T, a.i)) IN
       IF Fails(r) THEN [a EXCEPT !.e = r.e, !.done = TRUE] ELSE [a EXCEPT !.i = r.i, !.x = Append(@, r.x)]
PStmts(T, i, end) == LET a == Loop(LAMBDA x : StmtStep(T, end, x), [e |-> "", i |-> i, x |-> <<>>, done |-> FALSE]) IN IF Fails(a) THEN Err(a.e) ELSE Got(a.i, a.x)
\* a block, or one statement in its place
PBlock(T, i) ==
  IF Is(T, i, "{") THEN LET r == TLCEval(PStmts(T, i + 1, "}")) IN IF Fails(r) THEN r ELSE Got(r.i + 1, [k |-> "block", c |-> r.x])
  ELSE LET r == TLCEval(PStmt(T, i)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "block", c |-> <<r.x>>])

\* : type = expression
PInit(T, i) ==
  IF ~Is(T, i, ":") THEN Err("a colon expected")
  ELSE LET ty == TLCEval(IF Is(T, i + 1, "=") THEN Got(i + 1, NoType) ELSE PType1(T, i + 1)) IN
       IF Fails(ty) THEN ty ELSE IF ~Is(T, ty.i, "=") THEN Err("= expected")
       ELSE LET r == TLCEval(PExpr(T, ty.i + 1, 0)) IN IF Fails(r) THEN r ELSE Got(r.i, [t |-> ty.x, x |-> r.x])
RECURSIVE PNames(_, _, _)
PNames(T, i, acc) ==
  IF ~Is(T, i, "IDENT") THEN Err("a name expected")
  ELSE IF Is(T, i + 1, ",") THEN PNames(T, i + 2, TLCEval(Append(acc, Name(T, i))))
  ELSE Got(i + 1, Append(acc, Name(T, i)))
PDeclaration(T, i, const) ==
  LET ns == TLCEval(PNames(T, i, <<>>))
      r == TLCEval(IF Fails(ns) THEN ns ELSE PInit(T, ns.i))
  IN IF Fails(r) THEN r
     ELSE IF Len(ns.x) = 1 THEN Got(r.i, [k |-> "decl", s |-> ns.x[1], t |-> r.x.t, c |-> <<r.x.x>>, const |-> const])
     ELSE IF r.x.t # NoType THEN Err("?several variables with a type")
     ELSE Got(r.i, [k |-> "mdecl", ss |-> ns.x, c |-> <<r.x.x>>, const |-> const])

\* what may be assigned to
Target(x) == \/ x.k \in {"id", "dot", "idx", "comma"}
             \/ (x.k = "pre" /\ x.op = "*")
             \/ (x.k = "bin" /\ x.op = ".")
PAssign(T, i) ==
  LET r == TLCEval(PExpr(T, i, 0)) IN
  IF Fails(r) THEN r
  ELSE IF r.x.k = "bin" /\ r.x.op = "=" THEN IF Target(r.x.c[1]) THEN Got(r.i, [k |-> "asg", c |-> r.x.c]) ELSE Err("no target of an assignment")
  ELSE IF r.x.k = "comma" /\ Is(T, r.i, ":")
  THEN IF \E j \in DOMAIN r.x.c : r.x.c[j].k # "id" THEN Err("a name expected")
       ELSE LET s == TLCEval(PInit(T, r.i)) IN
            IF Fails(s) THEN s ELSE IF s.x.t # NoType THEN Err("?several variables with a type")
            ELSE Got(s.i, [k |-> "mdecl", ss |-> [j \in DOMAIN r.x.c |-> r.x.c[j].s], c |-> <<s.x.x>>, const |-> FALSE])
  ELSE Got(r.i, [k |-> "ex", c |-> <<r.x>>])

RECURSIVE PElse(_, _, _)
PElse(T, i, acc) ==
  IF ~Is(T, i, "else") THEN Got(i, [k |-> "if", c |-> acc])
  ELSE IF Is(T, i + 1, "if")
  THEN LET e == TLCEval(PExpr(T, i + 2, 0))
           b == TLCEval(IF Fails(e) THEN e ELSE PBlock(T, e.i))
       IN IF Fails(b) THEN b ELSE PElse(T, b.i, acc \o <<e.x, b.x>>)
  ELSE LET b == TLCEval(PBlock(T, i + 1)) IN IF Fails(b) THEN b ELSE Got(b.i, [k |-> "if", c |-> Append(acc, b.x)])
PIf(T, i) ==
  LET e == TLCEval(PExpr(T, i + 1, 0))
      b == TLCEval(IF Fails(e) THEN e ELSE PBlock(T, e.i))
  IN IF Fails(b) THEN b ELSE PElse(T, b.i, <<e.x, b.x>>)

RECURSIVE PCases(_, _, _)
PCases(T, i, acc) ==
  IF Is(T, i, "case")
  THEN LET e == TLCEval(PExpr(T, i + 1, 0))
           b == TLCEval(IF Fails(e) THEN e ELSE PBlock(T, e.i))
       IN IF Fails(b) THEN b ELSE PCases(T, b.i, acc \o <<e.x, b.x>>)
  ELSE LET d == TLCEval(IF Is(T, i, "default") THEN PBlock(T, i + 1) ELSE Got(i, Nothing)) IN
       IF Fails(d) THEN d ELSE IF ~Is(T, d.i, "}") THEN Err("a case expected")
       ELSE Got(d.i + 1, [k |-> "sw", c |-> acc, def |-> d.x])
PSwitch(T, i) ==
  LET e == TLCEval(PExpr(T, i + 1, 0)) IN
  IF Fails(e) THEN e ELSE IF ~Is(T, e.i, "{") THEN Err("cases expected") ELSE PCases(T, e.i + 1, <<e.x>>)

ForTree(a, b, c, d) == [k |-> "for", init |-> a, cond |-> b, upd |-> c, b |-> d]
OneStmt(s) == [k |-> "block", c |-> <<s>>]
PFor(T, i) ==
  IF Is(T, i + 1, "{") THEN LET b == TLCEval(PBlock(T, i + 1)) IN IF Fails(b) THEN b ELSE Got(b.i, ForTree(Nothing, Nothing, Nothing, b.x))
  ELSE LET s == TLCEval(PStmt(T, i + 1)) IN
  IF Fails(s) THEN s
  ELSE IF s.x.k = "mdecl" THEN Err("several variables in a for")
  ELSE IF s.x.k \in {"decl", "asg"}
  THEN LET c == TLCEval(PExpr(T, s.i, 0))
           u == TLCEval(IF Fails(c) THEN c ELSE IF ~Is(T, c.i, ";") THEN Err("a semicolon expected")
                        ELSE IF Is(T, c.i + 1, "{") THEN Got(c.i + 1, Nothing) ELSE PAssign(T, c.i + 1))
           b == TLCEval(IF Fails(u) THEN u ELSE PBlock(T, u.i))
       IN IF Fails(b) THEN b ELSE Got(b.i, ForTree(s.x, c.x, u.x, b.x))
  ELSE IF s.x.k = "ex" /\ Is(T, s.i, "{")
  THEN LET b == TLCEval(PBlock(T, s.i)) IN IF Fails(b) THEN b ELSE Got(b.i, ForTree(Nothing, s.x.c[1], Nothing, b.x))
  ELSE Got(s.i, ForTree(Nothing, Nothing, Nothing, OneStmt(s.x)))

RECURSIVE PPairs(_, _, _, _)
PPairs(T, i, fs, ts) ==
  IF Is(T, i, "}") THEN Got(i + 1, [fs |-> fs, ts |-> ts])
  ELSE IF ~Is(T, i, "IDENT") THEN Err("a field expected")
  ELSE LET r == TLCEval(PType1(T, i + 1)) IN IF Fails(r) THEN r ELSE PPairs(T, r.i, TLCEval(Append(fs, Name(T, i))), TLCEval(Append(ts, r.x)))
PAggregate(T, i, k) ==
  IF ~Is(T, i + 1, "IDENT") \/ ~Is(T, i + 2, "{") THEN Err("the name and the fields of a struct expected")
  ELSE LET r == TLCEval(PPairs(T, i + 3, <<>>, <<>>)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> k, s |-> Name(T, i + 1), fs |-> r.x.fs, ts |-> r.x.ts])

RECURSIVE PImportTypes(_, _, _)
PImportTypes(T, i, acc) ==
  IF ~Is(T, i, ",") THEN Err("a comma expected")
  ELSE IF Is(T, i + 1, "STRING") THEN Got(i + 2, [ts |-> acc, path |-> Tk(T, i + 1).v])
  ELSE LET r == TLCEval(PType1(T, i + 1)) IN IF Fails(r) THEN r ELSE PImportTypes(T, r.i, TLCEval(Append(acc, r.x)))

PFunction(T, i, pub) ==
  IF ~Is(T, i, "func") \/ ~Is(T, i + 1, "IDENT") THEN Err("a function expected")
  ELSE LET r == TLCEval(PFunc(T, i + 2)) IN
       IF Fails(r) THEN r
       ELSE Got(r.i, [k |-> "func", s |-> Name(T, i + 1), ps |-> r.x.ps, pts |-> r.x.pts, rt |-> r.x.rt, b |-> r.x.b, pub |-> pub])

Platforms == {"WINDOWS", "MACOS", "LINUX", "X64", "ARM64", "ARM", "ARM64BE", "ARMBE"}
PMacro(T, i) ==
  LET e == TLCEval(PExpr(T, i + 1, 0))
      mc == IF e.x.k = "int" THEN <<"int", e.x.d>> ELSE IF e.x.k = "char" THEN <<"int", <<e.x.v>>>>
            ELSE IF e.x.k = "id" /\ e.x.s \in Platforms THEN <<"name", e.x.s>> ELSE <<>>
      b == TLCEval(IF Fails(e) THEN e ELSE PBlock(T, e.i))
  IN IF Fails(e) THEN e ELSE IF mc = <<>> THEN Err("a condition of #if expected") ELSE IF Fails(b) THEN b
     ELSE Got(b.i, [k |-> "macro", mc |-> mc, c |-> b.x.c])

PStmt0(T, i) ==
  LET t == Tk(T, i).t IN
  CASE t = "IDENT" /\ Is(T, i + 1, ":") -> PDeclaration(T, i, FALSE)
    [] t = "const" -> PDeclaration(T, i + 1, TRUE)
    [] t \in {"IDENT", "*", "("} -> PAssign(T, i)
    [] t = "if" -> PIf(T, i)
    [] t = "for" -> PFor(T, i)
    [] t = "switch" -> PSwitch(T, i)
    [] t = "{" -> PBlock(T, i)
    [] t = "return" -> IF Is(T, i + 1, ";") THEN Got(i + 1, [k |-> "ret", c |-> <<>>])
                       ELSE LET r == TLCEval(PExpr(T, i + 1, 0)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "ret", c |-> <<r.x>>])
    [] t = "break" -> Got(i + 1, [k |-> "brk"])
    [] t = "continue" -> Got(i + 1, [k |-> "cont"])
    [] t = "struct" -> PAggregate(T, i, "struct")
    [] t = "union" -> PAggregate(T, i, "union")
    [] t = "func" -> PFunction(T, i, FALSE)
    [] t = "pub" -> PFunction(T, i + 1, TRUE)
    [] t = "extern" -> IF ~Is(T, i + 1, "func") THEN Err("a function expected")
                       ELSE LET r == TLCEval(PFnType(T, i + 1)) IN
                            IF Fails(r) THEN r ELSE IF r.x.nm = "" THEN Err("the name of a function expected")
                            ELSE Got(r.i, [k |-> "extern", s |-> r.x.nm, pts |-> r.x.ps, rt |-> r.x.rt, var |-> r.x.va])
    [] t = "type" -> IF ~Is(T, i + 1, "IDENT") THEN Err("the name of a type expected")
                     ELSE IF Is(T, i + 2, "=") THEN LET r == TLCEval(PType1(T, i + 3)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "alias", s |-> Name(T, i + 1), t |-> r.x])
                     ELSE Got(i + 2, [k |-> "tparam", s |-> Name(T, i + 1)])
    [] t = "import" -> IF ~Is(T, i + 1, "IDENT") THEN Err("the name of an import expected")
                       ELSE LET r == TLCEval(PImportTypes(T, i + 2, <<>>)) IN
                            IF Fails(r) THEN r ELSE Got(r.i, [k |-> "import", s |-> Name(T, i + 1), ts |-> r.x.ts, path |-> r.x.path])
    [] t = "#if" -> PMacro(T, i)
    [] OTHER -> LET r == TLCEval(PExpr(T, i, 0)) IN IF Fails(r) THEN r ELSE Got(r.i, [k |-> "ex", c |-> <<r.x>>])
PStmt(T, i) == LET r == TLCEval(PStmt0(T, i)) IN IF Fails(r) THEN r ELSE Got(Semicolons(T, r.i), r.x)

PFile(b) == LET T == TLCEval(Lex(b)) IN PStmts(T, 1, "EOF")

------------------------------------------------------------------------------
(* files *)
RECURSIVE SplitPath(_, _, _, _)
SplitPath(b, i, cur, acc) ==
  IF i > Len(b) THEN Append(acc, cur)
  ELSE IF b[i] = 47 THEN SplitPath(b, i + 1, <<>>, Append(acc, cur)) ELSE SplitPath(b, i + 1, Append(cur, b[i]), acc)
\* the parts of a path without "." and ".."; "bad" when it leaves the directory of the program
RECURSIVE Normal(_, _, _)
Normal(ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE IF ps[i] = <<>> \/ ps[i] = <<46>> THEN Normal(ps, i + 1, acc)
  ELSE IF ps[i] = <<46, 46>> THEN IF acc = <<>> THEN <<"out">> ELSE Normal(ps, i + 1, SubSeq(acc, 1, Len(acc) - 1))
  ELSE Normal(ps, i + 1, Append(acc, ps[i]))
PathOf(name) == SplitPath(Bytes(name), 1, <<>>, <<>>)
\* import paths are relative to the file that has them
Target2(from, path) == LET d == PathOf(from) IN Normal(SubSeq(d, 1, Len(d) - 1) \o SplitPath(path, 1, <<>>, <<>>), 1, <<>>)
FileIdx(src, parts) == LET S == {j \in DOMAIN src : Normal(PathOf(src[j].file), 1, <<>>) = parts} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

\* acc = [e, mods: <<[src, ds (trees)]>>]; reads file j of src and what it imports
RECURSIVE Load(_, _, _, _)
RECURSIVE LoadImports(_, _, _, _, _, _)
ModIdx(mods, j) == LET S == {m \in DOMAIN mods : mods[m].src = j} IN IF S = {} THEN 0 ELSE CHOOSE m \in S : TRUE
LoadImports(src, acc, m, ds, i, busy) ==
  IF i > Len(ds) \/ acc.e # "" THEN acc
  ELSE IF ds[i].k = "macro" /\ (\E n \in DOMAIN ds[i].c : ds[i].c[n].k \in {"import", "macro"}) THEN [acc EXCEPT !.e = "?import under #if"]
  ELSE IF ds[i].k # "import" THEN LoadImports(src, acc, m, ds, i + 1, busy)
  ELSE LET j == FileIdx(src, Target2(src[acc.mods[m].src].file, ds[i].path)) IN
       IF j = 0 THEN [acc EXCEPT !.e = "no such file"]
       ELSE IF j \in busy THEN [acc EXCEPT !.e = "files that import each other"]
       ELSE LET a == TLCEval(IF ModIdx(acc.mods, j) # 0 THEN acc ELSE Load(src, acc, j, busy)) IN
            LoadImports(src, IF a.e # "" THEN a
                             ELSE [a EXCEPT !.mods[m].ds[i] = [k |-> "import", s |-> ds[i].s, ts |-> ds[i].ts, m |-> ModIdx(a.mods, j)]],
                        m, ds, i + 1, busy)
Load(src, acc, j, busy) ==
  LET r == TLCEval(PFile(src[j].b)) IN
  IF Fails(r) THEN [acc EXCEPT !.e = r.e]
  ELSE LET a == [acc EXCEPT !.mods = Append(@, [src |-> j, ds |-> r.x])] IN
       LoadImports(src, TLCEval(a), Len(a.mods), r.x, 1, busy \union {j})

------------------------------------------------------------------------------
(* from trees to numbered nodes *)
Subtrees == {"b", "init", "cond", "upd", "def"}
RECURSIVE Flat(_, _)          \* <<nodes, number>>
RECURSIVE FlatSet(_, _, _)    \* <<nodes, record>>
FlatSeq(ns, l) ==             \* <<nodes, numbers>>
  Fold!FoldLeft(LAMBDA a, x : LET r == TLCEval(Flat(a[1], x)) IN TLCEval(<<r[1], Append(a[2], r[2])>>), <<ns, <<>>>>, l)
FlatSet(ns, x, keys) ==
  IF keys = {} THEN <<ns, x>>
  ELSE LET f == CHOOSE f \in keys : TRUE
           r == TLCEval(IF x[f].k = "none" THEN <<ns, 0>> ELSE Flat(ns, x[f]))
       IN FlatSet(r[1], TLCEval([x EXCEPT ![f] = r[2]]), keys \ {f})
Flat(ns, x) ==
  LET a == TLCEval(IF "c" \in DOMAIN x THEN FlatSeq(ns, x.c) ELSE <<ns, <<>>>>)
      y == IF "c" \in DOMAIN x THEN [x EXCEPT !.c = a[2]] ELSE x
      b == TLCEval(FlatSet(a[1], y, DOMAIN x \intersect Subtrees))
  IN <<Append(b[1], b[2]), Len(b[1]) + 1>>
RECURSIVE FlatMods(_, _, _, _, _)
FlatMods(src, mods, i, ns, acc) ==
  IF i > Len(mods) THEN [e |-> "", n |-> ns, mods |-> acc]
  ELSE LET r == TLCEval(FlatSeq(ns, mods[i].ds)) IN
       FlatMods(src, mods, i + 1, r[1], TLCEval(Append(acc, [file |-> src[mods[i].src].file, ds |-> r[2]])))

Front(src) ==
  LET l == TLCEval(Load(src, [e |-> "", mods |-> <<>>], 1, {})) IN
  IF l.e # "" THEN [e |-> l.e, n |-> <<>>, mods |-> <<[file |-> "", ds |-> <<>>]>>]
  ELSE FlatMods(src, l.mods, 1, <<>>, <<>>)
=============================================================================
