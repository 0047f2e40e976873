------------------------------- MODULE CdLex -------------------------------
(***************************************************************************)
(* The tokens of candice.  A source text is a sequence of bytes; Lex(b) is  *)
(* its sequence of tokens [t: type, v: bytes of its text or value, l: line  *)
(* it starts on], the last one is "EOF" or, when the text has no meaning    *)
(* from some point on, "ILLEGAL".                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Fold == INSTANCE SequencesExt

\* steps of Op until the accumulator is done (in rounds: TLC's evaluation slows down with the depth of recursion)
Ticks == [i \in 1..64 |-> i]
RECURSIVE Loop(_, _)
Loop(Op(_), acc) ==
  LET a == TLCEval(Fold!FoldLeft(LAMBDA x, i : IF x.done THEN x ELSE TLCEval(Op(x)), acc, Ticks)) IN IF a.done THEN a ELSE Loop(Op, a)

\* printable characters, from code 32 on
Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(c) == SubSeq(Chars, c - 31, c - 31)
RECURSIVE TextRec(_, _)
TextRec(b, i) == IF i > Len(b) THEN "" ELSE Chr(b[i]) \o TextRec(b, i + 1)
Text(b) == TextRec(b, 1)
\* a string of printable characters as bytes
OrdOf == TLCEval([c \in {Chr(k) : k \in 32..126} |-> CHOOSE k \in 32..126 : Chr(k) = c])
Bytes(s) == [i \in 1..Len(s) |-> OrdOf[SubSeq(s, i, i)]]

IsDigit(c) == c >= 48 /\ c <= 57
IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsBlank(c) == c \in {32, 9, 13, 10}

Keywords == {"func", "pub", "true", "false", "if", "else", "for", "return", "struct", "import", "break", "extern",
             "continue", "type", "as", "union", "switch", "case", "default", "const"}
Two == {"..", "==", "!=", "++", "--", "<<", "<=", ">>", ">=", "&&", "||"}
Single == {"@", ".", ":", "[", "]", "=", "!", "%", ";", "(", ")", "+", "-", "/", "*", "<", ">", "&", "|", "^", ",", "{", "}"}

\* At(b, i): byte i, -1 past the end
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
RECURSIVE EndWord(_, _)
EndWord(b, i) == IF i <= Len(b) /\ (IsLetter(b[i]) \/ IsDigit(b[i])) THEN EndWord(b, i + 1) ELSE i
RECURSIVE EndDec(_, _)
EndDec(b, i) == IF i <= Len(b) /\ IsDigit(b[i]) THEN EndDec(b, i + 1) ELSE i
RECURSIVE EndHex(_, _)
EndHex(b, i) == IF i <= Len(b) /\ IsHex(b[i]) THEN EndHex(b, i + 1) ELSE i
RECURSIVE EndBin(_, _)
EndBin(b, i) == IF i <= Len(b) /\ b[i] \in {48, 49} THEN EndBin(b, i + 1) ELSE i
RECURSIVE EndLine(_, _)
EndLine(b, i) == IF i <= Len(b) /\ b[i] # 10 THEN EndLine(b, i + 1) ELSE i

\* white space and comments: <<next position, line>>
RECURSIVE Skip(_, _, _)
Skip(b, i, l) ==
  IF i > Len(b) THEN <<i, l>>
  ELSE IF IsBlank(b[i]) THEN Skip(b, i + 1, IF b[i] = 10 THEN l + 1 ELSE l)
  ELSE IF b[i] = 47 /\ At(b, i + 1) = 47 THEN Skip(b, EndLine(b, i), l)
  ELSE <<i, l>>

\* the bytes of a string whose quote is before i: <<value, position after the closing quote>>, position 0 when there is none.
\* \n is a new line, any other escaped character is itself
RECURSIVE Quoted(_, _, _)
Quoted(b, i, acc) ==
  IF i > Len(b) THEN <<acc, 0>>
  ELSE IF b[i] = 34 THEN <<acc, i + 1>>
  ELSE IF b[i] = 92 THEN
    IF i + 1 > Len(b) THEN <<acc, 0>>
    ELSE Quoted(b, i + 2, TLCEval(Append(acc, IF b[i + 1] = 110 THEN 10 ELSE b[i + 1])))
  ELSE Quoted(b, i + 1, TLCEval(Append(acc, b[i])))
\* '.' or '\.': <<value, position after the closing quote>> or position 0
CharEscape(c) == IF c = 110 THEN 10 ELSE IF c = 116 THEN 9 ELSE IF c = 114 THEN 13 ELSE c
CharLit(b, i) ==
  LET esc == At(b, i) = 92
      j == IF esc THEN i + 1 ELSE i
  IN IF At(b, j) >= 0 /\ At(b, j + 1) = 39 THEN <<IF esc THEN CharEscape(b[j]) ELSE b[j], j + 2>> ELSE <<0, 0>>

RECURSIVE NewLines(_, _, _)
NewLines(b, i, j) == IF i >= j THEN 0 ELSE (IF b[i] = 10 THEN 1 ELSE 0) + NewLines(b, i + 1, j)

\* the token at i (which is no white space): [t, v, j: position after it]
TokenAt(b, i) ==
  LET c == b[i]
      Tk(t, j) == [t |-> t, v |-> SubSeq(b, i, j - 1), j |-> j]
      Illegal == [t |-> "ILLEGAL", v |-> <<>>, j |-> 0]
  IN
  IF IsLetter(c) THEN
    LET j == EndWord(b, i)
        s == Text(SubSeq(b, i, j - 1))
    IN Tk(IF s \in Keywords THEN s ELSE "IDENT", j)
  ELSE IF IsDigit(c) THEN
    IF c = 48 /\ At(b, i + 1) = 120 THEN Tk("HEX", EndHex(b, i + 2))
    ELSE IF c = 48 /\ At(b, i + 1) = 98 THEN Tk("BINARY", EndBin(b, i + 2))
    ELSE LET j == EndDec(b, i) IN
         IF At(b, j) = 46 /\ IsDigit(At(b, j + 1)) THEN Tk("FLOAT", EndDec(b, j + 1)) ELSE Tk("INT", j)
  ELSE IF c = 34 THEN
    LET q == Quoted(b, i + 1, <<>>) IN IF q[2] = 0 THEN Illegal ELSE [t |-> "STRING", v |-> q[1], j |-> q[2]]
  ELSE IF c = 39 THEN
    LET q == CharLit(b, i + 1) IN IF q[2] = 0 THEN Illegal ELSE [t |-> "CHAR", v |-> <<q[1]>>, j |-> q[2]]
  ELSE IF c = 35 THEN
    LET j == EndWord(b, i + 1) IN IF SubSeq(b, i + 1, j - 1) = <<105, 102>> THEN [t |-> "#if", v |-> <<35>>, j |-> j] ELSE Illegal
  ELSE IF c < 32 \/ c > 126 THEN Illegal
  ELSE IF At(b, i + 1) > 31 /\ At(b, i + 1) < 127 /\ (Chr(c) \o Chr(b[i + 1])) \in Two THEN Tk(Chr(c) \o Chr(b[i + 1]), i + 2)
  ELSE IF Chr(c) \in Single THEN Tk(Chr(c), i + 1)
  ELSE Illegal

\* a = [i: position, l: line, ts: tokens, done]
LexStep(b, a) ==
  LET s == TLCEval(Skip(b, a.i, a.l)) IN
  IF s[1] > Len(b) THEN [a EXCEPT !.ts = Append(@, [t |-> "EOF", v |-> <<>>, l |-> s[2]]), !.done = TRUE]
  ELSE LET k == TLCEval(TokenAt(b, s[1]))
           ts == Append(a.ts, [t |-> k.t, v |-> k.v, l |-> s[2]])
       IN IF k.t = "ILLEGAL" THEN [a EXCEPT !.ts = ts, !.done = TRUE]
          ELSE [i |-> k.j, l |-> s[2] + NewLines(b, s[1], k.j), ts |-> ts, done |-> FALSE]
Lex(b) == Loop(LAMBDA a : LexStep(b, a), [i |-> 1, l |-> 1, ts |-> <<>>, done |-> FALSE]).ts
=============================================================================
