------------------------------- MODULE PrintMode -------------------------------
(***************************************************************************)
(* Print modes: where printed text goes, in which notation, and what the    *)
(* document made of the captured text says.  Texts are sequences of          *)
(* one-character strings.  The state is one record:                          *)
(*   out   "term" | "cap"   where print() writes                             *)
(*   flg   latex notation of printed objects                                 *)
(*   ipy   notebook mode: latex notation, no capture                         *)
(*   buf   captured text;  stash  text captured before the last restore      *)
(*   F, D  omit function arguments / derivative fractions;  mv  lines of a   *)
(*         multivector;  col  colouring of text;  off  no program listings    *)
(*   gflg, gbuf   the second capture mechanism (gFormat, gprint, gxpdf)      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NL == "\n"
Pm0 == [ out |-> "term", flg |-> 0, ipy |-> 0, buf |-> <<>>, stash |-> <<>>, F |-> 0, D |-> 0, mv |-> 1, col |-> 1, off |-> 0,
         gflg |-> 0, gbuf |-> <<>> ]

(* --- transitions ----------------------------------------------------------- *)
Redirect(s) == [ s EXCEPT !.flg = 1, !.out = IF s.ipy = 1 THEN s.out ELSE "cap" ]
Restore(s) == [ s EXCEPT !.flg = 0, !.out = "term", !.stash = s.stash \o s.buf, !.buf = <<>> ]
FormatOn(s, F, D) == LET t == [ s EXCEPT !.F = F, !.D = D ] IN IF s.flg = 1 THEN t ELSE Redirect(t)
LatexFormatOn(s, F, D, ipy) == Redirect([ s EXCEPT !.F = F, !.D = D, !.ipy = ipy ])
(* leaving with a document: it holds what was captured since the last one *)
Take(s) == [ Restore(s) EXCEPT !.stash = <<>> ]
Taken(s) == s.stash \o s.buf
GOn(s, F, D) == [ s EXCEPT !.F = F, !.D = D, !.gflg = 1 ]
Write(s, text) == IF s.out = "cap" THEN [ s EXCEPT !.buf = s.buf \o text ] ELSE s
Seen(s, text) == IF s.out = "cap" THEN <<>> ELSE text
GWrite(s, text) == [ s EXCEPT !.gbuf = s.gbuf \o text ]
GTake(s) == [ s EXCEPT !.gbuf = <<>> ]

(* --- documents --------------------------------------------------------------- *)
TextOf(str) == str
StartsWith(a, b) == Len(b) <= Len(a) /\ SubSeq(a, 1, Len(b)) = b
Drop(a, k) == SubSeq(a, k + 1, Len(a))
FindIn(a, b) == LET P == { i \in 1..(Len(a) - Len(b) + 1) : SubSeq(a, i, i + Len(b) - 1) = b }
                IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
LastOf(a, c) == LET P == { i \in 1..Len(a) : a[i] = c } IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i >= j
RECURSIVE LinesOf(_)
LinesOf(t) == LET P == { i \in 1..Len(t) : t[i] = NL } IN
                IF P = {} THEN (IF t = <<>> THEN <<>> ELSE << t >>)
                ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j
                     IN << SubSeq(t, 1, i - 1) >> \o LinesOf(Drop(t, i))
IsSp(c) == c \in { " ", "\t", "\r" }
RECURSIVE LStrip(_)
LStrip(a) == IF a # <<>> /\ IsSp(a[1]) THEN LStrip(Tail(a)) ELSE a
RECURSIVE RStrip(_)
RStrip(a) == IF a # <<>> /\ IsSp(a[Len(a)]) THEN RStrip(SubSeq(a, 1, Len(a) - 1)) ELSE a
ALIGN == << "\\", "b", "e", "g", "i", "n", "{", "a", "l", "i", "g", "n", "*", "}" >>
BEQ == << "\\", "b", "e", "g", "i", "n", "{", "e", "q", "u", "a", "t", "i", "o", "n", "*", "}" >>
EEQ == << "\\", "e", "n", "d", "{", "e", "q", "u", "a", "t", "i", "o", "n", "*", "}" >>
GRAD == << "g", "r", "a", "d" >>
BRGRAD == << "r", "g", "r", "a", "d" >>
NABLA == << "\\", "b", "o", "l", "d", "s", "y", "m", "b", "o", "l", "{", "\\", "n", "a", "b", "l", "a", "}" >>
LETTERS == { "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
             "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
             "0","1","2","3","4","5","6","7","8","9","_" }
Wd(a, i) == i >= 1 /\ i <= Len(a) /\ a[i] \in LETTERS
Word(a, i, w) == /\ i + Len(w) - 1 <= Len(a) /\ SubSeq(a, i, i + Len(w) - 1) = w
                 /\ ~Wd(a, i - 1) /\ ~Wd(a, i + Len(w))
(* operators of the algebra, spelled in TeX *)
RECURSIVE Tx(_, _)
Tx(a, i) ==
  IF i > Len(a) THEN <<>>
  ELSE LET c == a[i]  d == IF i < Len(a) THEN a[i+1] ELSE "" IN
    CASE c = "|" -> << "\\", "c", "d", "o", "t", " " >> \o Tx(a, i + 1)
      [] c = "^" /\ d # "{" -> << "\\", "W", " " >> \o Tx(a, i + 1)
      [] c = "*" -> << " " >> \o Tx(a, i + 1)
      [] Word(a, i, BRGRAD) -> << "\\", "b", "a", "r", "{" >> \o NABLA \o << "}", " " >> \o Tx(a, i + 5)
      [] Word(a, i, GRAD) -> NABLA \o << " " >> \o Tx(a, i + 4)
      [] c = ">" /\ d = ">" -> << " ", "\\", "t", "i", "m", "e", "s", " " >> \o Tx(a, i + 2)
      [] c = "<" /\ d = "<" -> << " ", "\\", "b", "a", "r", "{", "\\", "t", "i", "m", "e", "s", "}", " " >> \o Tx(a, i + 2)
      [] c = "<" -> << "\\", "r", "f", "l", "o", "o", "r", " " >> \o Tx(a, i + 1)
      [] c = ">" -> << "\\", "l", "f", "l", "o", "o", "r", " " >> \o Tx(a, i + 1)
      [] OTHER -> << c >> \o Tx(a, i + 1)
Texify(a) == Tx(a, 1)
(* an environment around the line; a label before an alignment moves into it *)
Env(a) == LET i == FindIn(a, ALIGN) IN
            IF i > 0 THEN ALIGN \o << " " >> \o LStrip(SubSeq(a, 1, i - 1) \o Drop(a, i + Len(ALIGN) - 1))
            ELSE BEQ \o << " " >> \o RStrip(LStrip(a)) \o << " " >> \o EEQ
Ops(a) == LET i == LastOf(a, "=") IN IF i = 0 THEN a ELSE Texify(SubSeq(a, 1, i - 1)) \o Drop(a, i - 1)
Class(a, code) == IF StartsWith(a, << "#", "#" >>) THEN "toggle" ELSE IF code = 1 THEN "code"
                  ELSE IF StartsWith(a, << "#", "%" >>) THEN "raw2" ELSE IF StartsWith(a, << "#" >>) THEN "text"
                  ELSE IF StartsWith(a, << "%" >>) THEN "raw1" ELSE "math"
DocLine(a, code) == CASE Class(a, code) = "toggle" -> Drop(a, 2)
                      [] Class(a, code) = "code" -> a
                      [] Class(a, code) = "text" -> Drop(a, 1)
                      [] Class(a, code) = "raw1" -> Env(Drop(a, 1))
                      [] Class(a, code) = "raw2" -> Env(Drop(a, 2))
                      [] OTHER -> Env(Ops(a))
(* the lines of the document: blank lines carry nothing *)
RECURSIVE DocLines(_, _, _)
DocLines(ls, i, code) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET a == ls[i]
           nx == IF a # <<>> /\ Class(a, code) = "toggle" THEN 1 - code ELSE code
           o == IF a = <<>> THEN <<>> ELSE DocLine(a, code)
       IN (IF o = <<>> THEN <<>> ELSE << o >>) \o DocLines(ls, i + 1, nx)
Document(text) == DocLines(LinesOf(text), 1, 0)
================================================================================
