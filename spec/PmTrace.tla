-------------------------------- MODULE PmTrace --------------------------------
(* Conformance of recorded histories of print modes: the stream, the notation, the documents. *)
EXTENDS PrintMode, Json, IOUtils
TR == JsonDeserialize(IOEnv.TRACE)
OBJ == TR.objs
VARIABLES vSess, vLine, vS, vStat
vars == << vSess, vLine, vS, vStat >>
Init == vSess \in 1..Len(TR.sess) /\ vLine = 1 /\ vS = Pm0 /\ vStat = "run"
Lines == TR.sess[vSess].lines
LN == Lines[vLine]
Chars(str) == [ i \in 1..Len(str) |-> SubSeq(str, i, i) ]
Str(t) == FoldLeft(LAMBDA acc, c : acc \o c, "", t)
RECURSIVE NumS(_)
NumS(k) == IF k < 10 THEN << "0","1","2","3","4","5","6","7","8","9" >>[k+1] ELSE NumS(k \div 10) \o NumS(k % 10)

(* --- what is printed --------------------------------------------------------- *)
Latex(s, o) == OBJ[o].l[s.F * 2 + s.D + 1][s.mv]
Text(s, o) == OBJ[o].t[s.col][s.mv]
Plain(s, o) == IF OBJ[o].own = 1 THEN Text(s, o) ELSE OBJ[o].s[s.mv]      \* str(): multivectors bring their own notation
ItemS(s, it) == CASE it.k = "s" -> it.t
                  [] it.k = "o" -> IF s.flg = 1 THEN Latex(s, it.o) ELSE Text(s, it.o)
                  [] it.k = "str" -> Plain(s, it.o)
                  [] it.k = "repr" -> Text(s, it.o)
                  [] it.k = "latex" -> Latex(s, it.o)
Joined(s, items, sep) == Chars(FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN "" ELSE sep) \o ItemS(s, items[i]), "", [ i \in 1..Len(items) |-> i ]))
Printed(s) == Joined(s, LN.items, LN.sep) \o Chars(LN.end)
RECURSIVE Break(_, _)
Break(a, i) == IF i > Len(a) THEN <<>>
               ELSE IF a[i] = "\\" /\ i < Len(a) /\ a[i+1] = "\\" THEN EEQ \o << NL >> \o BEQ \o << " " >> \o Break(a, i + 2)
               ELSE << a[i] >> \o Break(a, i + 1)
GItem(s, i) == LET it == LN.items[i] IN
   CASE it.k = "s" -> IF i > 1 THEN Break(Chars(it.t), 1) ELSE Chars(it.t)
     [] it.k = "type" -> IF s.gflg = 1 THEN Chars(" \\text{" \o it.t \o "} ") ELSE Chars(it.t)
     [] OTHER -> << " " >> \o Chars(IF s.gflg = 1 THEN Latex(s, it.o) ELSE Plain(s, it.o)) \o << " " >>
GText(s) == FoldLeft(LAMBDA acc, i : acc \o GItem(s, i), <<>>, [ i \in 1..Len(LN.items) |-> i ])
LST == "\\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false,backgroundcolor=\\color{gray},frame=single]"
Stars == Str([ i \in 1..80 |-> "*" ])
Listing(s) == IF s.flg = 1 THEN Chars("##" \o LST \o NL \o LN.src \o NL \o "##\\end{lstlisting}" \o NL \o "#Code Output:" \o NL)
              ELSE Chars(NL \o Stars \o NL \o LN.src \o NL \o "Code output:" \o NL \o NL)
GListing(s) == IF s.gflg = 1 THEN Chars(LST \o LN.src \o "\\end{lstlisting}\\text{Code Output:}")
               ELSE Chars(NL \o Stars \o NL \o LN.src \o NL \o "Code output:" \o NL \o NL)

(* --- the document ---------------------------------------------------------------- *)
Half(k) == IF k % 2 = 0 THEN NumS(k \div 2) ELSE NumS(k \div 2) \o ".5"        \* sizes in half inches
Opening(cls) ==
  << "\\documentclass[" \o LN.pt \o ",fleqn]{" \o cls \o "}" >>
  \o (IF LN.paper = << 0, 0 >> THEN <<>>
      ELSE << "\\usepackage[vcentering]{geometry}",
              "\\geometry{papersize={" \o Half(LN.paper[1]) \o "in," \o Half(LN.paper[2]) \o "in},total={"
              \o Half(LN.paper[1] - 2) \o "in," \o Half(LN.paper[2] - 2) \o "in}}" >>)
NonBlank(ls) == SelectSeq(ls, LAMBDA a : a # "")
Program == IF LN.prog = 1
           THEN << "{\\Large \\bf Program:}\\begin{lstlisting}[language=Python,showspaces=false,showstringspaces=false]" >>
                \o NonBlank([ i \in 1..Len(LinesOf(Chars(LN.src))) |-> Str(LinesOf(Chars(LN.src))[i]) ])
                \o << "\\end{lstlisting}", " {\\Large \\bf Code Output:} " >> ELSE <<>>
Body(text) == LET d == TLCEval(Document(text)) IN Program \o [ i \in 1..Len(d) |-> Str(d[i]) ]
(* programs called to show the document, and to tidy up after it *)
Shown(root) ==
  << LN.pdf \o " " \o root \o " > /dev/null", "evince " \o root \o ".pdf &", "input", "rm " \o root \o ".aux " \o root \o ".log " \o root \o ".tex" >>
  \o (IF LN.crop = 1 THEN << "pdfcrop " \o root \o ".pdf", "remove " \o root \o ".pdf", "rename " \o root \o "-crop.pdf " \o root \o ".pdf" >> ELSE <<>>)
  \o (IF LN.png = 1 THEN << "Pdf2Png " \o root >> ELSE <<>>)
GShown(root) ==
  << LN.pdf \o " " \o root \o ".tex" >> \o (IF LN.evince = 1 THEN << "evince " \o root \o ".pdf" >> ELSE <<>>)
  \o (IF LN.rm = 1 THEN << "rm " \o root \o ".aux " \o root \o ".log " \o root \o ".tex" >> ELSE <<>>)
  \o (IF LN.crop = 1 THEN << "pdfcrop " \o root \o ".pdf", "rm " \o root \o ".pdf", "mv " \o root \o "-crop.pdf " \o root \o ".pdf" >> ELSE <<>>)
  \o (IF LN.png = 1 THEN << "Pdf2Png " \o root >> ELSE <<>>)

(* --- the elements of a list, tuple or dict: each of them once, in order, in balanced brackets --------------- *)
Clean(t) == Chars(FoldLeft(LAMBDA acc, c : acc \o (IF c = NL THEN " " ELSE c), "", Chars(t)))
RECURSIVE Without(_, _, _)
Without(a, cells, i) == IF i > Len(cells) THEN << a >>
   ELSE LET k == FindIn(a, cells[i]) IN
          IF k = 0 THEN << Chars("missing") >> ELSE << SubSeq(a, 1, k - 1) >> \o Without(Drop(a, k + Len(cells[i]) - 1), cells, i + 1)
Count(parts, w) == FoldLeft(LAMBDA acc, a : acc + Cardinality({ i \in 1..(Len(a) - Len(w) + 1) : SubSeq(a, i, i + Len(w) - 1) = w }), 0, parts)
CellsOf(s) == LET n == Len(LN.items) IN
   IF LN.kind = "dict" THEN [ i \in 1..(2 * n) |-> IF i % 2 = 1 THEN Chars(LN.items[(i + 1) \div 2].t) ELSE Clean(Latex(s, LN.items[i \div 2].o)) ]
   ELSE [ i \in 1..n |-> Clean(Latex(s, LN.items[i].o)) ]
Container(s, text) ==
  LET p == TLCEval(Without(Chars(text), CellsOf(s), 1))
      d == IF LN.kind = "list" THEN << "[", "]" >> ELSE IF LN.kind = "tuple" THEN << "(", ")" >> ELSE << "\\{", "\\}" >>
  IN /\ Count(p, Chars("missing")) = 0
     /\ Count(p, Chars("\\left ")) + Count(p, Chars("\\left.")) = Count(p, Chars("\\right ")) + Count(p, Chars("\\right."))
     /\ Count(p, Chars("\\left " \o d[1])) = 1 /\ Count(p, Chars("\\right " \o d[2])) = 1
     /\ Count(p, Chars("\\begin{array}")) = Count(p, Chars("\\end{array}"))

(* --- one step -------------------------------------------------------------------- *)
Wrote(s, t) == [ s |-> Write(s, t), term |-> Seen(s, t) ]
Quiet(s) == [ s |-> s, term |-> <<>> ]
After ==
  CASE LN.op = "print" -> Wrote(vS, Printed(vS))
    [] LN.op = "format" -> Quiet(FormatOn(vS, LN.F, LN.D))
    [] LN.op = "latexformat" -> Quiet(LatexFormatOn(vS, LN.F, LN.D, LN.ipy))
    [] LN.op = "redirect" -> Quiet(Redirect(vS))
    [] LN.op = "restore" -> Quiet(Restore(vS))
    [] LN.op = "tex" -> Quiet(Take(vS))
    [] LN.op = "xpdf" -> [ s |-> Take(vS), term |-> IF LN.pdf = "" THEN <<>> ELSE Chars("evince " \o LN.root \o ".pdf &" \o NL) ]
    [] LN.op = "eprint" -> Quiet([ vS EXCEPT !.col = LN.col ])
    [] LN.op = "fmt" -> Quiet([ vS EXCEPT !.mv = LN.mv ])
    [] LN.op = "getprog" -> Quiet([ vS EXCEPT !.off = LN.off ])
    [] LN.op = "printfn" -> IF vS.off = 1 THEN Quiet(vS) ELSE Wrote(vS, Listing(vS))
    [] LN.op = "gformat" -> Quiet(GOn(vS, LN.F, LN.D))
    [] LN.op = "gprint" -> IF vS.gflg = 1 THEN Quiet(GWrite(vS, BEQ \o << " " >> \o GText(vS) \o EEQ \o << " ", NL >>))
                           ELSE Wrote(vS, GText(vS) \o << NL >>)
    [] LN.op = "gprintfn" -> IF vS.gflg = 1 THEN Quiet(GWrite(vS, GListing(vS))) ELSE Wrote(vS, GListing(vS))
    [] LN.op = "gxpdf" -> Quiet(GTake(vS))
    [] LN.op = "latex" -> Quiet(vS)
    [] LN.op = "container" -> Quiet(vS)
Seen_(a) == [ term |-> Str(a.term), out |-> a.s.out, flg |-> a.s.flg, gflg |-> a.s.gflg ]
Want ==
  LET a == After IN Seen_(a) @@
   CASE LN.op = "tex" -> [ head |-> Opening("report"), body |-> Body(Taken(vS)) ]
     [] LN.op = "xpdf" -> [ head |-> Opening("report"), body |-> Body(Taken(vS)), cmds |-> IF LN.pdf = "" THEN <<>> ELSE Shown(LN.root) ]
     [] LN.op = "gxpdf" -> [ head |-> Opening(LN.cls), text |-> Str(vS.gbuf), cmds |-> IF LN.pdf = "" THEN <<>> ELSE GShown(LN.root) ]
     [] LN.op = "latex" -> [ text |-> Str(Joined(vS, LN.items, "")) ]
     [] LN.op = "container" -> [ text |-> IF "text" \in DOMAIN LN.obs /\ Container(vS, LN.obs.text) THEN LN.obs.text ELSE "the elements, each once" ]
     [] OTHER -> [ out |-> a.s.out ]
Good(w) == LN.st = "ok" /\ (\A f \in DOMAIN w : f \in DOMAIN LN.obs /\ LN.obs[f] = w[f])
Say(tag, w) == PrintT(ToJson([ tag |-> tag, sess |-> TR.sess[vSess].id, line |-> vLine, op |-> LN.op, want |-> w ]))
Step ==
  /\ vStat = "run" /\ vLine <= Len(Lines)
  /\ LET w == TLCEval(Want) IN
      IF Good(w)
      THEN /\ vLine' = vLine + 1 /\ vS' = After.s
           /\ vStat' = IF vLine = Len(Lines) THEN "done" ELSE "run"
           /\ (vLine = Len(Lines) => Say("DONE", <<>>))
      ELSE /\ vStat' = "bad" /\ Say("DIVERGE", w) /\ UNCHANGED << vLine, vS >>
  /\ UNCHANGED vSess
Next == Step
Spec == Init /\ [][Next]_vars
TypeOK == vStat \in { "run", "done", "bad" }
================================================================================
