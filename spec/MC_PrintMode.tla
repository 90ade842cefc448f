----------------------------- MODULE MC_PrintMode -----------------------------
(* Every line printed is delivered once, in order: to the terminal, or to one document, or it waits to be captured; and what the *)
(* documents say about the lines.  The behaviours are printed for replay into the code.                                           *)
EXTENDS PrintMode, Json
CONSTANTS Depth, Gen
VARIABLES vS, vLog, vTerm, vDocs, vCount, vOps
vars == << vS, vLog, vTerm, vDocs, vCount, vOps >>
Line(k) == << CHOOSE c \in LETTERS : \E i \in 0..9 : c = << "0","1","2","3","4","5","6","7","8","9" >>[i+1] /\ i = k, NL >>
Init == vS = Pm0 /\ vLog = <<>> /\ vTerm = <<>> /\ vDocs = <<>> /\ vCount = 0 /\ vOps = <<>>
Prn == /\ LET t == Line(vCount + 1) IN
            /\ vS' = Write(vS, t) /\ vTerm' = vTerm \o Seen(vS, t)
       /\ vCount' = vCount + 1 /\ UNCHANGED vDocs /\ vOps' = Append(vOps, "print")
Set(s, name) == vS' = s /\ UNCHANGED << vTerm, vDocs, vCount >> /\ vOps' = Append(vOps, name)
Doc == vS' = Take(vS) /\ vDocs' = vDocs \o Taken(vS) /\ UNCHANGED << vTerm, vCount >> /\ vOps' = Append(vOps, "tex")
Next == /\ Len(vOps) < Depth /\ UNCHANGED vLog
        /\ \/ Prn \/ Doc \/ Set(FormatOn(vS, 1, 1), "format") \/ Set(FormatOn(vS, 0, 1), "format01")
           \/ Set(LatexFormatOn(vS, 1, 0, 0), "latexformat") \/ Set(LatexFormatOn(vS, 0, 0, 1), "latexformatipy")
           \/ Set(Redirect(vS), "redirect") \/ Set(Restore(vS), "restore")
Spec == Init /\ [][Next]_vars
Digits(t) == SelectSeq(t, LAMBDA c : c # NL)
All == Digits(vTerm) \o Digits(vDocs) \o Digits(vS.stash) \o Digits(vS.buf)
(* every printed line is in exactly one place *)
Once == Len(All) = vCount /\ Cardinality({ All[i] : i \in 1..Len(All) }) = vCount
Rank(c) == CHOOSE i \in 0..9 : c = << "0","1","2","3","4","5","6","7","8","9" >>[i+1]
Rising(t) == \A i \in 1..(Len(t) - 1) : Rank(t[i]) < Rank(t[i+1])
Ordered == Rising(Digits(vTerm)) /\ Rising(Digits(vDocs) \o Digits(vS.stash) \o Digits(vS.buf))
(* capture is only on in latex mode; leaving it frees the stream and leaves nothing behind *)
Modes == /\ (vS.out = "cap" => vS.flg = 1) /\ (vS.flg = 0 => vS.out = "term" /\ vS.buf = <<>>)
         /\ Restore(vS).out = "term" /\ Restore(vS).flg = 0
         /\ Restore(Restore(vS)) = Restore(vS)
         /\ Redirect(Redirect(vS)) = Redirect(vS)
         /\ Taken(Take(vS)) = <<>>
         /\ (vS.ipy = 0 => Restore(Redirect(vS)).stash = Restore(vS).stash)
Emit == (Gen /\ Len(vOps) = Depth) => PrintT(ToJson([ tag |-> "HIST", ops |-> vOps ]))
(* the text of the document *)
A == { "x", "*", "^", "{", "=", "<", "|", "#", "%", " " }
Words == UNION { [ 1..k -> A ] : k \in 0..3 }
ASSUME \A w \in Words : (\A i \in 1..Len(w) : w[i] \notin { "*", "^", "<", "|" }) => Texify(w) = w
ASSUME \A w \in Words : \A i \in 1..Len(Texify(w)) : Texify(w)[i] \notin { "*", "<", "|" }
ASSUME \A w \in Words : (w # <<>> /\ Class(w, 0) \in { "math", "raw1", "raw2" }) =>
         LET d == DocLine(w, 0) IN StartsWith(d, BEQ) /\ SubSeq(d, Len(d) - Len(EEQ) + 1, Len(d)) = EEQ
ASSUME \A w \in Words : DocLine(w, 1) = (IF StartsWith(w, << "#", "#" >>) THEN Drop(w, 2) ELSE w)
ASSUME \A w, v \in UNION { [ 1..k -> { "x", "#", "=", "*" } ] : k \in 1..3 } :
         (Class(w, 0) # "toggle") => Document(w \o << NL >> \o v) = Document(w) \o Document(v)
ASSUME Texify(<< "g", "r", "a", "d", "*", "x" >>) = NABLA \o << " ", " ", "x" >>
ASSUME Texify(<< "x", "g", "r", "a", "d" >>) = << "x", "g", "r", "a", "d" >>
ASSUME Texify(<< ">", ">", ">" >>) = << " ", "\\", "t", "i", "m", "e", "s", " ", "\\", "l", "f", "l", "o", "o", "r", " " >>
===============================================================================
