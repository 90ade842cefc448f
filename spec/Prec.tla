------------------------------- MODULE Prec -------------------------------
(* Evaluation order of multivector expressions.  An expression is a sequence of tokens: operands,    *)
(* the operators + - * ^ | < >, parentheses, "f(" (call), "," and ".m" (method call of the operand).  *)
(* An order lists the groups of products, tightest first; + and - are looser than all products.       *)
(* The meaning of an expression is its postfix form, which fixes the tree.                            *)
(* A stack machine consumes one token per step; Post is the declarative definition.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Groups == << {"<", ">", "|"}, {"^"}, {"*"} >>
Signs == {"+", "-"}
Prods == {"<", ">", "|", "^", "*"}
Binary == Signs \cup Prods
IsCall(t, F) == t \in F                     \* F: the call tokens
GroupOf(op) == IF op \in Groups[1] THEN 1 ELSE IF op \in Groups[2] THEN 2 ELSE 3
(* order: a permutation of <<1,2,3>>; the first group is the tightest *)
Level(order, op) == IF op \in Signs THEN 1 ELSE 1 + (CHOOSE k \in 1..3 : order[4-k] = GroupOf(op))

(* ---- stack machine ---- *)
(* st: out: postfix so far; stk: pending operators <<op, level, count>> (level 0: an opening);          *)
(* opd: TRUE after a complete operand                                                              *)
Start == [ out |-> <<>>, stk |-> <<>>, opd |-> FALSE, ok |-> TRUE ]
Top(st) == st.stk[Len(st.stk)]
Pop1(st) == [ st EXCEPT !.out = Append(st.out, Top(st)[1]), !.stk = SubSeq(st.stk, 1, Len(st.stk) - 1) ]
RECURSIVE PopTo(_, _)                     \* pop the operators of at least this level
PopTo(st, l) == IF st.stk = <<>> THEN st ELSE IF Top(st)[2] < l THEN st ELSE PopTo(Pop1(st), l)
Push(st, op, l, c) == [ st EXCEPT !.stk = Append(st.stk, <<op, l, c>>) ]
Fail(st) == [ st EXCEPT !.ok = FALSE ]
AfterProduct(st) == st.stk # <<>> /\ Top(st)[2] > 1       \* waiting for the right operand of a product
Step1(st, t, order, F, M) ==
  CASE ~st.ok -> st
    [] t \in Signs /\ ~st.opd -> IF t = "+" THEN Fail(st) ELSE
                                 IF AfterProduct(st) THEN Push(st, "neg", 9, 0) ELSE Push(st, "neg", 1, 0)
    [] t \in Binary -> IF ~st.opd THEN Fail(st)
                       ELSE [ Push(PopTo(st, Level(order, t)), t, Level(order, t), 0) EXCEPT !.opd = FALSE ]
    [] t = "(" -> IF st.opd THEN Fail(st) ELSE Push(st, "(", 0, 0)
    [] t \in F -> IF st.opd THEN Fail(st) ELSE Push(st, t, 0, 1)
    [] t = "," -> LET p == PopTo(st, 1) IN
                  IF ~st.opd \/ p.stk = <<>> \/ Top(p)[1] = "(" THEN Fail(st)
                  ELSE [ p EXCEPT !.opd = FALSE, !.stk[Len(p.stk)][3] = @ + 1 ]
    [] t = ")" -> LET p == PopTo(st, 1) IN
                  IF ~st.opd \/ p.stk = <<>> THEN Fail(st)
                  ELSE [ p EXCEPT !.stk = SubSeq(p.stk, 1, Len(p.stk) - 1),
                                  !.out = IF Top(p)[1] = "(" THEN @ ELSE Append(@, Top(p)[1] \o ToString(Top(p)[3])) ]
    [] t \in M -> IF ~st.opd THEN Fail(st) ELSE [ st EXCEPT !.out = Append(@, t) ]
    [] OTHER -> IF st.opd THEN Fail(st) ELSE [ st EXCEPT !.out = Append(@, t), !.opd = TRUE ]
Finish(st) == LET p == PopTo(st, 1) IN IF st.ok /\ st.opd /\ p.stk = <<>> THEN [ p EXCEPT !.opd = TRUE ] ELSE Fail(p)
Run(ts, order, F, M) == Finish(FoldLeft(LAMBDA st, t : Step1(st, t, order, F, M), Start, ts))

(* ---- declarative definition, for well-formed expressions ---- *)
Depth(ts, i) == Cardinality({ j \in 1..i : ts[j] = "(" }) - Cardinality({ j \in 1..i : ts[j] = ")" })
BinAt(ts, i) == ts[i] \in Binary /\ i > 1 /\ ts[i-1] \notin Binary \cup {"("}
Tops(ts, S) == { i \in 1..Len(ts) : BinAt(ts, i) /\ ts[i] \in S /\ Depth(ts, i) = 0 }
Last1(S) == CHOOSE i \in S : \A j \in S : j <= i
(* tight: the expression is the right operand of a product, where a sign belongs to its first operand *)
RECURSIVE Post3(_, _, _)
Split(ts, i, order, tl, tr) == Post3(SubSeq(ts, 1, i-1), order, tl) \o Post3(SubSeq(ts, i+1, Len(ts)), order, tr) \o << ts[i] >>
Post3(ts, order, tight) ==
  IF Tops(ts, Signs) # {} THEN Split(ts, Last1(Tops(ts, Signs)), order, tight, FALSE)
  ELSE IF ts[1] = "-" /\ ~tight THEN Post3(Tail(ts), order, FALSE) \o <<"neg">>
  ELSE IF Tops(ts, Groups[order[3]]) # {} THEN Split(ts, Last1(Tops(ts, Groups[order[3]])), order, tight, TRUE)
  ELSE IF Tops(ts, Groups[order[2]]) # {} THEN Split(ts, Last1(Tops(ts, Groups[order[2]])), order, tight, TRUE)
  ELSE IF Tops(ts, Groups[order[1]]) # {} THEN Split(ts, Last1(Tops(ts, Groups[order[1]])), order, tight, TRUE)
  ELSE IF ts[1] = "-" THEN Post3(Tail(ts), order, FALSE) \o <<"neg">>
  ELSE IF ts[1] = "(" THEN Post3(SubSeq(ts, 2, Len(ts)-1), order, FALSE)
  ELSE ts
Post(ts, order) == Post3(ts, order, FALSE)

(* ---- the fully parenthesised expression of a postfix form ---- *)
Render(p) ==
  LET F(s, t) == IF t \in Binary
                 THEN Append(SubSeq(s, 1, Len(s)-2), <<"(">> \o s[Len(s)-1] \o <<t>> \o s[Len(s)] \o <<")">>)
                 ELSE IF t = "neg" THEN Append(SubSeq(s, 1, Len(s)-1), <<"(", "-">> \o s[Len(s)] \o <<")">>)
                 ELSE Append(s, <<t>>)
  IN FoldLeft(F, <<>>, p)[1]
=============================================================================
