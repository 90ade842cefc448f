------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* A process in which several algebras are alive (some with the same basis *)
(* names and coordinates).  Each has operands, which no query changes, and *)
(* memo tables, which queries fill.  The answer to a query is a function   *)
(* of the query, the algebra and the documented modes: the dual mode       *)
(* (global) and the dot mode (of the algebra).  The tables are transparent.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

DualModes == { "I+", "Iinv-", "+Iinv" }
DotModes == { "|", "<", ">" }
DualDep == { "dual", "undual" }                  \* the queries whose answer may depend on the dual mode
DotDep == { "gadot" }                            \* ... on the dot mode of the algebra

(* tables of an algebra, and for each a query that fills it *)
Tables == { "mul", "wedge", "hdot", "lc", "rc", "base", "recip", "conn", "pdbase", "grad", "agrad", "slots", "flags", "lt", "I" }
Fills(t) == CASE t = "mul" -> "mul" [] t = "wedge" -> "wedge" [] t = "hdot" -> "hdot" [] t = "lc" -> "lc" [] t = "rc" -> "rc"
              [] t = "base" -> "blade_rep" [] t = "recip" -> "mvr" [] t = "conn" -> "connect" [] t = "pdbase" -> "pdiff2"
              [] t = "grad" -> "grad" [] t = "agrad" -> "rblades" [] t = "slots" -> "newlt" [] t = "flags" -> "preds"
              [] t = "lt" -> "lt" [] t = "I" -> "I"

(* the answer without tables *)
Answer(q, a, dual, dot) == << q, a, IF q \in DualDep THEN dual ELSE "", IF q \in DotDep THEN dot ELSE "" >>
=============================================================================
