------------------------------- MODULE Mixing -------------------------------
(***************************************************************************)
(* Several algebras are alive.  An algebra is an identity: two algebras    *)
(* with the same basis names and the same metric are still different.      *)
(* Every object belongs to one algebra; a binary operation combines two    *)
(* objects of one algebra into an object of that algebra (or of none: a    *)
(* number, a truth value), or fails; on objects of two algebras it fails.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Multivectors == { "zero", "scalar", "vector", "bivector", "mixed", "field", "base", "blade", "product", "inverse", "dual", "lt_image" }
Operators == { "grad", "rgrad", "dop", "ldop", "dopsum" }
Transforms == { "lt", "ltsym", "ltprod" }
Tensors == { "mlt", "mltfun", "mltprod" }
Kinds == Multivectors \cup Operators \cup Transforms \cup Tensors

InfixOps == { "+", "-", "*", "^", "|", "<", ">", "<<", ">>", "/" }
(* operations that are methods or functions of two objects *)
MethodOps == { "sp", "spf", "com", "MvMul", "DopMul", "DopAdd", "reflect", "refl", "project", "proj", "projlist",
               "coefs", "rotate", "rot", "cross", "compare", "frame", "apply", "apply2" }
Ops == InfixOps \cup MethodOps \cup { "==" }

Is(x, S) == x.kind \in S
(* the operations that the two objects have, whatever their algebras (the infix operators exist for all objects) *)
Defined(x, op, y) ==
  CASE op \in InfixOps -> TRUE
    [] op \in { "==", "sp", "spf", "MvMul", "reflect", "refl", "project", "proj", "projlist", "coefs", "rotate", "rot", "cross", "compare", "frame" }
         -> Is(x, Multivectors) /\ Is(y, Multivectors)
    [] op = "com" -> TRUE
    [] op \in { "DopMul", "DopAdd" } -> (Is(x, Operators) /\ Is(y, Multivectors \cup Operators)) \/ (Is(x, Multivectors) /\ Is(y, Operators))
    [] op = "apply" -> (Is(x, Transforms) /\ Is(y, Multivectors)) \/ (Is(x, {"mlt", "mltfun"}) /\ Is(y, Multivectors))
    [] op = "apply2" -> Is(x, Tensors) /\ Is(y, Multivectors)
    [] OTHER -> FALSE

Same(x, y) == x.alg = y.alg
MustRaise(x, y) == ~Same(x, y)
(* the algebra of what came out: r = 0 when it belongs to none *)
Fits(x, y, r) == r \in { 0, x.alg }

(* ways to convert a value to another algebra exist and name the algebra: they are not combinations *)
=============================================================================
