-------------------------------- MODULE Cwt --------------------------------
(* Comparison of two numbers with a tolerance (integers on a common scale).   *)
EXTENDS Integers
Ops == {"<", ">", "<=", ">=", "==", "!="}
Compare(x, op, y, eps) ==
  CASE op = "<" -> x < y - eps
    [] op = ">" -> y < x - eps
    [] op = "<=" -> x <= y + eps
    [] op = ">=" -> x >= y - eps
    [] op = "==" -> x - y <= eps /\ y - x <= eps
    [] op = "!=" -> x - y > eps \/ y - x > eps
\* the default tolerance: atol + rtol |y|, with rtol given per unit of y
DefaultEps(atol, rtol, y) == atol + rtol * (IF y < 0 THEN -y ELSE y)
=============================================================================
