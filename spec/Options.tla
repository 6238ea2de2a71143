------------------------------ MODULE Options ------------------------------
(* Settings of the estimation routines.  A value is a record [k, v, w]: k   *)
(* its kind, v and w its numbers (for a pair of bounds, lower and upper).   *)
EXTENDS Num

Keys == {"max_iteration", "distribution", "quadrature_bounds", "quadrature_n", "hyper_quadrature_n", "use_LUT",
         "estimate_distribution", "number_of_samples", "initial_guess", "num_processors"}

IntV(n) == [k |-> "int", v |-> n, w |-> 0]
BoolV(b) == [k |-> "bool", v |-> IF b THEN 1 ELSE 0, w |-> 0]
Pair(kind, a, b) == [k |-> kind, v |-> a, w |-> b]           \* kind "tuple" or "list"; hundredths
Call(n) == [k |-> "callable", v |-> n, w |-> 0]
Junk(kind) == [k |-> kind, v |-> 0, w |-> 0]                \* "none", "str", "float", "array", "dict", ...
Lambda0 == Call(0)                                          \* the standard normal density

Defaults == [key \in Keys |->
    CASE key = "max_iteration" -> IntV(25)
      [] key = "distribution" -> Lambda0
      [] key = "quadrature_bounds" -> Pair("tuple", -450, 450)
      [] key \in {"quadrature_n", "hyper_quadrature_n"} -> IntV(41)
      [] key = "use_LUT" -> BoolV(TRUE)
      [] key = "estimate_distribution" -> BoolV(FALSE)
      [] key = "number_of_samples" -> IntV(9)
      [] key = "initial_guess" -> BoolV(TRUE)
      [] key = "num_processors" -> IntV(1)]

Valid(key, x) ==
    CASE key = "max_iteration" -> x.k = "int" /\ x.v > 0
      [] key = "distribution" -> x.k = "callable"
      [] key = "quadrature_bounds" -> x.k \in {"tuple", "list"} /\ x.w > x.v
      [] key \in {"quadrature_n", "hyper_quadrature_n"} -> x.k = "int" /\ x.v > 7
      [] key = "number_of_samples" -> x.k = "int" /\ x.v >= 5
      [] key \in {"use_LUT", "estimate_distribution", "initial_guess"} -> x.k = "bool"
      [] key = "num_processors" -> x.k = "int"
      [] OTHER -> FALSE

\* an argument is [c |-> container, d |-> function from a set of keys to values]
Acceptable(a) ==
    \/ a.c \in {"none", "empty"}
    \/ a.c = "dict" /\ \A key \in DOMAIN a.d : key \in Keys /\ Valid(key, a.d[key])
Merge(f, g) == [key \in DOMAIN f \cup DOMAIN g |-> IF key \in DOMAIN g THEN g[key] ELSE f[key]]
Full(a) == IF a.c = "dict" THEN Merge(Defaults, a.d) ELSE Defaults

\* values worth trying for a key: the ends of the documented range, just beyond them, and other kinds
Wrong == {Junk("none"), Junk("str"), Junk("float"), Junk("list0"), Junk("dict")}
Try(key) ==
    CASE key = "max_iteration" -> {IntV(1), IntV(25), IntV(3), IntV(0), IntV(-1)} \cup Wrong
      [] key = "distribution" -> {Call(1), Call(2), IntV(3), BoolV(TRUE), Pair("tuple", -300, 300)} \cup Wrong
      [] key = "quadrature_bounds" ->
            {Pair("tuple", -400, 400), Pair("list", -350, 500), Pair("tuple", 0, 1), Pair("tuple", 300, -300),
             Pair("list", 100, 100), Pair("tuple", 0, 0), Pair("range", -5, 5), IntV(5), BoolV(TRUE)} \cup (Wrong \ {Junk("list0")}) \cup {Junk("nans")}
      [] key \in {"quadrature_n", "hyper_quadrature_n"} -> {IntV(8), IntV(21), IntV(7), IntV(0), IntV(-20)} \cup Wrong
      [] key = "number_of_samples" -> {IntV(5), IntV(6), IntV(11), IntV(4), IntV(0), IntV(-9)} \cup Wrong
      [] key \in {"use_LUT", "estimate_distribution", "initial_guess"} ->
            {BoolV(TRUE), BoolV(FALSE), IntV(0), IntV(1), Call(1)} \cup Wrong
      [] key = "num_processors" -> {IntV(1), IntV(2), Pair("tuple", 1, 2), Call(1)} \cup Wrong
Unknown == {"Max_iteration", "quadrature", "", "distributions", "use_lut", "max_iter", "verbose", "int:7", "none:"}
=============================================================================
