---- MODULE NumTest ----
EXTENDS Num, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
R(e) == CASE e.f = "exp" -> FExp(e.x)
          [] e.f = "logistic" -> Logistic(e.x)
          [] e.f = "ln" -> FFx(FLn(FMul(FFx(e.x), FFx(e.y))))
          [] e.f = "mul" -> FMul(FFx(e.x), FFx(e.y))
          [] e.f = "fxmul" -> FFx(FxMul(e.x, e.y))
          [] e.f = "div" -> FDiv(FFx(e.x), FFx(e.y))
          [] e.f = "add" -> FAdd(FFx(e.x), FFx(e.y))
          [] e.f = "sqrt" -> FSqrt(FFx(e.x))
          [] e.f = "pdf" -> NormalPdf(e.x)
          [] e.f = "cdf" -> NormalCdf(e.x)
          [] e.f = "tofx" -> FFx(ToFx(FDiv(FFx(e.x), FFx(e.y))))
ASSUME JsonSerialize(IOEnv.VERDICT, [i \in 1..Len(T) |-> LET r == R(T[i]) IN [m |-> r[1], e |-> r[2]]])
VARIABLE z
Init == z = 0
Next == UNCHANGED z
====
