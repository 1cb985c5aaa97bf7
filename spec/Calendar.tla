---- MODULE Calendar ----
(* Proleptic Gregorian calendar (astronomical year numbers).  A civil instant is <<year, month, day, ms of day>>; a time is
   <<day number, ms>>, day 1 being 0001-01-01.  Epochs: "python" = day 0, "matlab" = 366 days earlier, or a civil instant. *)
EXTENDS Num
MsDay == 86400000
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayNum(y, m, d) == LET k == y - 1 IN 365 * k + (k \div 4) - (k \div 100) + (k \div 400) + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d
Norm(t) == <<t[1] + (t[2] \div MsDay), t[2] % MsDay>>
OfCivil(c) == <<DayNum(c[1], c[2], c[3]), c[4]>>
Plus(a, b) == Norm(<<a[1] + b[1], a[2] + b[2]>>)
\* x days (as <<days, ms>>) since an epoch
Since(x, epoch) == CASE epoch.k = "python" -> Norm(x) [] epoch.k = "matlab" -> Norm(<<x[1] - 366, x[2]>>) [] epoch.k = "civil" -> Plus(x, OfCivil(epoch.c))
Diff(a, b) == (a[1] - b[1]) * MsDay + (a[2] - b[2])         \* only for times within some days of each other
====
