---- MODULE MC_Calendar ----
(* Walks the calendar one day at a time and compares the closed form with the count of days. *)
EXTENDS Calendar
CONSTANTS Y0, N0, Days
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = Y0 - 1001 /\ m = 1 /\ d = 1 /\ n = 0
Tomorrow == /\ n < Days
            /\ n' = n + 1
            /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
               ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Spec == Init /\ [][Tomorrow]_vars
Counts == DayNum(y, m, d) - DayNum(Y0 - 1001, 1, 1) = n
Anchors == DayNum(1, 1, 1) = 1 /\ DayNum(1970, 1, 1) = 719163 /\ DayNum(1899, 12, 31) = 693595 /\ DayNum(2000, 2, 29) = 730179 /\ DayNum(0, 12, 31) = 0
Periodic == DayNum(y + 400, m, d) = DayNum(y, m, d) + 146097
====
