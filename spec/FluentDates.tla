---------------------------- MODULE FluentDates ----------------------------
(***************************************************************************)
(* Calendar and clock (C30): instants and the local time they are in a     *)
(* zone with a given offset.  A civil time is <<year, month, day, hour,    *)
(* minute, second>>; offsets are seconds east of UTC.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
BeforeYear(y) == (y - 1) * 365 + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthDays(y, m - 1)
(* Days since 1 January of year 1 (which is day 0). *)
DayNumber(y, m, d) == BeforeYear(y) + BeforeMonth(y, m) + d - 1

RECURSIVE YearOf(_, _)
YearOf(n, y) == IF BeforeYear(y + 1) <= n THEN YearOf(n, y + 1) ELSE IF BeforeYear(y) > n THEN YearOf(n, y - 1) ELSE y
RECURSIVE MonthOf(_, _, _)
MonthOf(y, k, m) == IF k < MonthDays(y, m) THEN <<m, k + 1>> ELSE MonthOf(y, k - MonthDays(y, m), m + 1)
(* The date of a day number. *)
DateOf(n) == LET y == YearOf(n, n \div 366 + 1) md == MonthOf(y, n - BeforeYear(y), 1) IN <<y, md[1], md[2]>>

(* An instant: <<day, second of the day>> in UTC. *)
Shift(i, s) == LET t == i[2] + s IN <<i[1] + t \div 86400, t % 86400>>
InstantOf(c, off) == Shift(<<DayNumber(c[1], c[2], c[3]), c[4] * 3600 + c[5] * 60 + c[6]>>, -off)
LocalTime(i, off) == LET k == Shift(i, off) d == DateOf(k[1]) IN <<d[1], d[2], d[3], k[2] \div 3600, (k[2] \div 60) % 60, k[2] % 60>>

(* 0 = Monday. *)
WeekDay(n) == n % 7
=============================================================================
