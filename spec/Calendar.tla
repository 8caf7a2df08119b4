------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar from 1970-01-01 (day 0), twice:        *)
(*   - as a closed formula (DaysSinceEpoch), used by the decoder model;    *)
(*   - as a machine that only knows month lengths and "tomorrow"           *)
(*     (CalInit, CalNext), which is the definition of the calendar.        *)
(* mc/MCCalendar checks on every day up to 9999-12-31 that they agree.     *)
(* Instants are pairs <<days, second of day>>: TLC integers are 32 bits.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))
DaysInMonth(y, m) ==
  IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

DaysBeforeYear(y) ==
  LET a == y - 1 IN a * 365 + (a \div 4) - (a \div 100) + (a \div 400)
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysSinceEpoch(y, m, d) ==
  (DaysBeforeYear(y) - DaysBeforeYear(1970)) + CumDays[m]
    + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + (d - 1)

SecOfDay(h, mi, s) == h * 3600 + mi * 60 + s

(* Order of instants *)
Before(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ t[2] < u[2])
NotAfter(t, u) == t = u \/ Before(t, u)
=============================================================================
