----------------------------- MODULE MCCalendar -----------------------------
(***************************************************************************)
(* The closed formula of the calendar against the calendar itself, which   *)
(* only knows the length of each month and what the next day is.  Every    *)
(* year is entered at its first of January with the formula's day number;  *)
(* the last day of each year checks the formula for the next one, so that  *)
(* by induction from 1970-01-01 = 0 all days up to LastYear agree.         *)
(***************************************************************************)
EXTENDS Calendar
CONSTANT FirstYears
VARIABLES y, m, d, n
Init == /\ y \in FirstYears /\ m = 1 /\ d = 1
        /\ n = DaysSinceEpoch(y, 1, 1)
Tomorrow ==
  IF d < DaysInMonth(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
  ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
  ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Next == (m # 1 \/ d # 1 \/ y \in FirstYears) /\ n' = n + 1 /\ Tomorrow
Spec == Init /\ [][Next]_<<y, m, d, n>>
Formula == n = DaysSinceEpoch(y, m, d)
Epoch == DaysSinceEpoch(1970, 1, 1) = 0
Real == d \in 1..31 /\ m \in 1..12 /\ (d = 31 => m \in {1, 3, 5, 7, 8, 10, 12}) /\ (m = 2 => d <= 29)
LeapFeb == (m = 2 /\ d = 29) => (y % 4 = 0 /\ (y % 400 = 0 \/ y % 100 # 0))
=============================================================================
