------------------------------ MODULE DosTime ------------------------------
(* Times as ZIP files store them: calendar fields packed in two 16 bit      *)
(* words, with two second resolution; conversion from days and seconds      *)
(* since 1970 in a time zone.                                               *)
EXTENDS Integers, Sequences

\* Fields are <<year, month, day, hour, minute, second>>
FieldsInRange(f) ==
    /\ f[1] \in 1980..2107 /\ f[2] \in 1..12 /\ f[3] \in 1..31
    /\ f[4] \in 0..23 /\ f[5] \in 0..59 /\ f[6] \in 0..59

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> IF IsLeap(y) THEN 29 ELSE 28

\* A day that exists in no calendar, such as February 30
NoSuchDay(f) == FieldsInRange(f) /\ f[3] > DaysIn(f[1], f[2])

Packed(f) == <<(f[6] \div 2) + 32 * f[5] + 2048 * f[4],
               f[3] + 32 * f[2] + 512 * (f[1] - 1980)>>

DefaultTime == Packed(<<1980, 1, 1, 0, 0, 0>>)

\* Number of days from 1970-01-01 to the first day of a year
YearStart(y) == LET p == y - 1 IN
    365 * (y - 1970) + ((p \div 4) - (p \div 100) + (p \div 400)) - 477

RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, d) == IF d < DaysIn(y, m) THEN <<m, d + 1>> ELSE MonthOf(y, m + 1, d - DaysIn(y, m))

\* Year of a day, from a first guess
RECURSIVE YearNear(_, _)
YearNear(days, y) == IF days < YearStart(y) THEN YearNear(days, y - 1)
                     ELSE IF days >= YearStart(y + 1) THEN YearNear(days, y + 1) ELSE y
YearOf(days) == YearNear(days, 1970 + (days \div 366))

(* Calendar fields of an instant, given as days and seconds of that day in  *)
(* UTC, at an offset of the given seconds. Days far away from the range     *)
(* that can be stored are not converted exactly.                            *)
FieldsOf(days, secs, offset) ==
    IF days < -40000 \/ days > 90000 THEN <<0, 0, 0, 0, 0, 0>>
    ELSE LET s == secs + offset
             d == days + (s \div 86400)
             r == s % 86400
             y == YearOf(d)
             md == MonthOf(y, 1, d - YearStart(y))
         IN <<y, md[1], md[2], r \div 3600, (r \div 60) % 60, r % 60>>

(* Conversion by a time converter:                                          *)
(*   utc; fixed offset; zone that changes its offset at an instant; a       *)
(*   function which returns the same fields for any time                    *)
Convert(c, days, secs) ==
    CASE c.k = "utc"    -> FieldsOf(days, secs, 0)
      [] c.k = "fixed"  -> FieldsOf(days, secs, c.off)
      [] c.k = "switch" -> FieldsOf(days, secs,
                              IF days < c.at[1] \/ (days = c.at[1] /\ secs < c.at[2]) THEN c.off ELSE c.off2)
      [] c.k = "const"  -> c.f
=============================================================================
