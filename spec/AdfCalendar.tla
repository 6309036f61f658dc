---------------------------- MODULE AdfCalendar ----------------------------
(* The calendar of AdfRender.DateText against the definition of the          *)
(* Gregorian calendar: a walk from day to day.                               *)
EXTENDS AdfRender, IOUtils
VARIABLES day, y, m, d
vars == <<day, y, m, d>>
Leap(yy) == (yy % 4 = 0 /\ yy % 100 # 0) \/ yy % 400 = 0
DaysIn(yy, mm) == IF mm = 2 THEN (IF Leap(yy) THEN 29 ELSE 28)
                  ELSE IF mm \in {4, 6, 9, 11} THEN 30 ELSE 31
(* Known dates to start from, and how far to walk. *)
Starts == {<<0 - 719162, 1, 1, 1>>, <<0 - 141792, 1581, 10, 15>>, <<0, 1970, 1, 1>>, <<10957, 2000, 1, 1>>,
           <<47117, 2099, 1, 1>>, <<2932167, 9998, 1, 1>>}
Far == IF IOEnv.SIZE = "1" THEN 800 ELSE 4000000
Init == \E s \in (IF IOEnv.SIZE = "1" THEN Starts ELSE {<<0 - 719162, 1, 1, 1>>}) :
            day = s[1] /\ y = s[2] /\ m = s[3] /\ d = s[4]
Next == /\ day < MaxDay
        /\ \E s \in Starts : day >= s[1] /\ day - s[1] < Far
        /\ day' = day + 1
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars

(* Decimal of n * MsPerDay + ms, by long multiplication. *)
RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN "" ELSE Carry(c \div 10) \o ToString(c % 10)
Stamp0(n, ms) ==
    LET s == ToString(n)
        r == FoldLeft(LAMBDA acc, i :
                LET v == Digit[Ch(s, Len(s) + 1 - i)] * MsPerDay + acc[2]
                IN  <<ToString(v % 10) \o acc[1], v \div 10>>, <<"", ms>>, [i \in 1..Len(s) |-> i])
    IN  NoZeros(Carry(r[2]) \o r[1])
(* Before 1970: -(n * MsPerDay - ms) for day -n. *)
Stamp(n, ms) == IF n >= 0 THEN Stamp0(n, ms)
                ELSE IF ms = 0 THEN "-" \o Stamp0(0 - n, 0) ELSE "-" \o Stamp0(0 - n - 1, MsPerDay - ms)
Right == /\ Civil(day) = Pad(y, 4) \o "-" \o Pad(m, 2) \o "-" \o Pad(d, 2)
         /\ (day % 50 = 0 \/ IOEnv.SIZE = "1") =>
                \A ms \in {0, 1, 999, 43200000, MsPerDay - 1} : DateText(Stamp(day, ms)) = OK(Civil(day))
ASSUME
    /\ DateText(Stamp(MinDay - 1, MsPerDay - 1)) = FAIL
    /\ DateText(Stamp(MaxDay + 1, 0)) = FAIL
LastDay == day = MaxDay => y = 9999 /\ m = 12 /\ d = 31
=============================================================================
