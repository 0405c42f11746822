------------------------------- MODULE DatesMC -------------------------------
(***************************************************************************)
(* Dates and times (C30) around the ends of days, months and years, from   *)
(* one offset to another, in English.                                      *)
(*   Back:      the instant of a local time is the one it came from        *)
(*   Calendar:  days are numbered one by one and have their weekdays       *)
(*   Ordered:   further east, it is later, by the difference of offsets    *)
(*   ReadBack:  a short date and time, read, is the local time             *)
(*   Parts:     a date in one style and a time in another are both there,  *)
(*             joined by a comma; no style at all is a medium date         *)
(* The formatted dates are printed and compared with the real ones.        *)
(***************************************************************************)
EXTENDS FluentValues, FiniteSets, Json, IOUtils

Every == CHOOSE k \in 0..500 : ToString(k) = IOEnv.EVERY
Size == CHOOSE k \in 1..3 : ToString(k) = IOEnv.SIZE

NNBSP == <<8239>>
Months == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Week == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
Num(k) == T(ToString(k))
Pad2(k) == IF k < 10 THEN T("0") \o Num(k) ELSE Num(k)

(* English texts of a civil time. *)
DateText(c, s) == CASE s = 1 -> T(Week[WeekDay(DayNumber(c[1], c[2], c[3])) + 1]) \o T(", ") \o T(Months[c[2]]) \o T(" ") \o Num(c[3]) \o T(", ") \o Num(c[1])
                    [] s = 2 -> T(Months[c[2]]) \o T(" ") \o Num(c[3]) \o T(", ") \o Num(c[1])
                    [] s = 3 -> SubSeq(T(Months[c[2]]), 1, 3) \o T(" ") \o Num(c[3]) \o T(", ") \o Num(c[1])
                    [] s = 4 -> Num(c[2]) \o T("/") \o Num(c[3]) \o T("/") \o Pad2(c[1] % 100)
TimeText(c, s) == Num(IF c[4] % 12 = 0 THEN 12 ELSE c[4] % 12) \o T(":") \o Pad2(c[5]) \o (IF s = 3 THEN T(":") \o Pad2(c[6]) ELSE <<>>)
                  \o NNBSP \o T(IF c[4] < 12 THEN "AM" ELSE "PM")
Joined == <<[d |-> "date"], [d |-> "text", s |-> T(", ")], [d |-> "time"]>>

Years == IF Size = 1 THEN {2000, 2023} ELSE IF Size = 2 THEN {1999, 2000, 2023, 2024} ELSE {1996, 1999, 2000, 2001, 2023, 2024, 2096, 2100}
Days == {<<y, m, d>> \in Years \X (IF Size = 3 THEN {1, 2, 3, 4, 9, 12} ELSE {1, 2, 3, 12}) \X {1, 13, 28, 29, 30, 31} : d <= MonthDays(y, m)}
Clocks == {<<0, 0, 0>>, <<0, 14, 59>>, <<11, 59, 59>>, <<12, 0, 5>>, <<13, 5, 0>>, <<23, 59, 59>>}
Offsets == {0, 19800, -12600, 50400, -43200}
(* Zones with an offset that has not changed since 1990. *)
Fixed == {<<"", 0>>, <<"UTC", 0>>, <<"Etc/GMT-14", 50400>>, <<"Etc/GMT+12", -43200>>, <<"Asia/Kathmandu", 20700>>, <<"Asia/Kolkata", 19800>>}
StyleNames == <<"full", "long", "medium", "short">>
DateChoices == {0, 1, 2, 3, 4}
TimeChoices == {0, 3, 4}

VARIABLES wall, off, naive, zone, ds, ts, asked, shown
vars == <<wall, off, naive, zone, ds, ts, asked, shown>>
Init == /\ \E d \in Days, c \in Clocks : wall = d \o c
        /\ off = 0 /\ naive = FALSE /\ zone = <<"", 0>> /\ ds = 0 /\ ts = 0 /\ asked = FALSE /\ shown = <<>>
Here == InstantOf(wall, off)
To == IF zone[1] = "" THEN off ELSE zone[2]
There == LocalTime(Here, To)
Opt(x, v) == IF v = "" THEN NoOpts ELSE [y \in {T(x)} |-> StrV(T(v))]
StyleName(i) == IF i = 0 THEN "" ELSE StyleNames[i]
Value == [k |-> "t", id |-> 1, f |-> TRUE, dt |-> TRUE, o |-> Opt("dateStyle", StyleName(ds)) @@ Opt("timeStyle", StyleName(ts)) @@ Opt("timeZone", zone[1])]
World == [dates |-> <<<<[tz |-> T(zone[1]), date |-> [s \in 1..4 |-> DateText(There, s)], time |-> [s \in 1..4 |-> TimeText(There, s)], both |-> [s \in 1..4 |-> Joined]]>>>>]
Hash == (wall[1] * 366 + wall[2] * 31 + wall[3] * 7 + wall[4] * 60 + wall[5] + off \div 300 + 7 * ds + 11 * ts + To \div 900) % 10007
Ask == /\ ~asked /\ asked' = TRUE /\ UNCHANGED <<wall, shown>>
       /\ off' \in Offsets /\ naive' \in BOOLEAN /\ (naive' => off' = 0) /\ zone' \in Fixed
       /\ ds' \in DateChoices /\ ts' \in TimeChoices /\ (Size < 3 => (wall[3] + wall[4] + ds') % 2 = 0)
Answer == /\ asked /\ shown = <<>> /\ shown' = FormatDate(World, Value) /\ UNCHANGED <<wall, off, naive, zone, ds, ts, asked>>
          /\ (Every > 0 /\ Hash % Every = 0) =>
             PrintT("OUT " \o ToJson([wall |-> wall, off |-> off, naive |-> naive, zone |-> zone[1], ds |-> StyleName(ds), ts |-> StyleName(ts), text |-> shown']))
Next == Ask \/ Answer
Spec == Init /\ [][Next]_vars

Back == shown # <<>> => (InstantOf(There, To) = Here /\ InstantOf(LocalTime(Here, 0), 0) = Here)
Tomorrow == DateOf(DayNumber(wall[1], wall[2], wall[3]) + 1)
(* Sakamoto's formula; 0 = Sunday. *)
Sakamoto(y, m, d) == LET t == <<0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4>> z == IF m < 3 THEN y - 1 ELSE y
                     IN (z + z \div 4 - z \div 100 + z \div 400 + t[m] + d) % 7
Calendar == ~asked =>
            /\ DateOf(DayNumber(wall[1], wall[2], wall[3])) = SubSeq(wall, 1, 3)
            /\ Tomorrow \in {<<wall[1], wall[2], wall[3] + 1>>, <<wall[1], wall[2] + 1, 1>>, <<wall[1] + 1, 1, 1>>}
            /\ (Tomorrow[3] = 1) = (wall[3] = MonthDays(wall[1], wall[2]))
            /\ (WeekDay(DayNumber(wall[1], wall[2], wall[3])) + 1) % 7 = Sakamoto(wall[1], wall[2], wall[3])
RECURSIVE Earlier(_, _)
Earlier(a, b) == a # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Earlier(Tail(a), Tail(b))))
Ordered == shown # <<>> => \A o \in Offsets : LET c == LocalTime(Here, o) IN
             /\ (o > To) = Earlier(There, c)
             /\ c[5] - There[5] = ((o \div 60 - To \div 60) % 60) \/ There[5] - c[5] = 60 - ((o \div 60 - To \div 60) % 60)
             /\ c[6] = There[6]
(* Reading digits up to a separator. *)
RECURSIVE ReadNum(_, _)
ReadNum(s, acc) == IF s # <<>> /\ s[1] \in 48..57 THEN ReadNum(Tail(s), acc * 10 + s[1] - 48) ELSE <<acc, s>>
Read3(s) == LET a == ReadNum(s, 0) b == ReadNum(Tail(a[2]), 0) c == ReadNum(Tail(b[2]), 0) IN <<<<a[1], b[1], c[1]>>, c[2]>>
Read2(s) == LET a == ReadNum(s, 0) b == ReadNum(Tail(a[2]), 0) IN <<<<a[1], b[1]>>, b[2]>>
ReadBack == shown # <<>> /\ ds = 4 /\ ts = 4 =>
  LET d == Read3(shown)
      t == Read2(SubSeq(d[2], 3, Len(d[2])))
  IN /\ d[1] = <<There[2], There[3], There[1] % 100>>
     /\ t[1][1] \in 1..12 /\ (t[1][1] % 12) + (IF t[2] = NNBSP \o T("PM") THEN 12 ELSE 0) = There[4] /\ t[1][2] = There[5]
     /\ t[2] \in {NNBSP \o T("AM"), NNBSP \o T("PM")}
Parts == shown # <<>> =>
  shown = IF ts = 0 THEN DateText(There, IF ds = 0 THEN 3 ELSE ds) ELSE IF ds = 0 THEN TimeText(There, ts) ELSE DateText(There, ds) \o T(", ") \o TimeText(There, ts)
==============================================================================
