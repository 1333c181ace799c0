-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* The logger (logger.py): statistics and output.                          *)
(* Escape characters appear as ^, the position of the call as @F.          *)
(* Events: Setup lvl con file fmt; Log lvl id msg tb; Summary; End.  Each     *)
(* carries what is there after it: sev and ids (sequences of [n, c]), out  *)
(* (new text on the console), files (the text of each file).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Name(l) == CASE l = 10 -> "DEBUG" [] l = 20 -> "INFO" [] l = 30 -> "WARNING"
             [] l = 40 -> "ERROR" [] l = 50 -> "CRITICAL"
             [] l = 15 -> "Level 15" [] l = 25 -> "Level 25" [] l = 45 -> "Level 45"
Color(l) == CASE l = 10 -> "^[34m" [] l = 20 -> "^[37m" [] l = 30 -> "^[33m"
              [] l \in {40, 50} -> "^[31m" [] OTHER -> "^[37m"

Id(id) == IF id = "" THEN "" ELSE "(id: " \o id \o ")"

(* tb: the exception that is being handled is reported with it            *)
Line(fmt, l, id, msg, tb) ==
  Color(l) \o
  (CASE fmt = 1 -> "TOFFEE_" \o Name(l) \o " @F" \o Id(id) \o ":^t" \o msg
     [] fmt = 2 -> Name(l) \o "|" \o msg \o "|" \o Id(id)
     [] fmt = 3 -> msg)
  \o (IF tb = 1 THEN "^nTB" ELSE "")
  \o "^[0m^n"

LogInit(P) == [level |-> 30, con |-> TRUE, file |-> 0, fmt |-> 1,
               sev |-> <<>>, ids |-> <<>>, out |-> "", files |-> [k \in 1..P.files |-> ""],
               ended |-> FALSE]

Count(s, n) == IF \E i \in DOMAIN s : s[i].n = n
               THEN [i \in DOMAIN s |-> IF s[i].n = n THEN [n |-> n, c |-> s[i].c + 1] ELSE s[i]]
               ELSE Append(s, [n |-> n, c |-> 1])

Log(st, l, id, msg, tb) ==
  IF l < st.level THEN [st EXCEPT !.out = ""]
  ELSE LET line == Line(st.fmt, l, id, msg, tb)
       IN [st EXCEPT !.sev = Count(@, Name(l)),
                     !.ids = IF id = "" THEN @ ELSE Count(@, id),
                     !.out = IF st.con THEN line ELSE "",
                     !.files = [k \in DOMAIN @ |-> IF k = st.file THEN @[k] \o line ELSE @[k]]]

Digit(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4"
              [] n = 5 -> "5" [] n = 6 -> "6" [] n = 7 -> "7" [] n = 8 -> "8" [] n = 9 -> "9"
RECURSIVE Str(_)
Str(n) == IF n < 10 THEN Digit(n) ELSE Str(n \div 10) \o Digit(n % 10)

SummaryText(st) ==
  LET RECURSIVE S(_)
      S(i) == IF i > Len(st.sev) THEN "" ELSE st.sev[i].n \o ":^t" \o Str(st.sev[i].c) \o "^n" \o S(i + 1)
  IN "Log Summary^n============^n* Report counts by severity^n" \o S(1)

Op(P, st, e) ==
  CASE e.a = "Setup" -> [st EXCEPT !.level = e.lvl, !.con = e.con = 1, !.file = e.file, !.fmt = e.fmt, !.out = "",
                                   !.files = [k \in DOMAIN @ |-> IF k = e.file THEN "" ELSE @[k]]]
    [] e.a = "Log" -> Log(st, e.lvl, e.id, e.msg, e.tb)
    [] e.a = "Summary" -> Log(st, 20, "", SummaryText(st), 0)
    [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
    [] OTHER -> st

(* the ids of the records that have one; the others are not looked at      *)
SameCounts(obs, s) == obs = s

Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE IF e.a = "End" THEN {}
  ELSE IF e.a \notin {"Setup", "Log", "Summary"} THEN {"hang"}
  ELSE LET s == Op(P, st, e)
       IN (IF ~SameCounts(e.sev, s.sev) THEN {"log_severity"} ELSE {})
     \cup (IF ~SameCounts(e.ids, s.ids) THEN {"log_ids"} ELSE {})
     \cup (IF e.out # s.out THEN {"log_console"} ELSE {})
     \cup (IF e.files # s.files THEN {"log_file"} ELSE {})

Effect(P, st, e) == IF st.ended THEN st ELSE Op(P, st, e)
=============================================================================
