-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Bundle code generators (scripts/).  P.mode: prefix, regex or dict (all  *)
(* pins of the device that the rule P.rule takes, see Rules), or tree       *)
(* (P.names: the names of the signals, each a sequence of parts).          *)
(***************************************************************************)
EXTENDS Rules

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "_" \o Join(Tail(s))

PinSet(P) == {P.pins[j] : j \in DOMAIN P.pins}
(* what the generated bundle must connect: its signals by name and pin     *)
Given(P) == IF P.mode = "tree" THEN {Join(P.names[j]) : j \in DOMAIN P.names}
            ELSE {q \in PinSet(P) : Apply(P.rule, q) # NoName}
LeafOf(P, q) == Apply(P.rule, q)

GenInit(P) == [made |-> 0, con |-> {}, leaves |-> {}, ended |-> FALSE]

(* Events: Made (the source compiles and runs); Conn leaf pin: a signal of *)
(* the generated bundle and the pin it reaches; Bound missing unc multi:   *)
(* the signals reported as missing, the pins reported as unconnected and   *)
(* connected more than once; End                                           *)
Guard(P, st, e) ==
  IF st.ended THEN {"after_end"}
  ELSE CASE e.a = "Made" -> (IF e.valid # 1 THEN {"invalid"} ELSE {})
         [] e.a = "Conn" ->
              (IF e.pin = "" THEN {"unconnected"} ELSE IF e.pin \notin Given(P) THEN {"foreign"} ELSE {})
              \cup (IF e.pin \in st.con \/ e.leaf \in st.leaves THEN {"twice"} ELSE {})
              \cup (IF P.mode # "tree" /\ e.pin \in Given(P) /\ e.leaf # LeafOf(P, e.pin) THEN {"misnamed"} ELSE {})
         [] e.a = "Bound" ->
              (IF Given(P) \ st.con # {} THEN {"left_out"} ELSE {})
              \cup (IF e.missing # <<>> THEN {"unconnected"} ELSE {})
              \cup (IF SeqToSet(e.unc) # PinSet(P) \ Given(P) \/ e.multi # <<>> THEN {"reported"} ELSE {})
         [] e.a = "End" -> IF st.made = 1 THEN {} ELSE {"invalid"}
         [] OTHER -> {"hang"}

Effect(P, st, e) ==
  IF st.ended THEN st
  ELSE CASE e.a = "Made" -> [st EXCEPT !.made = 1]
         [] e.a = "Conn" -> [st EXCEPT !.con = @ \cup {e.pin}, !.leaves = @ \cup {e.leaf}]
         [] e.a = "End" -> [st EXCEPT !.ended = TRUE]
         [] OTHER -> st
=============================================================================
