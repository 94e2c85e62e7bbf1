-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Which names and which replies to the prompt are accepted.  Text is a    *)
(* sequence of code points.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Lower == 97..122
Upper == 65..90
Digit == 48..57
Underscore == 95
Colon == 58

Air == <<97, 105, 114>>
Ignore == <<105, 103, 110, 111, 114, 101>>

(* "air", "ignore", or mod:item; the first colon separates. *)
ValidName(s) ==
  \/ s \in {Air, Ignore}
  \/ \E d \in 1..Len(s) :
       /\ s[d] = Colon
       /\ \A i \in 1..(d - 1) : s[i] \in Lower \cup Digit \cup {Underscore}
       /\ \A i \in (d + 1)..Len(s) : s[i] \in Lower \cup Upper \cup Digit \cup {Underscore}

(* White space around the reply does not matter, nor does its case. *)
Space == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202)
         \cup {8232, 8233, 8239, 8287, 12288}
Strip(s) ==
  LET in == {i \in 1..Len(s) : s[i] \notin Space}
  IN IF in = {} THEN <<>>
     ELSE SubSeq(s, CHOOSE i \in in : \A j \in in : i <= j,
                    CHOOSE i \in in : \A j \in in : i >= j)
(* Only the first line is read. *)
FirstLine(s) ==
  IF \E i \in 1..Len(s) : s[i] = 10
  THEN SubSeq(s, 1, CHOOSE i \in 1..Len(s) : s[i] = 10 /\ \A j \in 1..(i - 1) : s[j] # 10)
  ELSE s
Yes(reply) == Strip(FirstLine(reply)) \in {<<121>>, <<89>>}

-----------------------------------------------------------------------------
(* The command line after the map: a command, positional arguments and     *)
(* options with their values, all as text.                                 *)

Positional == (* command -> <<least, most>> *)
  [clone |-> <<0, 0>>, deleteblocks |-> <<0, 0>>, deletemeta |-> <<0, 0>>,
   deleteobjects |-> <<0, 0>>, deletetimers |-> <<0, 0>>, fill |-> <<1, 1>>,
   overlay |-> <<1, 1>>, replacenodes |-> <<2, 2>>, replaceininv |-> <<1, 2>>,
   setmetavar |-> <<1, 2>>, setparam2 |-> <<1, 1>>, vacuum |-> <<0, 0>>]
Options ==
  [clone |-> {"p1", "p2", "offset"}, deleteblocks |-> {"p1", "p2", "invert"},
   deletemeta |-> {"node", "p1", "p2", "invert"},
   deleteobjects |-> {"obj", "items", "p1", "p2", "invert"},
   deletetimers |-> {"node", "p1", "p2", "invert"},
   fill |-> {"p1", "p2", "invert"}, overlay |-> {"p1", "p2", "invert", "offset"},
   replacenodes |-> {"p1", "p2", "invert"},
   replaceininv |-> {"delete", "deletemeta", "nodes", "p1", "p2", "invert"},
   setmetavar |-> {"delete", "nodes", "p1", "p2", "invert"},
   setparam2 |-> {"node", "p1", "p2", "invert"}, vacuum |-> {}]
MustHave ==
  [x \in DOMAIN Options |->
     IF x = "clone" THEN {"p1", "p2", "offset"}
     ELSE IF x \in {"fill", "deleteblocks"} THEN {"p1", "p2"} ELSE {}]
(* Number of values of an option. *)
Values(o, n) == CASE o \in {"p1", "p2", "offset"} -> n = 3
                  [] o \in {"node", "obj"} -> n = 1
                  [] o = "nodes" -> n >= 1
                  [] o = "items" -> TRUE
                  [] OTHER -> n = 0

Digits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in Digit
IsInt(s) == \/ Digits(s)
            \/ Len(s) > 1 /\ s[1] \in {43, 45} /\ Digits(Tail(s))
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0
            ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s
Byte(s) == LET d == NoZeros(IF Len(s) > 1 /\ s[1] = 43 THEN Tail(s) ELSE s)
           IN Digits(IF Len(s) > 1 /\ s[1] = 43 THEN Tail(s) ELSE s)
              /\ Len(d) <= 3 /\ Value(d) <= 255

(* Which positional arguments are names, numbers, or free text. *)
PosOk(cmd, i, s) ==
  CASE cmd \in {"fill", "replacenodes", "replaceininv"} -> ValidName(s)
    [] cmd = "setparam2" -> Byte(s)
    [] OTHER -> TRUE
OptOk(o, s) == CASE o \in {"p1", "p2", "offset"} -> IsInt(s)
                 [] o \in {"node", "obj", "items", "nodes"} -> ValidName(s)
                 [] OTHER -> TRUE

WellFormed(a) ==
  /\ a.utf8
  /\ a.cmd \in DOMAIN Options
  /\ Positional[a.cmd][1] <= Len(a.pos) /\ Len(a.pos) <= Positional[a.cmd][2]
  /\ \A i \in 1..Len(a.pos) : PosOk(a.cmd, i, a.pos[i])
  /\ LET names == {a.opts[i].o : i \in 1..Len(a.opts)}
     IN /\ Cardinality(names) = Len(a.opts)        \* none twice
        /\ names \subseteq Options[a.cmd]
        /\ MustHave[a.cmd] \subseteq names
        /\ ("p1" \in names) = ("p2" \in names)
  /\ \A i \in 1..Len(a.opts) :
        /\ Values(a.opts[i].o, Len(a.opts[i].v))
        /\ \A j \in 1..Len(a.opts[i].v) : OptOk(a.opts[i].o, a.opts[i].v[j])
==============================================================================
