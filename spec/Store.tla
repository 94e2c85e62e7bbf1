-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* How a database holds a map, and why that must not matter (P26).  A map  *)
(* is a function from keys to mapblocks; a table is a sequence of rows in  *)
(* an order that depends on the history of the database, on the kind of    *)
(* the table and on free places.  Replacing a row removes it and puts the  *)
(* new one anywhere.  A command queries keys, then edits them one by one.  *)
(* From every order of the rows, with every choice of places, the result   *)
(* must be what the map alone determines.                                  *)
(*                                                                         *)
(* Kinds of commands:                                                      *)
(*   local   each mapblock is changed by itself (most commands)            *)
(*   drop    mapblocks are deleted                                         *)
(*   up/down each mapblock is taken from its neighbour (clone)             *)
(*   other   mapblocks come from another map (overlay)                     *)
(* Variant "none" is the program's way; the others are wrong and must      *)
(* violate SameResult.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Keys, Vals, Variant

VARIABLES kind,   \* kind of command
          rows,   \* the table of the edited map
          other,  \* the table of the other map
          M, J,   \* the maps they hold at the beginning
          ph,     \* "query", "edit", "done"
          at,     \* rows seen by the query so far
          todo    \* keys to edit, in this order
vars == <<kind, rows, other, M, J, ph, at, todo>>

MapOf(r) == [k \in {r[i][1] : i \in DOMAIN r} |->
               r[CHOOSE i \in DOMAIN r : r[i][1] = k][2]]
Index(r, k) == {i \in DOMAIN r : r[i][1] = k}
(* All tables that hold map m. *)
Tables(m) == {[i \in DOMAIN s |-> <<s[i], m[s[i]]>>] : s \in SetToSeqs(DOMAIN m)}
Maps == UNION {[S -> Vals] : S \in SUBSET Keys}
Bump(v) == v + 1

Inserted(r, i, x) == SubSeq(r, 1, i - 1) \o <<x>> \o SubSeq(r, i, Len(r))
Without(r, k) == SelectSeq(r, LAMBDA x : x[1] # k)
(* All tables after row k has been replaced by v. *)
Replaced(r, k, v) ==
  LET w == Without(r, k) IN {Inserted(w, i, <<k, v>>) : i \in 1..(Len(w) + 1)}

Neighbour(k) == IF kind = "up" THEN k - 1 ELSE k + 1
Expected ==
  CASE kind = "local" -> [k \in DOMAIN M |-> Bump(M[k])]
    [] kind = "drop" -> [k \in {j \in DOMAIN M : M[j] # 0} |-> M[k]]
    [] kind \in {"up", "down"} ->
         [k \in DOMAIN M |-> IF Neighbour(k) \in DOMAIN M THEN M[Neighbour(k)] ELSE M[k]]
    [] kind = "other" -> [k \in DOMAIN M \cup DOMAIN J |-> IF k \in DOMAIN J THEN J[k] ELSE M[k]]

Init == /\ kind \in {"local", "drop", "up", "down", "other"}
        /\ M \in Maps /\ J \in (IF kind = "other" THEN Maps ELSE {<<>>})
        /\ rows \in Tables(M) /\ other \in (IF kind = "other" THEN Tables(J) ELSE {<<>>})
        /\ ph = "query" /\ at = 0 /\ todo = <<>>

Sorted(s) ==
  IF Variant = "unsorted" THEN s
  ELSE CASE kind = "up" -> SortSeq(s, LAMBDA a, b : a > b)
         [] kind = "down" -> SortSeq(s, LAMBDA a, b : a < b)
         [] OTHER -> s

(* The table that is queried. *)
Asked == IF kind = "other" THEN other ELSE rows

(* Edit key k: what the program does with it. *)
Edit(k) ==
  LET old == Index(rows, k)
      v == rows[CHOOSE i \in old : TRUE][2]
      from == IF kind = "other" THEN Index(other, k) ELSE Index(rows, Neighbour(k))
  IN CASE kind = "local" -> rows' \in Replaced(rows, k, Bump(v))
       [] kind = "drop" -> rows' = IF v = 0 THEN Without(rows, k) ELSE rows
       [] kind \in {"up", "down"} ->
            IF from = {} THEN rows' = rows
            ELSE rows' \in Replaced(rows, k, rows[CHOOSE i \in from : TRUE][2])
       [] kind = "other" -> rows' \in Replaced(rows, k, other[CHOOSE i \in from : TRUE][2])

Query ==
  /\ ph = "query" /\ at < Len(Asked)
  /\ at' = at + 1
  /\ IF Variant = "while" THEN Edit(Asked[at'][1]) /\ todo' = todo
     ELSE todo' = Append(todo, Asked[at'][1]) /\ rows' = rows
  /\ UNCHANGED <<kind, other, M, J, ph>>
Queried ==
  /\ ph = "query" /\ at = Len(Asked)
  /\ ph' = "edit" /\ todo' = Sorted(IF Variant = "miss" /\ todo # <<>> /\ todo[1] > 2
                                    THEN Tail(todo) ELSE todo)
  /\ UNCHANGED <<kind, rows, other, M, J, at>>
Work ==
  /\ ph = "edit" /\ todo # <<>>
  /\ Edit(Head(todo)) /\ todo' = Tail(todo)
  /\ UNCHANGED <<kind, other, M, J, ph, at>>
Finish ==
  /\ ph = "edit" /\ todo = <<>> /\ ph' = "done"
  /\ UNCHANGED <<kind, rows, other, M, J, at, todo>>

Next == Query \/ Queried \/ Work \/ Finish
Spec == Init /\ [][Next]_vars

OneRowPerKey == \A k \in Keys : Cardinality(Index(rows, k)) <= 1
SameResult == ph = "done" => MapOf(rows) = Expected
SourceKept == kind = "other" => MapOf(other) = J
==============================================================================
