------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The program as it is built: a UI thread and a compute thread that talk  *)
(* over two channels, one transaction on a database with SQLite's rollback *)
(* journal and locks, another program that writes to the same map, and a   *)
(* disk where writes that were not synced may be lost.                     *)
(*                                                                         *)
(* TLC checks, over all interleavings, faults and points of interruption:  *)
(* the invariants below, termination, and that this refines Session.       *)
(*                                                                         *)
(* A page's value is the set of edits it contains: "T" (the tool's) and    *)
(* "O" (the other program's, to page 1 only).                              *)
(*                                                                         *)
(* Bug names one wrong variant of the implementation.  "none" is the real  *)
(* one; for each other value TLC must find a violation, which shows that   *)
(* the properties are not vacuous.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pages, Bug

VARIABLES
  pc,      \* compute thread
  ui,      \* UI thread
  q,       \* channel compute -> UI
  r,       \* channel UI -> compute
  confirm, \* confirmation is wanted (no -y)
  shown,   \* what the user has seen: subset of {"done", "error"}
  yes,     \* the user agreed
  lookdone,\* the tool has taken its SHARED lock
  mem,     \* the tool's view of the pages, edits included
  todo,    \* pages still to be edited
  db,      \* pages in the file (page cache)
  dur,     \* pages as synced
  jr,      \* journal: <<>> or [p \in subset |-> original]
  jex,     \* journal exists
  jok,     \* pages whose originals are in the synced part of the journal
  lock,    \* tool's lock: "none", "shared", "reserved", "exclusive"
  oth,     \* other program: "idle", "reserved", "committed", "failed"
  ohas     \* the other program's edit has been committed

vars == <<pc, ui, q, r, confirm, shown, yes, lookdone, mem, todo, db, dur, jr, jex,
          jok, lock, oth, ohas>>

Blank == [p \in Pages |-> {}]
First == CHOOSE p \in Pages : \A x \in Pages : p <= x

Init ==
  /\ pc = "verify" /\ ui = "recv" /\ q = <<>> /\ r = <<>>
  /\ confirm \in BOOLEAN /\ shown = {} /\ yes = FALSE /\ lookdone = FALSE
  /\ mem = Blank /\ todo = {} /\ db = Blank /\ dur = Blank
  /\ jr = <<>> /\ jex = FALSE /\ jok = {}
  /\ lock = "none" /\ oth = "idle" /\ ohas = FALSE

UNCH(v) == UNCHANGED v
disk == <<db, dur, jr, jex, jok>>
other == <<oth, ohas>>
uis == <<ui, shown, yes, r>>

-----------------------------------------------------------------------------
(* The database.  Rolling back restores the pages from the journal.        *)
Restored == [p \in Pages |-> IF jex /\ p \in DOMAIN jr THEN jr[p] ELSE db[p]]
Rollback == /\ db' = Restored /\ dur' = Restored
            /\ jr' = <<>> /\ jex' = FALSE /\ jok' = {} /\ lock' = "none"

(* What is in the map if the process is killed now, and what may be in it  *)
(* if the power fails now (unsynced pages may or may not have been         *)
(* written; an unsynced journal may or may not be usable).                 *)
IfKilled == Restored
IfPowerFails ==
  { [p \in Pages |-> IF p \in u THEN jr[p] ELSE f[p]] :
      u \in {x \in SUBSET (DOMAIN jr) : jok \subseteq x},
      f \in {g \in [Pages -> {dur[p] : p \in Pages} \cup {db[p] : p \in Pages}] :
               \A p \in Pages : g[p] \in {dur[p], db[p]}} }

Send(m) == q' = Append(q, m)

(* The compute thread ends: by return (its error, if any, has been sent)   *)
(* or by panic.  Either way its connection is dropped.                     *)
Die == /\ pc' = "dead"
       /\ IF Bug = "commitonpanic" /\ lock # "none"
          THEN /\ db' = [p \in Pages |-> mem[p]] /\ dur' = db'
               /\ jr' = <<>> /\ jex' = FALSE /\ jok' = {} /\ lock' = "none"
          ELSE Rollback

-----------------------------------------------------------------------------
Verify == /\ pc = "verify"
          /\ \/ pc' = "open" /\ UNCH(q)
             \/ pc' = "dead" /\ Send("error")          \* invalid arguments
          /\ UNCH(<<uis, confirm, lookdone, mem, todo, disk, lock, other>>)

(* BEGIN and the first read: a SHARED lock and a consistent snapshot.      *)
Open == /\ pc = "open"
        /\ \/ /\ oth # "exclusive"
              /\ lock' = (IF Bug = "latebegin" THEN "none" ELSE "shared")
              /\ lookdone' = TRUE
              /\ mem' = db /\ todo' = Pages
              /\ pc' = (IF confirm THEN "ask" ELSE "edit")
              /\ UNCH(q)
           \/ /\ pc' = "dead" /\ Send("error")   \* busy, not a map, I/O error
              /\ UNCH(<<lock, lookdone, mem, todo>>)
        /\ UNCH(<<uis, confirm, disk, other>>)

AskUser == /\ pc = "ask" /\ Send("confirm")
           /\ pc' = (IF Bug = "promptlate" THEN "edit" ELSE "await")
           /\ UNCH(<<uis, confirm, lookdone, mem, todo, disk, lock, other>>)

Await == /\ pc = "await"
         /\ \/ /\ r # <<>> /\ r' = Tail(r)
               /\ IF r[1] THEN pc' = "edit" /\ UNCH(<<disk, lock>>) ELSE Die
            \/ /\ r = <<>> /\ ui = "gone" /\ Die /\ UNCH(r)
         /\ UNCH(<<ui, shown, yes, q, confirm, lookdone, mem, todo, other>>)

(* The first write of the transaction needs the RESERVED lock; without it  *)
(* the statement fails and the thread panics.                              *)
Edit == /\ pc = "edit" /\ todo # {}
        /\ \E p \in todo :
           \/ /\ \/ lock \in {"reserved", "exclusive"}
                 \/ oth = "idle" \/ oth = "committed" \/ oth = "failed"
              /\ lock' = (IF lock \in {"none", "shared"} THEN "reserved" ELSE lock)
              /\ mem' = [mem EXCEPT ![p] = @ \cup {"T"}]
              /\ todo' = todo \ {p}
              /\ IF Bug = "autocommit"
                 THEN db' = [db EXCEPT ![p] = @ \cup {"T"}] /\ dur' = db' /\ UNCH(<<jr, jex, jok>>)
                 ELSE UNCH(disk)
              /\ UNCH(pc)
              /\ UNCH(shown)
           \/ /\ UNCH(<<mem, todo>>) /\ Die           \* fault: panic, which
              /\ shown' = shown \cup {"error"}        \* shows by itself
        /\ UNCH(<<ui, yes, r, q, confirm, lookdone, other>>)

(* A full page cache: changed pages go to the file before the commit,      *)
(* after their originals are safe in the synced journal.                   *)
Spill == /\ pc = "edit" /\ lock = "reserved" /\ oth \notin {"reserved", "shared"}
         /\ \E p \in Pages \ todo :
              /\ db[p] # mem[p]
              /\ jr' = (IF Bug = "nojournal" THEN <<>> ELSE (p :> db[p]) @@ jr)
              /\ jex' = TRUE
              /\ jok' = (IF Bug = "nosync" THEN jok ELSE DOMAIN jr')
              /\ db' = [db EXCEPT ![p] = mem[p]]
         /\ lock' = "exclusive"
         /\ UNCH(<<pc, uis, q, confirm, lookdone, mem, todo, dur, other>>)

Edited == /\ pc = "edit" /\ todo = {}
          /\ pc' = "commit" /\ Send("info")
          /\ UNCH(<<uis, confirm, lookdone, mem, todo, disk, lock, other>>)

CommitFails == /\ pc \in {"commit", "jwrite", "dwrite", "dsync", "jdelete"}
               /\ IF Bug = "ignorefail"
                  THEN pc' = "done" /\ Rollback /\ UNCH(q)
                  ELSE Die /\ Send("error")
               /\ UNCH(<<uis, confirm, lookdone, mem, todo, other>>)

CommitLock == /\ pc = "commit" /\ oth \notin {"shared", "reserved"}
              /\ lock' = "exclusive" /\ pc' = "jwrite"
              /\ (IF Bug = "earlydone" THEN Send("done") ELSE UNCH(q))
              /\ UNCH(<<uis, confirm, lookdone, mem, todo, disk, other>>)
JWrite == /\ pc = "jwrite"
          /\ jr' = (IF Bug = "nojournal" THEN <<>>
                    ELSE [p \in {x \in Pages : db[x] # mem[x]} |-> db[p]] @@ jr)
          /\ jex' = TRUE /\ UNCH(jok)
          /\ pc' = "jsync"
          /\ UNCH(<<uis, q, confirm, lookdone, mem, todo, db, dur, lock, other>>)
JSync == /\ pc = "jsync" /\ jok' = (IF Bug = "nosync" THEN jok ELSE DOMAIN jr) /\ pc' = "dwrite"
         /\ UNCH(<<uis, q, confirm, lookdone, mem, todo, db, dur, jr, jex, lock, other>>)
DWrite == /\ pc = "dwrite"
          /\ \E p \in Pages : db[p] # mem[p] /\ db' = [db EXCEPT ![p] = mem[p]]
          /\ UNCH(<<pc, uis, q, confirm, lookdone, mem, todo, dur, jr, jex, jok, lock, other>>)
DWritten == /\ pc = "dwrite" /\ db = mem /\ pc' = "dsync"
            /\ UNCH(<<uis, q, confirm, lookdone, mem, todo, disk, lock, other>>)
DSync == /\ pc = "dsync" /\ dur' = (IF Bug = "nosync" THEN dur ELSE db) /\ pc' = "jdelete"
         /\ UNCH(<<uis, q, confirm, lookdone, mem, todo, db, jr, jex, jok, lock, other>>)
JDelete == /\ pc = "jdelete" /\ jex' = FALSE /\ jr' = <<>> /\ jok' = {}
           /\ lock' = "none" /\ pc' = "done"
           /\ UNCH(<<uis, q, confirm, lookdone, mem, todo, db, dur, other>>)
Done == /\ pc = "done"
        /\ (IF Bug = "earlydone" THEN UNCH(q) ELSE Send("done"))
        /\ pc' = "dead"
        /\ UNCH(<<uis, confirm, lookdone, mem, todo, disk, lock, other>>)

Compute == Verify \/ Open \/ AskUser \/ Await \/ Edit \/ Spill \/ Edited
           \/ CommitFails \/ CommitLock \/ JWrite \/ JSync \/ DWrite \/ DWritten
           \/ DSync \/ JDelete \/ Done

-----------------------------------------------------------------------------
(* UI thread.  It ends when the channel is empty and its sender is gone;   *)
(* a panic of the compute thread shows on its own.                         *)
Recv == /\ ui = "recv" /\ q # <<>> /\ q' = Tail(q)
        /\ CASE q[1] \in {"done", "error"} -> shown' = shown \cup {q[1]} /\ UNCH(ui)
             [] q[1] = "confirm" -> ui' = "ask" /\ UNCH(shown)
             [] OTHER -> UNCH(<<ui, shown>>)
        /\ UNCH(<<pc, r, confirm, yes, lookdone, mem, todo, disk, lock, other>>)
Answer == /\ ui = "ask"
          /\ \E y \in BOOLEAN : r' = Append(r, y) /\ yes' = y
          /\ ui' = "recv"
          /\ UNCH(<<pc, q, confirm, shown, lookdone, mem, todo, disk, lock, other>>)
Leave == /\ ui = "recv" /\ q = <<>> /\ pc = "dead"
         /\ (Bug = "waitforever" => yes)
         /\ ui' = "gone"
         /\ UNCH(<<pc, q, r, confirm, shown, yes, lookdone, mem, todo, disk, lock, other>>)
UI == Recv \/ Answer \/ Leave

-----------------------------------------------------------------------------
(* The other program: one transaction that changes the first page.         *)
OReserve == /\ oth = "idle" /\ lock \in {"none", "shared"} /\ ~jex
            /\ oth' = "reserved"
            /\ UNCH(<<pc, uis, q, confirm, lookdone, mem, todo, disk, lock, ohas>>)
OCommit == /\ oth = "reserved" /\ lock = "none"
           /\ oth' = "committed" /\ ohas' = TRUE
           /\ db' = [db EXCEPT ![First] = @ \cup {"O"}] /\ dur' = db'
           /\ UNCH(<<pc, uis, q, confirm, lookdone, mem, todo, jr, jex, jok, lock>>)
OFail == /\ oth = "reserved" /\ oth' = "failed"
         /\ UNCH(<<pc, uis, q, confirm, lookdone, mem, todo, disk, lock, ohas>>)
Other == OReserve \/ OCommit \/ OFail

Next == Compute \/ UI \/ Other
Spec == Init /\ [][Next]_vars /\ WF_vars(Compute) /\ WF_vars(UI)

-----------------------------------------------------------------------------
(* Properties *)

Contents == IfPowerFails \cup {IfKilled}
Complete(c) == \A p \in Pages : "T" \in c[p]
Untouched(c) == \A p \in Pages : "T" \notin c[p]

AllOrNothing == \A c \in Contents : Complete(c) \/ Untouched(c)     \* P17
NoLostUpdate == ohas => \A c \in Contents : "O" \in c[First]        \* P20
ConsentFirst == (confirm /\ ~yes) => \A c \in Contents : Untouched(c) \* P18
DoneIsDurable == "done" \in shown => \A c \in Contents : Complete(c)  \* P24
Ends == <>(ui = "gone")                                              \* P24
(* A run that ends without "done" leaves the map as it was; nothing is     *)
(* left locked.                                                            *)
EndState == ui = "gone" =>
              /\ lock = "none" /\ ~jex
              /\ "done" \in shown <=> Complete(db)
              /\ "done" \notin shown => Untouched(db)
OneVerdict == shown # {"done", "error"}

(* Refinement of Session: what has been sent counts as said. *)
absStored == Complete(IfKilled)
absPhase == CASE pc \in {"verify", "open", "ask"} -> "start"
              [] pc = "await" -> "asked"
              [] pc = "dead" -> "ended"
              [] OTHER -> "running"
absSaid == shown \cup ({"done", "error"} \cap {q[i] : i \in 1..Len(q)})
S == INSTANCE Session WITH phase <- absPhase, stored <- absStored, said <- absSaid
RefinesSession == S!SSpec
SafeSession == /\ S!DoneMeansStored /\ S!NothingWithoutConsent
               /\ \A c \in IfPowerFails :
                    \E a \in S!AfterPowerLoss :
                      IF a = "after" THEN Complete(c) ELSE Untouched(c)
StoreOnce == [][absStored' # absStored => ~absStored]_vars
==============================================================================
