-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  A trace, recorded from runs of the real program, is  *)
(* a sequence of events:                                                   *)
(*   scen   start of a scenario (id)                                       *)
(*   world  the map W (and the source map I of overlay) as stored on disk  *)
(*   cmd    one run of the program: arguments, the blocks that differ      *)
(*          afterwards, what the program reported                          *)
(*   save   remember the current map and the last report under a name      *)
(*   twin   the current map must relate to a remembered one                *)
(* Every cmd event must be a step that Commands allows.  The projection of *)
(* maps to abstract states is done by an independent decoder.              *)
(***************************************************************************)
EXTENDS Commands, Args, Props, Json, IOUtils

TraceFile == IOEnv.TRACE
Property == IOEnv.PROPERTY
T == ndJsonDeserialize(TraceFile)
TraceKey(p) == ToString(p[1]) \o "," \o ToString(p[2]) \o "," \o ToString(p[3])

VARIABLES l,      \* next event
          scen,   \* current scenario
          W, I,   \* maps
          W0,     \* map at the beginning of the scenario
          last,   \* last report
          saved,  \* remembered maps and reports
          bad     \* number of events with demanded differences so far

vars == <<l, scen, W, I, W0, last, saved, bad>>

Init == /\ l = 1 /\ scen = "" /\ W = <<>> /\ I = <<>> /\ W0 = <<>>
        /\ last = <<>> /\ saved = <<>> /\ bad = 0

Ev == T[l]
IsEvent(e) == l <= Len(T) /\ Ev.e = e /\ l' = l + 1

(* Differences found at this event: a set of <<where, aspects>>. *)
Report(ds) ==
  LET rel == {<<d[1], d[2] \cap Demands(Property)>> : d \in ds}
      real == {d \in rel : d[2] # {}}
  IN /\ bad' = bad + (IF real = {} THEN 0 ELSE 1)
     /\ IF real = {} THEN TRUE
        ELSE PrintT("DIFF " \o ToJson([scen |-> scen', line |-> l, diffs |-> real]))

Scen == IsEvent("scen") /\ scen' = Ev.id /\ saved' = <<>>
        /\ UNCHANGED <<W, I, W0, last, bad>>

(* As a function (TLC looks up records linearly). *)
Fcn(r) == [k \in DOMAIN r |-> r[k]]

World == IsEvent("world") /\ W' = Fcn(Ev.w) /\ I' = Fcn(Ev.i) /\ W0' = W'
         /\ UNCHANGED <<scen, last, saved, bad>>

Applied(M, delta, del) ==
  LET dd == DOMAIN delta
  IN [k \in (DOMAIN M \ Elems(del)) \cup dd |->
        IF k \in dd THEN delta[k] ELSE M[k]]

InRange(x, lo, hi) == x[1] <= hi /\ lo <= x[2]

Cmd ==
  /\ IsEvent("cmd")
  /\ LET c == Ev.c
         W2 == Applied(W, Fcn(Ev.delta), Ev.del)
         keys == DOMAIN W \cup DOMAIN W2 \cup (IF c.cmd = "overlay" THEN DOMAIN I ELSE {})
         refuse == Ev.badargs \/ ArgError(c)
         run == ~refuse /\ Ev.consent
         changed == DOMAIN Ev.delta # {} \/ Ev.del # <<>> \/ Ev.extra
         r == Ev.report
         cb == CountBounds(c, W)
         fb == FailBounds(c, W, I)
         outcome ==
           IF refuse
           THEN Aspect("notrefused", r.done) \cup Aspect("changed", changed)
           ELSE IF ~Ev.consent
           THEN Aspect("notrefused", r.done) \cup Aspect("changed", changed)
           ELSE Aspect("notdone", ~r.done)
                \cup (IF ~r.done \/ "count" \notin Demands(Property) THEN {} ELSE
                      Aspect("count", c.cmd \in InPlaceCmds
                                      /\ ~InRange(r.count, cb[1], cb[2]))
                      \cup Aspect("count2", c.cmd = "replaceininv"
                                      /\ ~InRange(r.count2, cb[3], cb[3]))
                      \cup Aspect("fails", c.cmd # "vacuum"
                                      /\ ~InRange(r.fails, fb[1], fb[2])))
         diffs == {<<"run", outcome \cup Aspect("source", Ev.srcchanged)
                            \cup Aspect("data", Ev.extra)>>}
                  \cup (IF ~run \/ Demands(Property) \subseteq RunAspects THEN {}
                        ELSE {<<k, KeyDiffs(c, W, I, k, Get(W2, k))>> : k \in keys})
     IN /\ scen' = scen
        /\ Report(diffs)
        /\ W' = W2
        /\ last' = r
  /\ UNCHANGED <<I, W0, saved>>

(* Another program wrote while the command ran (or tried to).  The result  *)
(* must be that of one order of the two.                                   *)
SameRaw(M1, M2) == /\ DOMAIN M1 = DOMAIN M2
                   /\ \A k \in DOMAIN M1 : M1[k].raw = M2[k].raw
Holds(c, M, J, F, except) ==
  \A k \in (DOMAIN M \cup DOMAIN F \cup (IF c.cmd = "overlay" THEN DOMAIN J ELSE {}))
           \ except :
     KeyDiffs(c, M, J, k, Get(F, k)) \cap Semantics = {}
Race ==
  /\ IsEvent("race")
  /\ LET c == Ev.c
         F == Applied(W, Fcn(Ev.delta), Ev.del)
         O == Fcn(Ev.other)
         WO == IF Ev.onsrc THEN W ELSE Applied(W, O, Ev.odel)
         IO == IF Ev.onsrc THEN Applied(I, O, Ev.odel) ELSE I
         keys == DOMAIN O \cup Elems(Ev.odel)
         ok == IF ~Ev.done THEN SameRaw(F, IF Ev.committed THEN WO ELSE W)
               ELSE IF ~Ev.committed THEN Holds(c, W, I, F, {})
               ELSE \/ Holds(c, WO, IO, F, {})
                    \/ IF Ev.onsrc THEN Holds(c, W, I, F, {})
                       ELSE /\ Holds(c, W, I, F, keys)
                            /\ \A k \in keys :
                                 /\ (k \in DOMAIN F) = (k \in DOMAIN WO)
                                 /\ k \in DOMAIN F => F[k].raw = WO[k].raw
     IN /\ scen' = scen
        /\ Report({<<"run", Aspect("race", ~ok \/ Ev.srclost)>>})
  /\ UNCHANGED <<W, I, W0, last, saved>>   \* every race starts from W

(* A command line, a map that may not be one, and a reply to the prompt.   *)
(* "files" says whether any byte or file changed.                          *)
Argv ==
  /\ IsEvent("argv")
  /\ LET ok == WellFormed(Ev.a) /\ ~ArgError(Ev.c) /\ Ev.map
         agreed == ~Ev.ask \/ Yes(Ev.reply)
         go == ok /\ agreed
     IN /\ scen' = scen
        /\ Report({<<"run", IF go
                      THEN Aspect("notdone", ~Ev.done) \cup Aspect("unlike", Ev.unlike)
                      ELSE Aspect("notrefused", Ev.done) \cup Aspect("changed", Ev.files)>>})
  /\ UNCHANGED <<W, I, W0, last, saved>>

Save == IsEvent("save")
        /\ saved' = (Ev.as :> [W |-> W, W0 |-> W0, last |-> last]) @@ saved
        /\ UNCHANGED <<scen, W, I, W0, last, bad>>

-----------------------------------------------------------------------------
(* Relations between two runs *)

NoPriv(ms) == SeqMap(ms, LAMBDA m : [m EXCEPT !.vars =
                SeqMap(m.vars, LAMBDA v : <<v[1], v[2]>>)])
Content(b, priv) ==
  << b.nodes, b.p1, b.p2, b.objs, b.timers,
     IF priv THEN Norm(b.meta) ELSE NoPriv(Norm(b.meta)) >>
(* Equal but for the format version; formats below 28 store no privacy. *)
SameButVersion(b, e, always) ==
  LET priv == always \/ (b.ver >= 28 /\ e.ver >= 28)
  IN \/ b.raw = e.raw
     \/ b.st = e.st /\ b.gen = e.gen
        /\ b.st = "ok" => Content(b, priv) = Content(e, priv)
SameContent(b, e) ==
  b.raw = e.raw \/ (b.st = "ok" /\ e.st = "ok" /\ Content(b, TRUE) = Content(e, TRUE)
                    /\ SameHeader(b, e))
Overlap(x, y) == x[1] <= y[2] /\ y[1] <= x[2]
SameReport(r, s) == r.done = s.done /\ (r.done => Overlap(r.count, s.count)
                                         /\ Overlap(r.count2, s.count2))

TwinDiffs(rel, A, a0, ra, B2, b0, rb) ==
  CASE rel \in {"version", "versionpriv"} -> \* same commands on a map in other
         \* formats; "versionpriv": what is private comes from a source map
         \* that is the same in both, and is kept by every format
         {<<k, Aspect("twin", ~(/\ k \in DOMAIN A /\ k \in DOMAIN B2
                                /\ SameButVersion(A[k], B2[k], rel = "versionpriv")))>>
            : k \in DOMAIN A \cup DOMAIN B2}
         \cup {<<"run", Aspect("twin", ~SameReport(ra, rb))>>}
    [] rel = "without" -> \* B: the same map without some of the blocks of A
         {<<k, Aspect("twin",
             IF k \in DOMAIN a0 /\ k \notin DOMAIN b0
             THEN /\ k \in DOMAIN A    \* left alone, deleted, or replaced as a whole
                  /\ A[k].raw # a0[k].raw
                  /\ ~(k \in DOMAIN B2 /\ SameContent(A[k], B2[k]))
             ELSE (k \in DOMAIN A) # (k \in DOMAIN B2)
                  \/ (k \in DOMAIN A /\ k \in DOMAIN B2 /\ ~SameContent(A[k], B2[k])))>>
            : k \in DOMAIN A \cup DOMAIN B2}
         \cup {<<"run", Aspect("twin", ~SameReport(ra, rb))>>}
    [] rel = "same" ->
         {<<k, Aspect("twin", ~(/\ k \in DOMAIN A /\ k \in DOMAIN B2
                                /\ SameContent(A[k], B2[k])))>>
            : k \in DOMAIN A \cup DOMAIN B2}
    [] rel = "samereport" -> {<<"run", Aspect("twin", ~SameReport(ra, rb))>>}
    [] OTHER -> {<<"run", {"twin"}>>}

Twin == IsEvent("twin")
        /\ scen' = scen
        /\ LET s == saved[Ev.with]
           IN Report(TwinDiffs(Ev.rel, W, W0, last, s.W, s.W0, s.last))
        /\ UNCHANGED <<W, I, W0, last, saved>>

Next == Scen \/ World \/ Cmd \/ Race \/ Argv \/ Save \/ Twin
Spec == Init /\ [][Next]_vars
View == l
(* All events consumed; differences are reported on the way. *)
Consumed == TLCGet("stats").diameter - 1 = Len(T)
Clean == l > Len(T) => bad = 0
==============================================================================
