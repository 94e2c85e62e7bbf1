------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* What every MapEditr command does to a map, stated declaratively.        *)
(*                                                                         *)
(* A map ("world") is a function from block keys to blocks.  A block is a  *)
(* record with its stored header, node arrays, metadata, objects and       *)
(* timers.  Every command is described pointwise: what is at node q (or in *)
(* the metadata of q, ...) afterwards, as a function of the world before.  *)
(* Nothing here mentions name-ID maps, block-wise decomposition, caching   *)
(* or write order: those belong to the implementation (see the Algo*       *)
(* modules, which show that the implemented algorithms compute this).      *)
(*                                                                         *)
(* The same operators are used at B = 2 (model checking, behaviour         *)
(* generation) and B = 16 (validation of traces of the real program).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS B,            \* side length of a block, in nodes
          BlockLimit,   \* source blocks must lie within +-BlockLimit
          Key(_)        \* block position -> block key

N == B * B * B

Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
SumOver(S, f(_)) ==
  LET RECURSIVE go(_, _)
      go(T, acc) == IF T = {} THEN acc
                    ELSE LET x == CHOOSE y \in T : TRUE
                         IN go(T \ {x}, acc + f(x))
  IN go(S, 0)
SeqSum(s) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, acc + s[i])
  IN go(1, 0)
SeqMap(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Elems(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Arrays of N values.  k = 0: uniform; 1: default d with exceptions v at  *)
(* the indices ix; 2: all values.  The representation is canonical, so     *)
(* equal arrays are equal values.                                          *)

At(a, i) ==
  IF a.k = 0 THEN a.d
  ELSE IF a.k = 2 THEN a.f[i + 1]
  ELSE LET h == {j \in 1..Len(a.ix) : a.ix[j] = i}
       IN IF h = {} THEN a.d ELSE a.v[CHOOSE j \in h : TRUE]

Slice(a, i, n) == (* n values from index i on *)
  IF a.k = 2 THEN SubSeq(a.f, i + 1, i + n)
  ELSE IF a.k = 0 THEN [j \in 1..n |-> a.d]
  ELSE [j \in 1..n |-> At(a, i + j - 1)]
Exc(a) == IF a.k = 1 THEN Elems(a.ix) ELSE {}
Flat(a) == a.k = 0

-----------------------------------------------------------------------------
(* Geometry *)

AbsPos(p, i) == << p[1] * B + (i % B),
                   p[2] * B + ((i \div B) % B),
                   p[3] * B + i \div (B * B) >>
BlockOf(q) == << q[1] \div B, q[2] \div B, q[3] \div B >>
IdxOf(q) == (q[1] % B) + B * (q[2] % B) + B * B * (q[3] % B)
Plus(q, r) == << q[1] + r[1], q[2] + r[2], q[3] + r[3] >>
Minus(q, r) == << q[1] - r[1], q[2] - r[2], q[3] - r[3] >>

(* An area is given by any two opposite corners, both inclusive. *)
(* (Vectors are written as tuples, not as functions: TLC is faster.)       *)
Lo(c) == << Min2(c.a[1], c.b[1]), Min2(c.a[2], c.b[2]), Min2(c.a[3], c.b[3]) >>
Hi(c) == << Max2(c.a[1], c.b[1]), Max2(c.a[2], c.b[2]), Max2(c.a[3], c.b[3]) >>
InBox(lo, hi, q) == \A j \in 1..3 : lo[j] <= q[j] /\ q[j] <= hi[j]
BlockInside(lo, hi, p) ==
  \A j \in 1..3 : lo[j] <= p[j] * B /\ p[j] * B + B - 1 <= hi[j]
BlockTouches(lo, hi, p) ==
  \A j \in 1..3 : lo[j] <= p[j] * B + B - 1 /\ p[j] * B <= hi[j]

(* Is node q selected by command c? *)
Selected(c, q) == c.area => (InBox(Lo(c), Hi(c), q) # c.invert)

(* All / none of the nodes of block p selected? *)
SelAll(c, p) ==
  \/ ~c.area
  \/ ~c.invert /\ BlockInside(Lo(c), Hi(c), p)
  \/ c.invert /\ ~BlockTouches(Lo(c), Hi(c), p)
SelNone(c, p) ==
  /\ c.area
  /\ \/ ~c.invert /\ ~BlockTouches(Lo(c), Hi(c), p)
     \/ c.invert /\ BlockInside(Lo(c), Hi(c), p)

(* The part of box lo..hi in block p, in block-local coordinates. *)
LocalLo(lo, p) == << Max2(lo[1] - p[1] * B, 0), Max2(lo[2] - p[2] * B, 0),
                     Max2(lo[3] - p[3] * B, 0) >>
LocalHi(hi, p) == << Min2(hi[1] - p[1] * B, B - 1), Min2(hi[2] - p[2] * B, B - 1),
                     Min2(hi[3] - p[3] * B, B - 1) >>
InLocal(l, h, i) ==
  /\ l[1] <= i % B /\ i % B <= h[1]
  /\ l[2] <= (i \div B) % B /\ (i \div B) % B <= h[2]
  /\ l[3] <= i \div (B * B) /\ i \div (B * B) <= h[3]
LocalVolume(l, h) ==
  Max2(h[1] - l[1] + 1, 0) * Max2(h[2] - l[2] + 1, 0) * Max2(h[3] - l[3] + 1, 0)
LocalSet(l, h) ==
  {x + B * y + B * B * z : x \in l[1]..h[1], y \in l[2]..h[2], z \in l[3]..h[3]}

-----------------------------------------------------------------------------
(* Classes of blocks *)

(* hdr: supported version and readable flags; gen: generated by mapgen;    *)
(* st = "ok": the whole content is readable and supported.                 *)
Usable(b) == b.st = "ok"
Generated(b) == b.hdr /\ b.gen

(* Metadata entries with neither variables nor inventory lists mean the    *)
(* same as no entry, and are dropped whenever a block is rewritten.        *)
MetaEmpty(m) == m.vars = <<>> /\ m.inv = <<<<"EndInventory">>>>
Norm(ms) == SelectSeq(ms, LAMBDA m : ~MetaEmpty(m))

SameHeader(b, e) ==
  /\ e.ver = b.ver /\ e.flags = b.flags /\ e.lit = b.lit /\ e.ts = b.ts

-----------------------------------------------------------------------------
(* Commands that edit every block for itself                               *)

InPlaceCmds == {"fill", "replacenodes", "setparam2", "deletemeta",
                "deletetimers", "deleteobjects", "setmetavar", "replaceininv"}

(* Does c edit block b at all? *)
Edits(c, b) == Usable(b) /\ (c.cmd = "fill" => b.gen)

NodeAfter(c, b, i, sel) ==
  LET n == At(b.nodes, i) IN
  CASE c.cmd = "fill" /\ sel -> c.new
    [] c.cmd = "replacenodes" /\ sel /\ n = c.node -> c.new
    [] OTHER -> n

Param2After(c, b, i, sel) ==
  IF /\ c.cmd = "setparam2" /\ sel
     /\ (c.node = -1 \/ At(b.nodes, i) = c.node)
  THEN c.p2 ELSE At(b.p2, i)

(* Node filter of the metadata, timer and inventory commands. *)
NodeMatches(c, b, i) ==
  /\ c.node # -1 => At(b.nodes, i) = c.node
  /\ c.nodes # <<>> => At(b.nodes, i) \in Elems(c.nodes)
Targets(c, b, p, i) == Selected(c, AbsPos(p, i)) /\ NodeMatches(c, b, i)

HasVar(m, k) == \E j \in 1..Len(m.vars) : m.vars[j][1] = k
VarsAfter(c, m) ==
  IF c.delete THEN SelectSeq(m.vars, LAMBDA v : v[1] # c.key)
  ELSE SeqMap(m.vars, LAMBDA v : IF v[1] = c.key
                                 THEN << v[1], c.value, v[3] >> ELSE v)

IsItem(c, t) == Len(t) >= 2 /\ t[1] = "Item" /\ t[2] = c.item
LineAfter(c, t) ==
  IF ~IsItem(c, t) THEN t
  ELSE IF c.delete THEN <<"Empty">>
  ELSE LET name == IF c.newitem = "" THEN c.item ELSE c.newitem
           count == IF Len(t) >= 3 THEN t[3] ELSE "1"
           wear == IF Len(t) >= 4 THEN t[4] ELSE "0"
       IN IF ~c.delmeta THEN <<"Item", name>> \o SubSeq(t, 3, Len(t))
          ELSE <<"Item", name>>
               \o (IF count # "1" \/ wear # "0" THEN <<count>> ELSE <<>>)
               \o (IF wear # "0" THEN <<wear>> ELSE <<>>)
InvAfter(c, inv) == SeqMap(inv, LAMBDA t : LineAfter(c, t))

MetaAfter(c, b, p) ==
  CASE c.cmd = "deletemeta" ->
         SelectSeq(b.meta, LAMBDA m : ~Targets(c, b, p, m.i))
    [] c.cmd = "setmetavar" ->
         SeqMap(b.meta, LAMBDA m :
           IF Targets(c, b, p, m.i)
           THEN [m EXCEPT !.vars = VarsAfter(c, m)] ELSE m)
    [] c.cmd = "replaceininv" ->
         SeqMap(b.meta, LAMBDA m :
           IF Targets(c, b, p, m.i)
           THEN [m EXCEPT !.inv = InvAfter(c, m.inv)] ELSE m)
    [] OTHER -> b.meta

TimersAfter(c, b, p) ==
  IF c.cmd # "deletetimers" THEN b.timers
  ELSE SelectSeq(b.timers, LAMBDA t : ~Targets(c, b, p, t[1]))

(* Object positions are in 1/10000 nodes; an object is at the node whose   *)
(* centre is nearest.                                                      *)
RoundPos(v) == IF v > 2147000000 THEN 214748 ELSE (v + 5000) \div 10000
ObjNode(o) == << RoundPos(o.x), RoundPos(o.y), RoundPos(o.z) >>
ObjDeleted(c, o) ==
  /\ Selected(c, ObjNode(o))
  /\ c.hasobj => (o.lua /\ o.name = c.obj)
  /\ c.hasitems => (o.lua /\ o.name = "__builtin:item")
  /\ c.items # <<>> => o.item \in Elems(c.items)
(* Objects are looked for in the blocks that the selection touches: the    *)
(* game stores an object in the block that it is in.                       *)
ObjsAfter(c, b, p) ==
  IF c.cmd # "deleteobjects" \/ SelNone(c, p) THEN b.objs
  ELSE SelectSeq(b.objs, LAMBDA o : ~ObjDeleted(c, o))

(* Some index in box l..h that is not in X, if any; likewise for the six   *)
(* slabs around the box.  Arrays that are constant except at X are decided *)
(* by these.                                                               *)
BoxAt(l, h, k) == (* the k-th index of the box *)
  LET w == h[1] - l[1] + 1
      d == h[2] - l[2] + 1
  IN (l[1] + (k % w)) + B * (l[2] + ((k \div w) % d)) + B * B * (l[3] + k \div (w * d))
RepIn(l, h, X) ==
  LET v == LocalVolume(l, h)
      free == IF v = 0 THEN {}
              ELSE {k \in 0..Min2(Cardinality(X), v - 1) : BoxAt(l, h, k) \notin X}
  IN IF free = {} THEN {} ELSE {BoxAt(l, h, CHOOSE k \in free : TRUE)}
RepOut(l, h, X) ==
  LET m == B - 1 IN
  IF LocalVolume(l, h) = 0 THEN RepIn(<<0, 0, 0>>, <<m, m, m>>, X)
  ELSE RepIn(<<0, 0, 0>>, <<l[1] - 1, m, m>>, X) \cup RepIn(<<h[1] + 1, 0, 0>>, <<m, m, m>>, X)
       \cup RepIn(<<0, 0, 0>>, <<m, l[2] - 1, m>>, X)
       \cup RepIn(<<0, h[2] + 1, 0>>, <<m, m, m>>, X)
       \cup RepIn(<<0, 0, 0>>, <<m, m, l[3] - 1>>, X)
       \cup RepIn(<<0, 0, h[3] + 1>>, <<m, m, m>>, X)

(* Indices that decide whether array y is what a selection-dependent rule  *)
(* makes of array x in a block whose nodes are n: all of them, or, when    *)
(* the arrays are constant but for few exceptions, those and one more      *)
(* inside and outside of the selected box.                                 *)
CheckSet(x, y, n, l, h) ==
  IF x.k = 2 \/ y.k = 2 \/ n.k = 2 THEN 0..(N - 1)
  ELSE LET X == Exc(x) \cup Exc(y) \cup Exc(n)
       IN X \cup RepIn(l, h, X) \cup RepOut(l, h, X)

Aspect(name, bad) == IF bad THEN {name} ELSE {}

(* The aspects in which block e differs from what c makes of block b at p. *)
(* "...-rest" is added where something that c does not target differs.     *)
InPlaceDiffs(c, p, b, e) ==
  IF ~Edits(c, b) THEN Aspect("skipped", e.raw # b.raw)
  ELSE IF e.raw = b.raw /\ SelNone(c, p) THEN {}
  ELSE IF e.st # "ok" THEN {"unreadable"}
  ELSE
  LET none == SelNone(c, p)
      all == SelAll(c, p)
      l == IF all THEN <<0, 0, 0>> ELSE IF none THEN <<1, 1, 1>>
           ELSE LocalLo(Lo(c), p)
      h == IF all THEN <<B-1, B-1, B-1>> ELSE IF none THEN <<0, 0, 0>>
           ELSE LocalHi(Hi(c), p)
      S(i) == IF all THEN TRUE ELSE IF none THEN FALSE
              ELSE InLocal(l, h, i) # c.invert
      nodes == IF none \/ c.cmd \notin {"fill", "replacenodes"}
               THEN Aspect("nodes", e.nodes # b.nodes)
                    \cup Aspect("nodes-rest", e.nodes # b.nodes)
               ELSE LET wrong == {i \in CheckSet(b.nodes, e.nodes, b.nodes, l, h) :
                                    At(e.nodes, i) # NodeAfter(c, b, i, S(i))}
                    IN Aspect("nodes", wrong # {})
                       \cup Aspect("nodes-rest", \E i \in wrong :
                              NodeAfter(c, b, i, S(i)) = At(b.nodes, i))
      p2 == IF none \/ c.cmd # "setparam2"
            THEN Aspect("param2", e.p2 # b.p2) \cup Aspect("param2-rest", e.p2 # b.p2)
            ELSE LET wrong == {i \in CheckSet(b.p2, e.p2, b.nodes, l, h) :
                                 At(e.p2, i) # Param2After(c, b, i, S(i))}
                 IN Aspect("param2", wrong # {})
                    \cup Aspect("param2-rest", \E i \in wrong :
                           Param2After(c, b, i, S(i)) = At(b.p2, i))
      wantMeta == Norm(MetaAfter(c, b, p))
      haveMeta == Norm(e.meta)
      (* entries, and parts of entries, that c leaves alone *)
      restMeta == {m \in Elems(Norm(b.meta)) : m \in Elems(wantMeta)}
      metaRestBad ==
        \/ ~(restMeta \subseteq Elems(haveMeta))
        \/ \E m \in Elems(haveMeta) : m.i \notin {x.i : x \in Elems(b.meta)}
        \/ /\ c.cmd = "setmetavar"
           /\ \E m \in Elems(haveMeta), w \in Elems(wantMeta) :
                /\ m.i = w.i
                /\ \/ m.inv # w.inv
                   \/ SelectSeq(m.vars, LAMBDA v : v[1] # c.key)
                        # SelectSeq(w.vars, LAMBDA v : v[1] # c.key)
        \/ /\ c.cmd = "replaceininv"
           /\ \E m \in Elems(haveMeta), w \in Elems(wantMeta) :
                m.i = w.i /\ m.vars # w.vars
      wantTimers == TimersAfter(c, b, p)
      wantObjs == ObjsAfter(c, b, p)
  IN nodes \cup p2
     \cup Aspect("param1", e.p1 # b.p1)
     \cup Aspect("meta", haveMeta # wantMeta)
     \cup Aspect("meta-rest", haveMeta # wantMeta /\ metaRestBad)
     \cup Aspect("timers", e.timers # wantTimers)
     \cup Aspect("timers-rest",
            IF c.cmd # "deletetimers" THEN e.timers # b.timers
            ELSE \E t \in Elems(wantTimers) : t \notin Elems(e.timers))
     \cup Aspect("objs", e.objs # wantObjs)
     \cup Aspect("objs-rest",
            IF c.cmd # "deleteobjects" THEN e.objs # b.objs
            ELSE \E t \in Elems(wantObjs) : t \notin Elems(e.objs))
     \cup Aspect("header", ~SameHeader(b, e))
     \cup Aspect("wellformed",
            \/ b.wf = <<>> /\ e.wf # <<>>
            \/ c.cmd = "fill" /\ e.raw # b.raw /\ e.unused # 0)

-----------------------------------------------------------------------------
(* Copying commands.  D is the map that is edited, S the one copied from   *)
(* (for clone, the same).  A node is copied iff its destination is in the  *)
(* shifted area and both ends are readable, generated blocks.              *)

Offset(c) == IF c.hasoff THEN c.off ELSE <<0, 0, 0>>
InMap(p) == \A j \in 1..3 : -BlockLimit <= p[j] /\ p[j] <= BlockLimit
DstLo(c) == Plus(Lo(c), Offset(c))
DstHi(c) == Plus(Hi(c), Offset(c))

CanCopyFrom(S, sp) ==
  InMap(sp) /\ Key(sp) \in DOMAIN S /\ Generated(S[Key(sp)]) /\ Usable(S[Key(sp)])

(* The source blocks that overlap block p of the destination: at most 8. *)
SrcBlocks(c, p) ==
  LET lo == BlockOf(Minus(AbsPos(p, 0), Offset(c)))
      hi == BlockOf(Minus(AbsPos(p, N - 1), Offset(c)))
  IN {<<x, y, z>> : x \in lo[1]..hi[1], y \in lo[2]..hi[2], z \in lo[3]..hi[3]}

ShiftMetaFrom(c, p, b, S) ==
  (* metadata that arrives in block p, sorted by position *)
  LET arriving ==
        UNION {LET s == S[Key(sp)] IN
               {[s.meta[j] EXCEPT !.i =
                    IdxOf(Plus(AbsPos(sp, s.meta[j].i), Offset(c)))] :
                 j \in {k \in 1..Len(s.meta) :
                    LET q == Plus(AbsPos(sp, s.meta[k].i), Offset(c)) IN
                    /\ BlockOf(q) = p
                    /\ c.area => InBox(DstLo(c), DstHi(c), q)}} :
               sp \in {x \in SrcBlocks(c, p) : CanCopyFrom(S, x)}}
  IN arriving

CopyDiffs(c, p, b, e, S) ==
  IF ~(Generated(b) /\ Usable(b)) THEN Aspect("skipped", e.raw # b.raw)
  ELSE
  LET l == IF c.area THEN LocalLo(DstLo(c), p) ELSE <<0, 0, 0>>
      h == IF c.area THEN LocalHi(DstHi(c), p) ELSE <<B-1, B-1, B-1>>
      touched == \A j \in 1..3 : l[j] <= h[j]
  IN
  IF ~touched /\ e.raw = b.raw THEN {}
  ELSE IF e.st # "ok" THEN {"unreadable"}
  ELSE
  LET off == Offset(c)
      all == SrcBlocks(c, p)
      usable == {sp \in all : CanCopyFrom(S, sp)}
      Src(i) == Minus(AbsPos(p, i), off)
      Copied(i) == touched /\ InLocal(l, h, i) /\ BlockOf(Src(i)) \in usable
      Want(f, i) ==
        IF ~InLocal(l, h, i) THEN At(b[f], i)
        ELSE LET q == Src(i)
                 sp == BlockOf(q)
             IN IF sp \in usable THEN At(S[Key(sp)][f], IdxOf(q)) ELSE At(b[f], i)
      (* part of the destination that comes from block sp *)
      At0(sp, j) == sp[j] * B + off[j] - p[j] * B   \* where sp begins
      FragLo(sp) == << Max2(l[1], At0(sp, 1)), Max2(l[2], At0(sp, 2)),
                       Max2(l[3], At0(sp, 3)) >>
      FragHi(sp) == << Min2(h[1], At0(sp, 1) + B - 1), Min2(h[2], At0(sp, 2) + B - 1),
                       Min2(h[3], At0(sp, 3) + B - 1) >>
      Shifted(sp, f) == (* exceptions of source arrays, where they arrive *)
        {IdxOf(Plus(AbsPos(sp, i), Offset(c))) :
           i \in {k \in Exc(S[Key(sp)][f]) :
                    BlockOf(Plus(AbsPos(sp, k), Offset(c))) = p}}
      Dense(f) ==
        b[f].k = 2 \/ e[f].k = 2 \/ (\E sp \in usable : S[Key(sp)][f].k = 2)
      (* Dense arrays are compared in pieces of rows, which come either from *)
      (* one source block or from b: <<first index, length, source>>.        *)
      cut == Offset(c)[1] % B
      Pieces(y, z) ==
        LET r == B * y + B * B * z
            in == /\ l[2] <= y /\ y <= h[2] /\ l[3] <= z /\ z <= h[3]
                  /\ l[1] <= h[1]
        IN IF ~in THEN {<<r, B>>}
           ELSE {t \in { <<r, l[1]>>, <<r + h[1] + 1, B - 1 - h[1]>>,
                         <<r + l[1], IF l[1] < cut /\ cut <= h[1] THEN cut - l[1]
                                     ELSE h[1] - l[1] + 1>>,
                         <<r + cut, IF l[1] < cut /\ cut <= h[1] THEN h[1] - cut + 1
                                    ELSE 0>> } : t[2] > 0}
      WrongPieces(f) ==
        {t \in UNION {Pieces(y, z) : y \in 0..(B - 1), z \in 0..(B - 1)} :
           LET q == Src(t[1]) IN
           Slice(e[f], t[1], t[2])
             # IF Copied(t[1]) THEN Slice(S[Key(BlockOf(q))][f], IdxOf(q), t[2])
               ELSE Slice(b[f], t[1], t[2])}
      CK(f) ==
             LET X == Exc(b[f]) \cup Exc(e[f])
                      \cup UNION {Shifted(sp, f) : sp \in usable}
             IN X \cup RepOut(l, h, X)
                \cup UNION {RepIn(FragLo(sp), FragHi(sp), X) : sp \in all}
      (* indices of what is wrong *)
      Wrong(f) ==
        IF ~touched THEN IF e[f] # b[f] THEN {0} ELSE {}
        ELSE IF Dense(f) THEN {t[1] : t \in WrongPieces(f)}
        ELSE {i \in CK(f) : At(e[f], i) # Want(f, i)}
      wrongNodes == Wrong("nodes")
      wrongP1 == Wrong("p1")
      wrongP2 == Wrong("p2")
      RestBad(w) == \E i \in w : ~Copied(i)   \* changed outside of the target
      kept == {b.meta[j] : j \in {k \in 1..Len(b.meta) : ~Copied(b.meta[k].i)}}
      wantMeta == {m \in kept \cup (IF touched THEN ShiftMetaFrom(c, p, b, S) ELSE {}) :
                     ~MetaEmpty(m)}
      have == Norm(e.meta)
  IN Aspect("nodes", wrongNodes # {}) \cup Aspect("nodes-rest", RestBad(wrongNodes))
     \cup Aspect("param1", wrongP1 # {}) \cup Aspect("param1-rest", RestBad(wrongP1))
     \cup Aspect("param2", wrongP2 # {}) \cup Aspect("param2-rest", RestBad(wrongP2))
     \cup Aspect("meta", Elems(have) # wantMeta \/ Len(have) # Cardinality(wantMeta))
     \cup Aspect("meta-rest", \E m \in kept : ~MetaEmpty(m) /\ m \notin Elems(have))
     \cup Aspect("timers", e.timers # b.timers)
     \cup Aspect("timers-rest", e.timers # b.timers)
     \cup Aspect("objs", e.objs # b.objs)
     \cup Aspect("objs-rest", e.objs # b.objs)
     \cup Aspect("header", ~SameHeader(b, e))
     \cup Aspect("wellformed",
            \/ b.wf = <<>> /\ (\A sp \in usable : S[Key(sp)].wf = <<>>) /\ e.wf # <<>>
            \/ e.raw # b.raw /\ e.unused # 0)

(* Overlay without offset: a block that is selected as a whole is copied   *)
(* verbatim, if it is generated, whether or not the destination exists.    *)
OverlayWhole(c, p) == SelAll(c, p)

(* A partly selected block takes nodes, params and metadata of the         *)
(* selected nodes from S and of the others from D.  Objects, timers and    *)
(* header are not merged: they are those of D (plain) or of S (inverted).  *)
OverlayPartDiffs(c, p, b, s, e) ==
  IF ~(Generated(b) /\ Usable(b) /\ Generated(s) /\ Usable(s))
  THEN Aspect("skipped", e.raw # b.raw)
  ELSE IF e.st # "ok" THEN {"unreadable"}
  ELSE
  LET l == LocalLo(Lo(c), p)
      h == LocalHi(Hi(c), p)
      Sel(i) == InLocal(l, h, i) # c.invert
      Want(f, i) == IF Sel(i) THEN At(s[f], i) ELSE At(b[f], i)
      CK(f) ==
        IF b[f].k = 2 \/ e[f].k = 2 \/ s[f].k = 2 THEN 0..(N - 1)
        ELSE LET X == Exc(b[f]) \cup Exc(e[f]) \cup Exc(s[f])
             IN X \cup RepIn(l, h, X) \cup RepOut(l, h, X)
      arrBad(f) == \E i \in CK(f) : At(e[f], i) # Want(f, i)
      restBad(f) == \E i \in CK(f) : ~Sel(i) /\ At(e[f], i) # At(b[f], i)
      kept == {b.meta[j] : j \in {k \in 1..Len(b.meta) : ~Sel(b.meta[k].i)}}
      meta == kept
              \cup {s.meta[j] : j \in {k \in 1..Len(s.meta) : Sel(s.meta[k].i)}}
      wantMeta == {m \in meta : ~MetaEmpty(m)}
      have == Norm(e.meta)
      base == IF c.invert THEN s ELSE b
  IN Aspect("nodes", arrBad("nodes")) \cup Aspect("nodes-rest", restBad("nodes"))
     \cup Aspect("param1", arrBad("p1")) \cup Aspect("param1-rest", restBad("p1"))
     \cup Aspect("param2", arrBad("p2")) \cup Aspect("param2-rest", restBad("p2"))
     \cup Aspect("meta", Elems(have) # wantMeta \/ Len(have) # Cardinality(wantMeta))
     \cup Aspect("meta-rest", \E m \in kept : ~MetaEmpty(m) /\ m \notin Elems(have))
     \cup Aspect("timers", e.timers # base.timers)
     \cup Aspect("timers-rest", e.timers # base.timers)
     \cup Aspect("objs", e.objs # base.objs)
     \cup Aspect("objs-rest", e.objs # base.objs)
     \cup Aspect("header", ~SameHeader(base, e))
     \cup Aspect("wellformed",
            \/ b.wf = <<>> /\ s.wf = <<>> /\ e.wf # <<>>
            \/ e.raw # b.raw /\ e.unused # 0)

-----------------------------------------------------------------------------
(* A whole command: map W (and source map I) become W2.                    *)

None == [st |-> "none"]
Get(M, k) == IF k \in DOMAIN M THEN M[k] ELSE None
Present(b) == b.st # "none"

(* Aspects in which the result differs at one key. *)
KeyDiffs(c, W, I, k, e) ==
  LET b == Get(W, k)
      p == IF Present(b) THEN b.pos ELSE IF Present(e) THEN e.pos ELSE I[k].pos
  IN
  CASE c.cmd = "vacuum" ->
         Aspect("data", b # e)
    [] c.cmd = "deleteblocks" ->
         IF ~Present(b) THEN Aspect("extra", Present(e))
         ELSE IF SelAll(c, p) THEN Aspect("notdeleted", Present(e))
         ELSE IF ~Present(e) THEN {"missing"}
         ELSE Aspect("skipped", e.raw # b.raw)
    [] c.cmd = "overlay" /\ Offset(c) = <<0, 0, 0>> ->
         LET s == Get(I, k) IN
         IF Present(s) /\ OverlayWhole(c, p) /\ Generated(s)
         THEN IF ~Present(e) THEN {"missing"} ELSE Aspect("copy", e.raw # s.raw)
         ELSE IF ~Present(b) THEN Aspect("extra", Present(e))
         ELSE IF ~Present(e) THEN {"missing"}
         ELSE IF Present(s) /\ ~OverlayWhole(c, p) /\ ~SelNone(c, p)
         THEN OverlayPartDiffs(c, p, b, s, e)
         ELSE Aspect("skipped", e.raw # b.raw)
    [] OTHER ->
         IF ~Present(b) THEN Aspect("extra", Present(e))
         ELSE IF ~Present(e) THEN {"missing"}
         ELSE IF c.cmd = "clone" THEN CopyDiffs(c, p, b, e, W)
         ELSE IF c.cmd = "overlay" THEN CopyDiffs(c, p, b, e, I)
         ELSE InPlaceDiffs(c, p, b, e)

-----------------------------------------------------------------------------
(* Argument combinations that are refused without touching the map.        *)
(* (Names are checked in Args.tla, where they are spelled out.)            *)

Within(q, m) == \A j \in 1..3 : -m <= q[j] /\ q[j] <= m
Limit == 31000
ArgError(c) ==
  \/ c.invert /\ ~c.area
  \/ c.area /\ ~(Within(c.a, Limit) /\ Within(c.b, Limit))
  \/ c.hasoff /\ ~Within(c.off, 2 * Limit)
  \/ c.cmd = "clone" /\ \E j \in 1..3 : DstLo(c)[j] > Limit \/ DstHi(c)[j] < -Limit
  \/ c.cmd = "overlay" /\ c.invert /\ Offset(c) # <<0, 0, 0>>
  \/ c.cmd = "overlay" /\ c.area
       /\ \E j \in 1..3 : DstLo(c)[j] > Limit \/ DstHi(c)[j] < -Limit
  \/ c.cmd = "setparam2" /\ ~c.area /\ c.node = -1
  \/ c.cmd = "replacenodes" /\ c.node = c.new
  \/ c.cmd = "deleteobjects" /\ c.hasobj /\ c.hasitems
  \/ c.cmd = "setmetavar" /\ (c.hasvalue = c.delete \/ (c.hasvalue /\ c.value = ""))
  \/ c.cmd = "replaceininv" /\ \/ c.newitem = "" /\ ~c.delete /\ ~c.delmeta
                               \/ c.newitem # "" /\ c.delete
                               \/ c.newitem = c.item /\ ~c.delmeta

-----------------------------------------------------------------------------
(* Reported numbers *)

SelCount(c, p) ==
  IF SelAll(c, p) THEN N ELSE IF SelNone(c, p) THEN 0
  ELSE LET v == LocalVolume(LocalLo(Lo(c), p), LocalHi(Hi(c), p))
       IN IF c.invert THEN N - v ELSE v

CountIn(c, b, n) == \* nodes of block b equal to n and selected
  LET all == SelAll(c, b.pos)
      l == LocalLo(Lo(c), b.pos)
      h == LocalHi(Hi(c), b.pos)
  IN IF SelNone(c, b.pos) THEN 0
     ELSE IF Flat(b.nodes) THEN (IF b.nodes.d = n THEN SelCount(c, b.pos) ELSE 0)
     ELSE Cardinality({i \in 0..(N - 1) : At(b.nodes, i) = n
                         /\ (all \/ InLocal(l, h, i) # c.invert)})

(* Bounds <<lo, hi>> of the number of things a command reports. *)
BlockCount(c, p, b) ==
  IF ~Edits(c, b) THEN <<0, 0>>
  ELSE CASE c.cmd = "fill" -> <<SelCount(c, p), SelCount(c, p)>>
         [] c.cmd = "replacenodes" -> LET n == CountIn(c, b, c.node) IN <<n, n>>
         [] c.cmd = "setparam2" ->
              LET n == IF c.node = -1 THEN SelCount(c, p) ELSE CountIn(c, b, c.node)
              IN <<n, n>>
         [] c.cmd = "deletemeta" ->
              LET t == {j \in 1..Len(b.meta) : Targets(c, b, p, b.meta[j].i)}
              IN << Cardinality({j \in t : ~MetaEmpty(b.meta[j])}), Cardinality(t) >>
         [] c.cmd = "deletetimers" ->
              LET n == Len(b.timers) - Len(TimersAfter(c, b, p)) IN <<n, n>>
         [] c.cmd = "deleteobjects" ->
              LET n == Len(b.objs) - Len(ObjsAfter(c, b, p)) IN <<n, n>>
         [] c.cmd = "setmetavar" ->
              LET n == Cardinality({j \in 1..Len(b.meta) :
                          Targets(c, b, p, b.meta[j].i) /\ HasVar(b.meta[j], c.key)})
              IN <<n, n>>
         [] c.cmd = "replaceininv" ->
              LET n == SeqSum([j \in 1..Len(b.meta) |->
                     IF Targets(c, b, p, b.meta[j].i)
                     THEN Cardinality({k \in 1..Len(b.meta[j].inv) :
                                         IsItem(c, b.meta[j].inv[k])}) ELSE 0])
              IN <<n, n>>
         [] OTHER -> <<0, 0>>

(* replaceininv also reports the number of inventories changed. *)
BlockCount2(c, p, b) ==
  IF ~Edits(c, b) \/ c.cmd # "replaceininv" THEN 0
  ELSE Cardinality({j \in 1..Len(b.meta) :
         Targets(c, b, p, b.meta[j].i)
         /\ \E k \in 1..Len(b.meta[j].inv) : IsItem(c, b.meta[j].inv[k])})

(* The number of skipped mapblocks that is reported: bad blocks that the   *)
(* command meets, i.e. that its selection touches.  With a name filter,    *)
(* old-format blocks may be passed over unread when the name does not      *)
(* occur in them; copying commands pass over unsupported versions          *)
(* silently (named deviations, hence bounds).                              *)
HasFilter(c) == c.node # -1 \/ c.nodes # <<>> \/ c.hasobj \/ c.hasitems
FailBounds(c, W, I) ==
  CASE c.cmd \in InPlaceCmds ->
         LET met == {k \in DOMAIN W : ~Usable(W[k]) /\ ~SelNone(c, W[k].pos)}
             sure == {k \in met : ~HasFilter(c) \/ W[k].ver > 28}
         IN <<Cardinality(sure), Cardinality(met)>>
    [] c.cmd = "clone" \/ (c.cmd = "overlay" /\ Offset(c) # <<0, 0, 0>>) ->
         LET touches(p) == ~c.area \/ BlockTouches(DstLo(c), DstHi(c), p)
             met == {k \in DOMAIN W : ~Usable(W[k]) /\ touches(W[k].pos)}
             sure == {k \in met : Generated(W[k])}
         IN <<Cardinality(sure), Cardinality(met)>>
    [] c.cmd = "overlay" ->
         LET part == {k \in DOMAIN W \cap DOMAIN I :
                        ~OverlayWhole(c, I[k].pos) /\ ~SelNone(c, I[k].pos)}
             met == {k \in part : ~Usable(W[k]) \/ ~Usable(I[k])}
             sure == {k \in met : Generated(W[k]) /\ (I[k].hdr => I[k].gen)}
         IN <<Cardinality(sure), Cardinality(met)>>
    [] OTHER -> <<0, 0>>

CountBounds(c, W) ==
  IF c.cmd \notin InPlaceCmds THEN <<0, 0, 0>>
  ELSE LET all == {k \in DOMAIN W : Edits(c, W[k])}
           b == [k \in all |-> BlockCount(c, W[k].pos, W[k])]
       IN << SumOver(all, LAMBDA k : b[k][1]),
             SumOver(all, LAMBDA k : b[k][2]),
             SumOver(all, LAMBDA k : BlockCount2(c, W[k].pos, W[k])) >>
=============================================================================
