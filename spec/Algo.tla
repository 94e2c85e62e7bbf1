--------------------------------- MODULE Algo ---------------------------------
(***************************************************************************)
(* How MapEditr computes its commands: a query that collects keys, block   *)
(* by block edits on node IDs and name-ID maps, decomposition of areas     *)
(* into parts of blocks, a bounded cache and a sorted order for clone.     *)
(*                                                                         *)
(* Model checking at B = 2 shows that every behaviour of this machine ends *)
(* in a map that Commands allows (Correct), for every area, offset and     *)
(* order in the bounds of the configuration.  Variant names one wrong      *)
(* version of an algorithm ("none": as it is); for each of those TLC must  *)
(* find a violation, so that Correct is known to be able to fail.          *)
(*                                                                         *)
(* A stored block has node IDs `ids` and a name-ID map `nimap`; `words`    *)
(* are the names whose length-prefixed text occurs in the stored data.     *)
(* Metadata is a function from positions.  Everything else is as in        *)
(* Commands.                                                               *)
(***************************************************************************)
EXTENDS Commands, SequencesExt

CONSTANTS Part,       \* which commands and worlds (see below)
          Variant,
          CacheCap

KW == 8               \* block positions are -KW/2 .. KW/2 - 1
AlgoKey(p) == p[1] + KW * p[2] + KW * KW * p[3]
FromKey(k) ==
  LET x == ((k + KW \div 2) % KW) - KW \div 2
      rem == (k - x) \div KW
      y == ((rem + KW \div 2) % KW) - KW \div 2
      z == (rem - y) \div KW
  IN <<x, y, z>>

VARIABLES c, W0, I0, W, ph, todo, order, cache, count, count2, fails
vars == <<c, W0, I0, W, ph, todo, order, cache, count, count2, fails>>

NoBlock == [st |-> "none"]
Err == [st |-> "err"]

-----------------------------------------------------------------------------
(* Name-ID maps *)

MaxId(m) == CHOOSE i \in DOMAIN m : \A j \in DOMAIN m : j <= i
IdOf(m, n) == \* the lowest ID of a name; -1 if there is none
  LET s == {i \in DOMAIN m : m[i] = n}
  IN IF s = {} THEN -1 ELSE CHOOSE i \in s : \A j \in s : i <= j
Insert(m, i, n) == [j \in DOMAIN m \cup {i} |-> IF j = i THEN n ELSE m[j]]
RemoveShift(m, id) ==
  LET old(k) == IF k < id THEN k ELSE k + 1
  IN [k \in {IF i < id THEN i ELSE i - 1 : i \in DOMAIN m \ {id}} |-> m[old(k)]]

Clean(b) == \* clean_name_id_map
  LET used == {b.ids[i] : i \in 1..N}
      RECURSIVE go(_, _, _)   \* old IDs left, new map, old -> new
      go(left, nm, tr) ==
        IF left = <<>> THEN <<nm, tr>>
        ELSE LET id == Head(left)
                 n == b.nimap[id]
                 have == IdOf(nm, n)
             IN IF id \notin used /\ Variant # "keep-unused" THEN go(Tail(left), nm, tr)
                ELSE IF have # -1 /\ Variant # "keep-dups"
                THEN go(Tail(left), nm, Insert(tr, id, have))
                ELSE LET new == Cardinality(DOMAIN nm)
                     IN go(Tail(left), Insert(nm, new, n), Insert(tr, id, new))
      empty == [i \in {} |-> 0]
      res == go(SetToSortSeq(DOMAIN b.nimap, <), empty, empty)
  IN [b EXCEPT !.nimap = res[1], !.ids = [i \in 1..N |-> res[2][b.ids[i]]]]

-----------------------------------------------------------------------------
(* Areas as <<lowest, highest>> corner *)

BoxOf(x) == <<Lo(x), Hi(x)>>
Shift(a, o) == <<Plus(a[1], o), Plus(a[2], o)>>
Valid(a) == \A j \in 1..3 : a[1][j] <= a[2][j]
Corner(p) == <<p[1] * B, p[2] * B, p[3] * B>>
Inside(a, q) == InBox(a[1], a[2], q)
ContainsBlock(a, p) ==
  LET q == Corner(p) IN \A j \in 1..3 : a[1][j] <= q[j] /\ q[j] + B - 1 <= a[2][j]
TouchesBlock(a, p) ==
  LET q == Corner(p) IN \A j \in 1..3 : a[1][j] <= q[j] + B - 1 /\ q[j] <= a[2][j]
Contained(a) ==
  << << (a[1][1] + B - 1) \div B, (a[1][2] + B - 1) \div B, (a[1][3] + B - 1) \div B >>,
     << (a[2][1] - B + 1) \div B, (a[2][2] - B + 1) \div B, (a[2][3] - B + 1) \div B >> >>
Touching(a) == << BlockOf(a[1]), BlockOf(a[2]) >>
AbsOverlap(a, p) ==
  LET q == Corner(p) IN
  << << Max2(a[1][1], q[1]), Max2(a[1][2], q[2]), Max2(a[1][3], q[3]) >>,
     << Min2(a[2][1], q[1] + B - 1), Min2(a[2][2], q[2] + B - 1),
        Min2(a[2][3], q[3] + B - 1) >> >>
RelOverlap(a, p) == Shift(AbsOverlap(a, p), Minus(<<0, 0, 0>>, Corner(p)))
IdxIn(a) == \* indices of the nodes of a block-local area
  {x + B * y + B * B * z : x \in a[1][1]..a[2][1], y \in a[1][2]..a[2][2],
                           z \in a[1][3]..a[2][3]}
Volume(a) == (a[2][1] - a[1][1] + 1) * (a[2][2] - a[1][2] + 1) * (a[2][3] - a[1][3] + 1)
Part4(x, p) == \* the selected indices of a partly selected block
  LET in == IdxIn(RelOverlap(BoxOf(x), p))
  IN IF x.invert /\ Variant # "part-invert" THEN (0..(N - 1)) \ in ELSE in
Partly(x, p) == x.area /\ ContainsBlock(BoxOf(x), p) # TouchesBlock(BoxOf(x), p)

-----------------------------------------------------------------------------
(* The query.  strs: names of which old-format data must contain one.      *)

Query(M, strs, hasArea, a, invert, partial) ==
  LET blocks == IF ~hasArea THEN <<>>
                ELSE IF invert = partial
                THEN (IF Variant = "touching" THEN Touching(a)
                      ELSE IF Valid(Contained(a)) THEN Contained(a) ELSE <<>>)
                ELSE Touching(a)
      empty == hasArea /\ blocks = <<>>
  IN IF empty /\ ~invert THEN {}
     ELSE {k \in DOMAIN M :
             /\ (hasArea /\ ~empty) => Inside(blocks, FromKey(k)) # invert
             /\ (M[k].ver # 0 /\ M[k].ver <= (IF Variant = "prefilter" THEN 29 ELSE 28)
                   /\ strs # {}) => strs \cap M[k].words # {}}

Strs(x) ==
  CASE x.cmd = "deleteobjects" ->
         IF x.hasitems THEN {"__builtin:item"} ELSE IF x.hasobj THEN {x.obj} ELSE {}
    [] x.cmd \in {"replacenodes", "setparam2", "deletemeta", "deletetimers"} ->
         IF x.node = -1 THEN {} ELSE {ToString(x.node)}
    [] x.cmd \in {"setmetavar", "replaceininv"} -> {ToString(n) : n \in Elems(x.nodes)}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Edits of one block.  Each gives <<block, written, count, count2>>.      *)

Written(b) == [b EXCEPT !.raw = "rewritten",
                        !.meta = [i \in {j \in DOMAIN b.meta : ~MetaEmpty(b.meta[j])} |->
                                    b.meta[i]]]
Kept(b) == <<b, FALSE, 0, 0>>

DoFill(x, p, b) ==
  IF ~b.gen THEN Kept(b)
  ELSE IF Partly(x, p)
  THEN LET id == IF IdOf(b.nimap, x.new) # -1 THEN IdOf(b.nimap, x.new)
                 ELSE IF Variant = "next-id" THEN Cardinality(DOMAIN b.nimap)
                 ELSE MaxId(b.nimap) + 1
           part == Part4(x, p)
           b2 == [b EXCEPT !.nimap = Insert(b.nimap, id, x.new),
                           !.ids = [i \in 1..N |-> IF i - 1 \in part THEN id ELSE b.ids[i]]]
           vol == Volume(RelOverlap(BoxOf(x), p))
       IN <<Clean(b2), TRUE, IF x.invert THEN N - vol ELSE vol, 0>>
  ELSE <<[b EXCEPT !.nimap = [i \in {0} |-> x.new], !.ids = [i \in 1..N |-> 0]], TRUE, N, 0>>

DoReplace(x, p, b) ==
  LET old == IdOf(b.nimap, x.node) IN
  IF old = -1 THEN Kept(b)
  ELSE
  LET have == IdOf(b.nimap, x.new)
      Down(id) == IF id > old THEN id - 1 ELSE id
  IN
  IF Partly(x, p)
  THEN LET new == IF have # -1 THEN have ELSE MaxId(b.nimap) + 1
           hit == {i \in Part4(x, p) : b.ids[i + 1] = old}
           ids1 == [i \in 1..N |-> IF i - 1 \in hit THEN new ELSE b.ids[i]]
           nm1 == IF have = -1 /\ hit # {} THEN Insert(b.nimap, new, x.new) ELSE b.nimap
           gone == \A i \in 1..(IF Variant = "last-node" THEN N - 1 ELSE N) : ids1[i] # old
           b2 == IF ~gone THEN [b EXCEPT !.ids = ids1, !.nimap = nm1]
                 ELSE [b EXCEPT !.ids = [i \in 1..N |-> Down(ids1[i])],
                                !.nimap = RemoveShift(nm1, old)]
       IN <<b2, TRUE, Cardinality(hit), 0>>
  ELSE LET hit == {i \in 1..N : b.ids[i] = old}
           new == IF Variant = "no-shift" THEN have ELSE Down(have)
           b2 == IF have # -1
                 THEN [b EXCEPT !.nimap = RemoveShift(b.nimap, old),
                                !.ids = [i \in 1..N |-> IF i \in hit THEN new
                                                        ELSE Down(b.ids[i])]]
                 ELSE [b EXCEPT !.nimap = Insert(b.nimap, old, x.new)]
       IN <<b2, TRUE, Cardinality(hit), 0>>

DoParam2(x, p, b) ==
  LET id == IF x.node = -1 THEN -1 ELSE IdOf(b.nimap, x.node) IN
  IF x.node # -1 /\ id = -1 THEN Kept(b)
  ELSE LET part == IF Partly(x, p) THEN Part4(x, p) ELSE 0..(N - 1)
           hit == {i \in part : id = -1 \/ b.ids[i + 1] = id}
       IN <<[b EXCEPT !.p2 = [i \in 1..N |-> IF i - 1 \in hit THEN x.p2 ELSE b.p2[i]]],
            TRUE, Cardinality(hit), 0>>

(* Positions that pass the area and node filters. *)
Passes(x, p, b, i, ids) ==
  /\ x.area => InBox(Lo(x), Hi(x), AbsPos(p, i)) # x.invert
  /\ ids # {} => b.ids[i + 1] \in ids
NodeIds(x, b) ==
  {IdOf(b.nimap, n) : n \in IF x.node # -1 THEN {x.node} ELSE Elems(x.nodes)} \ {-1}
HasNodes(x) == x.node # -1 \/ x.nodes # <<>>

DoDelMeta(x, p, b) ==
  LET hit == {i \in DOMAIN b.meta : Passes(x, p, b, i, NodeIds(x, b))} IN
  IF hit = {} THEN Kept(b)
  ELSE <<[b EXCEPT !.meta = [i \in DOMAIN b.meta \ hit |-> b.meta[i]]], TRUE,
         Cardinality(hit), 0>>

DoTimers(x, p, b) ==
  LET left == SelectSeq(b.timers, LAMBDA t : ~Passes(x, p, b, t[1], NodeIds(x, b)))
      n == Len(b.timers) - Len(left)
  IN IF n = 0 THEN Kept(b) ELSE <<[b EXCEPT !.timers = left], TRUE, n, 0>>

DoObjs(x, p, b) ==
  LET Round(v) == IF Variant = "trunc" THEN v \div 10000 ELSE (v + 5000) \div 10000
      Goes(o) ==
        /\ x.area => InBox(Lo(x), Hi(x), <<Round(o.x), Round(o.y), Round(o.z)>>) # x.invert
        /\ (x.hasobj \/ x.hasitems) =>
             /\ o.lua /\ o.name = (IF x.hasitems THEN "__builtin:item" ELSE x.obj)
             /\ x.items # <<>> => o.item \in Elems(x.items)
      left == SelectSeq(b.objs, LAMBDA o : ~Goes(o))
      n == Len(b.objs) - Len(left)
  IN IF n = 0 THEN Kept(b) ELSE <<[b EXCEPT !.objs = left], TRUE, n, 0>>

DoMetaVar(x, p, b) ==
  LET hit == {i \in DOMAIN b.meta : Passes(x, p, b, i, NodeIds(x, b)) /\ HasVar(b.meta[i], x.key)}
      New(m) == [m EXCEPT !.vars =
                   IF x.delete THEN SelectSeq(m.vars, LAMBDA v : v[1] # x.key)
                   ELSE SeqMap(m.vars, LAMBDA v : IF v[1] = x.key
                                                  THEN <<v[1], x.value, v[3]>> ELSE v)]
  IN IF hit = {} THEN Kept(b)
     ELSE <<[b EXCEPT !.meta = [i \in DOMAIN b.meta |->
                IF i \in hit THEN New(b.meta[i]) ELSE b.meta[i]]], TRUE, Cardinality(hit), 0>>

DoInv(x, p, b) ==
  LET Line(t) ==
        IF Len(t) < 2 \/ t[1] # "Item" \/ t[2] # x.item THEN t
        ELSE IF x.newitem = "" /\ x.delete THEN <<"Empty">>
        ELSE LET name == IF x.newitem = "" THEN x.item ELSE x.newitem
                 cnt == IF Len(t) > 2 THEN t[3] ELSE "1"
                 wear == IF Len(t) > 3 THEN t[4] ELSE "0"
             IN IF x.delmeta
                THEN <<"Item", name>> \o (IF cnt # "1" \/ wear # "0" THEN <<cnt>> ELSE <<>>)
                                      \o (IF wear # "0" THEN <<wear>> ELSE <<>>)
                ELSE <<"Item", name>> \o SubSeq(t, 3, Len(t))
      Mods(m) == Cardinality({j \in 1..Len(m.inv) :
                    Len(m.inv[j]) > 1 /\ m.inv[j][1] = "Item" /\ m.inv[j][2] = x.item})
      hit == {i \in DOMAIN b.meta : Passes(x, p, b, i, NodeIds(x, b)) /\ Mods(b.meta[i]) > 0}
  IN IF hit = {} THEN Kept(b)
     ELSE <<[b EXCEPT !.meta = [i \in DOMAIN b.meta |->
                IF i \in hit THEN [b.meta[i] EXCEPT !.inv = SeqMap(@, Line)] ELSE b.meta[i]]],
            TRUE, SumOver(hit, LAMBDA i : Mods(b.meta[i])), Cardinality(hit)>>

DoEdit(x, p, b) ==
  IF HasNodes(x) /\ x.cmd # "replacenodes" /\ NodeIds(x, b) = {} THEN Kept(b)
  ELSE CASE x.cmd = "fill" -> DoFill(x, p, b)
         [] x.cmd = "replacenodes" -> DoReplace(x, p, b)
         [] x.cmd = "setparam2" -> DoParam2(x, p, b)
         [] x.cmd = "deletemeta" -> DoDelMeta(x, p, b)
         [] x.cmd = "deletetimers" -> DoTimers(x, p, b)
         [] x.cmd = "deleteobjects" -> DoObjs(x, p, b)
         [] x.cmd = "setmetavar" -> DoMetaVar(x, p, b)
         [] x.cmd = "replaceininv" -> DoInv(x, p, b)

-----------------------------------------------------------------------------
(* Copying parts of blocks *)

MergeBlocks(s, d, sa, da) ==
  LET diff == LET o == Minus(da[1], sa[1]) IN o[1] + B * o[2] + B * B * o[3]
      plus == IF Variant = "merge-id" THEN Cardinality(DOMAIN d.nimap) ELSE MaxId(d.nimap) + 1
      to == {i + diff : i \in IdxIn(sa)}
      Arr(f, g(_)) == [i \in 1..N |-> IF i - 1 \in to THEN g(s[f][i - diff]) ELSE d[f][i]]
  IN [d EXCEPT !.nimap = [i \in DOMAIN d.nimap \cup {j + plus : j \in DOMAIN s.nimap} |->
                            IF i >= plus /\ i - plus \in DOMAIN s.nimap
                            THEN s.nimap[i - plus] ELSE d.nimap[i]],
               !.ids = Arr("ids", LAMBDA v : v + plus),
               !.p1 = Arr("p1", LAMBDA v : v),
               !.p2 = Arr("p2", LAMBDA v : v)]

MergeMeta(sm, dm, sa, da) ==
  LET diff == LET o == Minus(da[1], sa[1]) IN o[1] + B * o[2] + B * B * o[3]
      kept == DOMAIN dm \ (IF Variant = "meta-stays" THEN {} ELSE IdxIn(da))
      come == {i + diff : i \in DOMAIN sm \cap IdxIn(sa)}
  IN [i \in kept \cup come |-> IF i \in come THEN sm[i - diff] ELSE dm[i]]

Merge(s, d, sa, da) == [MergeBlocks(s, d, sa, da) EXCEPT !.meta = MergeMeta(s.meta, d.meta, sa, da)]

(* What a cache entry holds: nothing, a failure or a block. *)
Read(M, k) ==
  IF k \notin DOMAIN M THEN NoBlock
  ELSE IF ~(M[k].hdr /\ M[k].gen) THEN NoBlock
  ELSE IF M[k].st # "ok" THEN Err ELSE M[k]

InCache(ca, k) == \E j \in 1..Len(ca) : ca[j][1] = k
Cached(ca, k) == ca[CHOOSE j \in 1..Len(ca) : ca[j][1] = k][2]
Look(ca, M, k) == \* <<block, new cache>>
  IF InCache(ca, k) THEN <<Cached(ca, k), ca>>
  ELSE LET full == Len(ca) >= CacheCap
           b == Read(M, k)
       IN <<b, Append(IF full THEN Tail(ca) ELSE ca, <<k, b>>)>>

(* Copy what arrives in block p (d) from the blocks of M under area sa.    *)
(* Gives <<block, cache>>.                                                 *)
CopyInto(p, d, ca, M, sa, off) ==
  LET blocks == Touching(sa)
      sps == SetToSortSeq({<<x, y, z>> : x \in blocks[1][1]..blocks[2][1],
                                         y \in blocks[1][2]..blocks[2][2],
                                         z \in blocks[1][3]..blocks[2][3]},
                          LAMBDA q, t : AlgoKey(q) < AlgoKey(t))
      RECURSIVE go(_, _, _)
      go(i, b, cc) ==
        IF i > Len(sps) THEN <<b, cc>>
        ELSE LET sp == sps[i] IN
             IF ~InMap(sp) THEN go(i + 1, b, cc)
             ELSE LET r == Look(cc, M, AlgoKey(sp)) IN
                  IF r[1].st \in {"none", "err"} THEN go(i + 1, b, r[2])
                  ELSE LET frag == AbsOverlap(sa, sp)
                           from == Shift(frag, Minus(<<0, 0, 0>>, Corner(sp)))
                           to == RelOverlap(Shift(frag, off), p)
                       IN go(i + 1, Merge(r[1], b, from, to), r[2])
  IN go(1, d, ca)

-----------------------------------------------------------------------------
(* The commands *)



CloneOrder(keys, off) ==
  LET dir == [j \in 1..3 |-> IF off[j] > 0 /\ Variant # "unsorted" THEN -1 ELSE 1]
      SortKey(k) ==
        LET p == FromKey(k) IN
        AlgoKey([j \in 1..3 |-> p[j] * dir[j]
                  + IF dir[j] = -1 THEN -1 ELSE 0])
  IN SetToSortSeq(keys, LAMBDA s, t : SortKey(s) < SortKey(t))

DoQuery ==
  /\ ph = "query"
  /\ LET a == IF c.area THEN BoxOf(c) ELSE <<>>
         off == Offset(c)
         keys ==
           CASE c.cmd = "clone" -> Query(W, {}, TRUE, Shift(a, off), FALSE, TRUE)
             [] c.cmd = "overlay" /\ off = <<0, 0, 0>> ->
                  Query(I0, {}, c.area, a, c.invert, TRUE)
             [] c.cmd = "overlay" ->
                  Query(W, {}, c.area, IF c.area THEN Shift(a, off) ELSE <<>>, c.invert, TRUE)
             [] c.cmd = "deleteblocks" -> Query(W, {}, c.area, a, c.invert, FALSE)
             [] OTHER -> Query(W, Strs(c), c.area, a, c.invert, TRUE)
     IN IF c.cmd = "clone" THEN order' = CloneOrder(keys, off) /\ todo' = {}
        ELSE todo' = keys /\ order' = <<>>
  /\ ph' = "edit"
  /\ UNCHANGED <<c, W0, I0, W, cache, count, count2, fails>>

Put(k, b) == [j \in DOMAIN W \cup {k} |-> IF j = k THEN b ELSE W[j]]

(* In which order rows come is up to the database. *)
EditOne ==
  /\ ph = "edit" /\ todo # {}
  /\ c.cmd \in InPlaceCmds
  /\ \E k \in todo :
       /\ todo' = todo \ {k}
       /\ IF W[k].st # "ok"
          THEN fails' = fails + 1 /\ UNCHANGED <<W, count, count2>>
          ELSE LET r == DoEdit(c, FromKey(k), W[k]) IN
               /\ W' = IF r[2] THEN Put(k, Written(r[1])) ELSE W
               /\ count' = count + r[3] /\ count2' = count2 + r[4]
               /\ UNCHANGED fails
  /\ UNCHANGED <<c, W0, I0, ph, order, cache>>

DeleteOne ==
  /\ ph = "edit" /\ todo # {} /\ c.cmd = "deleteblocks"
  /\ \E k \in todo : /\ todo' = todo \ {k}
                     /\ W' = [j \in DOMAIN W \ {k} |-> W[j]]
  /\ UNCHANGED <<c, W0, I0, ph, order, cache, count, count2, fails>>

CloneOne ==
  /\ ph = "edit" /\ c.cmd = "clone" /\ order # <<>>
  /\ LET k == Head(order)
         p == FromKey(k)
         r == Look(cache, W, k)
         da == AbsOverlap(Shift(BoxOf(c), c.off), p)
     IN IF r[1].st \in {"none", "err"}
        THEN /\ cache' = r[2] /\ UNCHANGED W
             /\ fails' = fails + (IF r[1].st = "err" THEN 1 ELSE 0)
        ELSE LET x == CopyInto(p, r[1], r[2], W, Shift(da, Minus(<<0, 0, 0>>, c.off)), c.off)
             IN /\ W' = Put(k, Written(Clean(x[1]))) /\ cache' = x[2]
                /\ UNCHANGED fails
  /\ order' = Tail(order)
  /\ UNCHANGED <<c, W0, I0, ph, todo, count, count2>>

OverlayOffsetOne ==
  /\ ph = "edit" /\ c.cmd = "overlay" /\ Offset(c) # <<0, 0, 0>> /\ todo # {}
  /\ \E k \in todo :
       /\ todo' = todo \ {k}
       /\ LET p == FromKey(k)
              b == Read(W, k)
              da == IF c.area THEN AbsOverlap(Shift(BoxOf(c), c.off), p)
                    ELSE <<Corner(p), Plus(Corner(p), <<B - 1, B - 1, B - 1>>)>>
          IN IF b.st = "none" THEN UNCHANGED <<W, cache, fails>>
             ELSE IF b.st = "err" THEN fails' = fails + 1 /\ UNCHANGED <<W, cache>>
             ELSE LET x == CopyInto(p, b, cache, I0,
                                    Shift(da, Minus(<<0, 0, 0>>, c.off)), c.off)
                  IN /\ W' = Put(k, Written(Clean(x[1]))) /\ cache' = x[2]
                     /\ UNCHANGED fails
  /\ UNCHANGED <<c, W0, I0, ph, order, count, count2>>

OverlayOne ==
  /\ ph = "edit" /\ c.cmd = "overlay" /\ Offset(c) = <<0, 0, 0>> /\ todo # {}
  /\ \E k \in todo :
       /\ todo' = todo \ {k}
       /\ LET p == FromKey(k)
              s == I0[k]
              a == BoxOf(c)
              whole == ~c.area \/ (~c.invert /\ ContainsBlock(a, p))
                       \/ (c.invert /\ ~TouchesBlock(a, p))
          IN IF whole
             THEN /\ W' = IF s.hdr /\ s.gen THEN Put(k, s) ELSE W
                  /\ UNCHANGED fails
             ELSE IF Read(W, k).st = "none" THEN UNCHANGED <<W, fails>>
             ELSE IF s.st # "ok" \/ W[k].st # "ok"
             THEN fails' = fails + 1 /\ UNCHANGED W
             ELSE IF ~s.gen THEN UNCHANGED <<W, fails>>
             ELSE LET part == RelOverlap(a, p)
                      d == W[k]
                  IN /\ W' = Put(k, Written(Clean(
                               IF c.invert /\ Variant # "no-invert"
                               THEN Merge(d, s, part, part) ELSE Merge(s, d, part, part))))
                     /\ UNCHANGED fails
  /\ UNCHANGED <<c, W0, I0, ph, order, cache, count, count2>>

Finish ==
  /\ ph = "edit" /\ todo = {} /\ order = <<>>
  /\ ph' = "done"
  /\ UNCHANGED <<c, W0, I0, W, todo, order, cache, count, count2, fails>>

Next == DoQuery \/ EditOne \/ DeleteOne \/ CloneOne \/ OverlayOffsetOne \/ OverlayOne \/ Finish

-----------------------------------------------------------------------------
(* Abstraction to the blocks of Commands *)

Dense(s) == [k |-> 2, f |-> s]
Canon(s) == \* the representation that the trace recorder uses
  LET n == Len(s)
      Cnt(v) == Cardinality({i \in 1..n : s[i] = v})
      d == CHOOSE v \in Elems(s) :
             \A u \in Elems(s) : Cnt(u) < Cnt(v) \/ (Cnt(u) = Cnt(v) /\ v <= u)
      ix == SetToSortSeq({i - 1 : i \in {j \in 1..n : s[j] # d}}, <)
  IN IF ix = <<>> THEN [k |-> 0, d |-> d]
     ELSE IF Len(ix) <= 3
     THEN [k |-> 1, d |-> d, ix |-> ix, v |-> [j \in 1..Len(ix) |-> s[ix[j] + 1]]]
     ELSE Dense(s)

WfOf(b) ==
  (IF \E i \in 1..N : b.ids[i] \notin DOMAIN b.nimap THEN <<"node-without-name">> ELSE <<>>)
  \o (IF \E i, j \in DOMAIN b.nimap : i # j /\ b.nimap[i] = b.nimap[j]
      THEN <<"dup-name">> ELSE <<>>)

AbsBlock(b, Arr(_)) ==
  IF b.st # "ok" THEN b
  ELSE IF \E i \in 1..N : b.ids[i] \notin DOMAIN b.nimap THEN [b EXCEPT !.st = "bad"]
  ELSE LET is == SetToSortSeq(DOMAIN b.meta, <) IN
       [pos |-> b.pos, st |-> b.st, hdr |-> b.hdr, gen |-> b.gen, ver |-> b.ver,
        flags |-> b.flags, lit |-> b.lit, ts |-> b.ts, raw |-> b.raw,
        nodes |-> Arr([i \in 1..N |-> b.nimap[b.ids[i]]]),
        p1 |-> Arr(b.p1), p2 |-> Arr(b.p2),
        meta |-> [j \in 1..Len(is) |-> [i |-> is[j], vars |-> b.meta[is[j]].vars,
                                        inv |-> b.meta[is[j]].inv]],
        timers |-> b.timers, objs |-> b.objs, wf |-> WfOf(b),
        unused |-> Cardinality(DOMAIN b.nimap \ Elems(b.ids))]
AbsMap(M, Arr(_)) == [k \in DOMAIN M |-> AbsBlock(M[k], Arr)]

Diffs(Arr(_)) ==
  LET w == AbsMap(W0, Arr)
      i == AbsMap(I0, Arr)
      w2 == AbsMap(W, Arr)
  IN UNION {KeyDiffs(c, w, i, k, Get(w2, k)) :
              k \in DOMAIN w \cup DOMAIN w2 \cup (IF c.cmd = "overlay" THEN DOMAIN i ELSE {})}

InBounds(n, lo, hi) == lo <= n /\ n <= hi
(* The machine computes what Commands demands, and reports right numbers. *)
Correct ==
  ph = "done" =>
    /\ Diffs(Dense) = {}
    /\ LET w == AbsMap(W0, Dense)
           cb == CountBounds(c, w)
           fb == FailBounds(c, w, AbsMap(I0, Dense))
       IN /\ c.cmd \in InPlaceCmds => InBounds(count, cb[1], cb[2])
          /\ c.cmd = "replaceininv" => count2 = cb[3]
          /\ InBounds(fails, fb[1], fb[2])
(* Trace validation compares arrays in a sparse form, at few indices, or   *)
(* in pieces of rows.  That finds the same differences.                    *)
SameVerdict == ph = "done" => Diffs(Canon) = Diffs(Dense)
==============================================================================
