-------------------------------- MODULE AlgoMC --------------------------------
(* Worlds and commands on which Algo is checked against Commands.          *)
EXTENDS Algo, Randomization

CONSTANTS Samples  \* how many random cases; 0: all cases of the part

Empty == [i \in {} |-> 0]
Box3(xs, ys, zs) == {<<a, b, d>> : a \in xs, b \in ys, d \in zs}
Iv(lo, hi) == {<<a, b>> \in (lo..hi) \X (lo..hi) : a <= b}

Cmd0(cmd) ==
  [cmd |-> cmd, area |-> FALSE, a |-> <<0, 0, 0>>, b |-> <<0, 0, 0>>, invert |-> FALSE,
   hasoff |-> FALSE, off |-> <<0, 0, 0>>, node |-> -1, nodes |-> <<>>, new |-> -1,
   obj |-> "", hasobj |-> FALSE, hasitems |-> FALSE, items |-> <<>>, item |-> "",
   newitem |-> "", delete |-> FALSE, delmeta |-> FALSE, key |-> "", value |-> "",
   hasvalue |-> FALSE, p2 |-> 0]

(* Area with x, y, z intervals i, j, k. *)
WithArea(x, i, j, k) ==
  [x EXCEPT !.area = TRUE, !.a = <<i[1], j[1], k[1]>>, !.b = <<i[2], j[2], k[2]>>]

EndInv == <<"EndInventory">>
Meta(n) == [vars |-> <<<<"k", ToString(n), FALSE>>>>, inv |-> <<EndInv>>]

Ok(p, salt, ids, nm) ==
  [pos |-> p, st |-> "ok", hdr |-> TRUE, gen |-> TRUE, ver |-> 28, flags |-> 0,
   lit |-> salt, ts |-> "1", raw |-> "r" \o ToString(salt), ids |-> ids, nimap |-> nm,
   p1 |-> [i \in 1..N |-> (salt + i) % 16], p2 |-> [i \in 1..N |-> (salt * 20 + i) % 256],
   meta |-> Empty, timers |-> <<>>, objs |-> <<>>,
   words |-> {ToString(nm[i]) : i \in DOMAIN nm}]
Bad(p, salt, header, words) ==
  [pos |-> p, st |-> "bad", hdr |-> header, gen |-> header, ver |-> 28,
   raw |-> "x" \o ToString(salt), words |-> words]

-----------------------------------------------------------------------------
(* Commands on the nodes of one block.                                     *)

Maps == { [i \in {0} |-> 1],
          [i \in {0, 1} |-> IF i = 0 THEN 1 ELSE 2],
          [i \in {0, 2} |-> IF i = 0 THEN 2 ELSE 1],
          [i \in {1, 3} |-> IF i = 1 THEN 1 ELSE 3],
          [i \in {0, 1, 2} |-> i + 1],
          [i \in {0, 1, 2} |-> 3 - i],
          [i \in {0, 1, 4} |-> IF i = 4 THEN 2 ELSE i + 3] }
(* Ways of using the IDs of a map. *)
Uses(nm) ==
  LET d == DOMAIN nm
      s == SetToSortSeq(d, <)
      lo == s[1]
      hi == s[Len(s)]
  IN { [i \in 1..N |-> lo], [i \in 1..N |-> hi],
       [i \in 1..N |-> IF i = N THEN hi ELSE lo], [i \in 1..N |-> IF i = N THEN lo ELSE hi],
       [i \in 1..N |-> IF i = 1 THEN hi ELSE lo], [i \in 1..N |-> IF i = 1 THEN lo ELSE hi],
       [i \in 1..N |-> s[1 + (i % Len(s))]], [i \in 1..N |-> IF i > N \div 2 THEN hi ELSE lo] }

NodeWorlds ==
  UNION {{AlgoKey(p) :> Ok(p, 3, u, nm) : u \in Uses(nm)} :
           p \in {<<0, 0, 0>>, <<-1, 0, -1>>}, nm \in Maps}
NodeAreas(w) == \* around the block of the world
  LET p == FromKey(CHOOSE k \in DOMAIN w : TRUE)
      At1(j) == {<<t[1] + p[j] * B, t[2] + p[j] * B>> : t \in Iv(-1, 2)}
  IN Box3(At1(1), At1(2), At1(3))
NodeCmds ==
  {[Cmd0("fill") EXCEPT !.new = n] : n \in {1, 2, 9}}
  \cup {[Cmd0("replacenodes") EXCEPT !.node = n, !.new = m] : n \in {1, 3}, m \in {2, 9}}
  \cup {[Cmd0("setparam2") EXCEPT !.node = n, !.p2 = 7] : n \in {-1, 1}}
-----------------------------------------------------------------------------
(* Commands on what lies at nodes: two blocks and a bad one.               *)

ThingBlock(p, salt) ==
  LET nm == [i \in {0, 1, 2} |-> i + 1] IN
  [Ok(p, salt, [i \in 1..N |-> (i + salt) % 3], nm) EXCEPT
     !.meta = [i \in 0..(N - 1) |->
        [vars |-> IF i % 3 = 0 THEN <<>>
                  ELSE IF i % 3 = 1 THEN <<<<"k", "old", TRUE>>>>
                  ELSE <<<<"j", "x", FALSE>>, <<"k", "y", FALSE>>>>,
         inv |-> IF i % 2 = 0 THEN <<EndInv>>
                 ELSE << <<"List", "main", "3">>, <<"Item", "a:a">>,
                         <<"Item", "a:a", "1", "0", "m n">>, <<"Item", "b:b", "3">>,
                         <<"Item", "a:a", "1", "5">>, <<"Empty">>,
                         <<"EndInventoryList">>, EndInv >>]],
     !.timers = [i \in 1..N |-> <<i - 1, "1", ToString(i)>>],
     !.objs = [i \in 1..N |->
        LET q == AbsPos(p, i - 1) IN
        [t |-> 7, x |-> q[1] * 10000 + (IF i % 2 = 0 THEN 4999 ELSE -5000),
         y |-> q[2] * 10000, z |-> q[3] * 10000 - 4999 * (i % 3), d |-> ToString(i),
         lua |-> i # 3, name |-> IF i % 4 = 0 THEN "m:m" ELSE "__builtin:item",
         item |-> IF i % 3 = 0 THEN "a:a" ELSE "b:b"]],
     !.words = @ \cup {"m:m", "__builtin:item"}]
ThingWorld ==
  LET p == <<0, 0, 0>>  q == <<-1, 0, 0>>  r == <<0, 1, 0>> IN
  (AlgoKey(p) :> ThingBlock(p, 1))
  @@ (AlgoKey(q) :> [ThingBlock(q, 2) EXCEPT !.ver = 29, !.words = {}])  \* compressed
  @@ (AlgoKey(r) :> Bad(r, 3, TRUE, {"1"}))
ThingCmds ==
  {[Cmd0("deletemeta") EXCEPT !.node = n] : n \in {-1, 2, 9}}
  \cup {[Cmd0("deletetimers") EXCEPT !.node = n] : n \in {-1, 2, 9}}
  \cup {Cmd0("deleteobjects"), [Cmd0("deleteobjects") EXCEPT !.hasobj = TRUE, !.obj = "m:m"],
        [Cmd0("deleteobjects") EXCEPT !.hasitems = TRUE],
        [Cmd0("deleteobjects") EXCEPT !.hasitems = TRUE, !.items = <<"a:a", "c:c">>]}
  \cup {[Cmd0("setmetavar") EXCEPT !.key = "k", !.value = "new", !.hasvalue = TRUE, !.nodes = n] :
          n \in {<<>>, <<2>>, <<9, 1>>}}
  \cup {[Cmd0("setmetavar") EXCEPT !.key = "k", !.delete = TRUE, !.nodes = n] : n \in {<<>>, <<3>>}}
  \cup {[Cmd0("replaceininv") EXCEPT !.item = "a:a", !.newitem = i, !.delmeta = d, !.nodes = n] :
          i \in {"c:c", "a:a"}, d \in {TRUE}, n \in {<<>>, <<2, 3>>}}
  \cup {[Cmd0("replaceininv") EXCEPT !.item = "a:a", !.newitem = "c:c"],
        [Cmd0("replaceininv") EXCEPT !.item = "a:a", !.delete = TRUE],
        [Cmd0("replaceininv") EXCEPT !.item = "a:a", !.delmeta = TRUE],
        Cmd0("deleteblocks")}
-----------------------------------------------------------------------------
(* Copying.  Every node of a world is different, except for some names     *)
(* that recur; the kind of every block is chosen.                          *)

CopyBlock(p, salt) ==
  LET gap == (salt % 2) + 1
      nm == [i \in {gap * j : j \in 0..(N - 1)} |->
               IF salt % 3 = 0 THEN N - i \div gap ELSE ((3 * salt + i \div gap) % 11) + 1]
  IN [Ok(p, salt, [i \in 1..N |-> gap * (i - 1)], nm) EXCEPT
        !.meta = [i \in {salt % N, (5 * salt + 3) % N} |-> Meta(10 * salt + i)],
        !.timers = <<<<1, "1", "2">>>>]
KindBlock(kind, p, salt) ==
  CASE kind \in {"ok", "ok1", "ok2", "ok3"} -> CopyBlock(p, salt)
    [] kind = "ungen" -> [CopyBlock(p, salt) EXCEPT !.gen = FALSE, !.flags = 8]
    [] kind = "bad" -> Bad(p, salt, TRUE, {})
    [] kind = "badhdr" -> [Bad(p, salt, FALSE, {}) EXCEPT !.ver = 77]
MapOf(ps, kinds, salt) == \* positions, their kinds
  LET here == {j \in 1..Len(ps) : kinds[j] # "none"} IN
  [k \in {AlgoKey(ps[j]) : j \in here} |->
     LET j == CHOOSE i \in here : AlgoKey(ps[i]) = k IN KindBlock(kinds[j], ps[j], salt + j)]

Line(axis, from, n) ==
  [j \in 1..n |-> [i \in 1..3 |-> IF i = axis THEN from + j - 1 ELSE 0]]
Tup(f) == <<f[1], f[2], f[3]>>
LinePs(axis, from, n) == [j \in 1..n |-> Tup(Line(axis, from, n)[j])]
Cube(b) == << b, Plus(b, <<1, 0, 0>>), Plus(b, <<0, 1, 0>>), Plus(b, <<1, 1, 0>>),
              Plus(b, <<0, 0, 1>>), Plus(b, <<1, 0, 1>>), Plus(b, <<0, 1, 1>>),
              Plus(b, <<1, 1, 1>>) >>
AllOk(n) == [j \in 1..n |-> "ok"]

CopyCmd(cmd, ax, t, u, v, o) == \* interval t along the axis, u and v across; offset o
  LET at(i) == IF i = ax THEN t ELSE IF i = (ax % 3) + 1 THEN u ELSE v
  IN [WithArea(Cmd0(cmd), at(1), at(2), at(3)) EXCEPT !.hasoff = TRUE, !.off = o]

-----------------------------------------------------------------------------
(* Random cases of copying in cubes of blocks of all kinds, anywhere.      *)

(* (Bound by \E over one-element sets, so that every value is drawn once.) *)
One(S) == RandomSubset(1, S)
CopyKinds == [1..8 -> {"ok", "ok1", "ok2", "ok3", "none", "ungen", "bad", "badhdr"}]
Sort2(t, j, b) == \* an interval around the blocks from b on, within the map
  LET lo == 2 * b[j] - 1 + Min2(t[1], t[2])
      hi == 2 * b[j] - 1 + Max2(t[1], t[2])
  IN <<Max2(-6, Min2(lo, 6)), Max2(-6, Min2(hi, 6))>>
RandomCase(cmd, F(_, _, _)) ==
  \E b \in One({<<0, 0, 0>>, <<-1, -1, -1>>, <<-4, 1, -1>>, <<2, -4, 2>>, <<-3, 2, -3>>}),
     k1 \in One(CopyKinds), k2 \in One(CopyKinds),
     t \in One([1..6 -> 0..5]), o \in One([1..3 -> -3..3]), how \in One(1..12) :
    LET zero == cmd = "overlay" /\ how % 3 = 0
        x0 == WithArea(Cmd0(cmd), Sort2(<<t[1], t[2]>>, 1, b), Sort2(<<t[3], t[4]>>, 2, b),
                       Sort2(<<t[5], t[6]>>, 3, b))
        x1 == IF cmd = "overlay" /\ how \in {5, 6} THEN [x0 EXCEPT !.area = FALSE] ELSE x0
        x2 == IF zero /\ x1.area /\ how > 6 THEN [x1 EXCEPT !.invert = TRUE] ELSE x1
        x3 == IF zero THEN x2 ELSE [x2 EXCEPT !.hasoff = TRUE, !.off = Tup(o)]
    IN F(MapOf(Cube(b), k1, 0), x3, IF cmd = "overlay" THEN MapOf(Cube(b), k2, 20) ELSE Empty)

-----------------------------------------------------------------------------
Start(w, x, i) ==
  /\ W0 = w /\ c = x /\ I0 = i /\ W = w
  /\ ph = "query" /\ todo = {} /\ order = <<>> /\ cache = <<>>
  /\ count = 0 /\ count2 = 0 /\ fails = 0

(* All of a set, or some of it (Samples # 0). *)
Some(S) == IF Samples = 0 THEN S ELSE RandomSubset(Min2(Samples, Cardinality(S)), S)

NodeInit ==
  \E w \in NodeWorlds, x \in NodeCmds, v \in BOOLEAN :
    \E t \in Some(NodeAreas(w)) :
      Start(w, [WithArea(x, t[1], t[2], t[3]) EXCEPT !.invert = v], Empty)
ThingInit ==
  \E x \in ThingCmds, v \in BOOLEAN :
    \/ \E t \in Some(Box3(Iv(-3, 2), Iv(-1, 4),
                          {<<0, 1>>, <<-1, 0>>, <<1, 1>>, <<2, 2>>})) :
         Start(ThingWorld, [WithArea(x, t[1], t[2], t[3]) EXCEPT !.invert = v], Empty)
    \/ /\ x.cmd # "deleteblocks" /\ ~v
       /\ Start(ThingWorld, x, Empty)
CloneInit ==
  \E ax \in 1..3 :
    LET w == MapOf(LinePs(ax, -1, 3), AllOk(3), ax) IN
    \E u \in {<<0, 1>>, <<1, 1>>, <<-1, 0>>}, v \in {<<0, 1>>, <<0, 0>>}, o \in -4..4, oo \in -1..1 :
      \E t \in Some(Iv(-3, 4)) :
        Start(w, CopyCmd("clone", ax, t, u, v,
                   Tup([i \in 1..3 |-> IF i = ax THEN o ELSE IF i = (ax % 3) + 1 THEN oo ELSE 0])),
              Empty)
RandomInit ==
  \E n \in 1..Samples, cmd \in {"clone", "overlay"} :
    RandomCase(cmd, Start)

Init ==
  CASE Part = "nodes" -> NodeInit
    [] Part = "things" -> ThingInit
    [] Part = "clone" -> CloneInit
    [] Part = "random" -> RandomInit
Spec == Init /\ [][Next]_vars

(* For wrong variants: say so instead of rebuilding a behaviour, which     *)
(* takes long for random initial states.                                   *)
Say == (Correct /\ SameVerdict) \/ PrintT("WRONG")
==============================================================================
