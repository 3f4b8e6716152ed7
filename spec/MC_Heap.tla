-------------------------------- MODULE MC_Heap -------------------------------
(* Programs over quantities which share data.  A path creates one object, makes a
   view or a copy of it and goes on with any operation on any object; the state is
   computed by the specification alone.  Action properties say what no operation
   may do; every complete path is replayed on the library.                       *)
EXTENDS Heap, Randomization

CONSTANTS Tier, Depth, Focus
U1(k) == << <<k, "1">> >>
M == U1("meter")
Cm == U1("centimeter")
Sec == U1("second")
Q1(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<Len(v)>>, d |-> d, v |-> v]
Q0(d, v) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> <<>>, d |-> d, v |-> <<v>>]
X1(d, v, u) == [k |-> "Q", t |-> "X", dt |-> "f8", sh |-> <<Len(v)>>, d |-> d, v |-> v, u |-> u, ush |-> <<Len(v)>>, ud |-> d]
Pl(v) == [k |-> "A", dt |-> "f8", sh |-> <<Len(v)>>, v |-> v]
Nu(v) == [k |-> "N", dt |-> IF RIsInt(v) THEN "i8" ELSE "f8", sh |-> <<>>, v |-> <<v>>]
Dm(d) == [k |-> "D", d |-> d]
Id(n) == [id |-> n]
Q2(d, v) == [Q1(d, v) EXCEPT !.sh = <<2, 2>>]
Roots == CASE Focus = "plain" -> {Q1(M, <<"3", "-1", "0.5">>), Pl(<<"4", "2">>)}
           [] Focus = "uncertain" -> {X1(M, <<"3", "-1", "0.5">>, <<"0.25", "0", "2">>)}
           [] Focus = "table" -> {Q2(M, <<"3", "-1", "0.5", "2">>)}

\* --- the events of one step: parameters, and what indexing means for vectors and tables
Ev(f, t, a, p) == p @@ [o |-> "heap", f |-> f, t |-> t, a |-> a, im |-> NoMap, nsh |-> FALSE, ax |-> <<>>, ddof |-> 0,
                        r |-> [k |-> "Z"], al |-> <<>>, keep |-> TRUE]
NoP == [keep |-> TRUE]
Keys(sh) ==     \* <<index, map, shares>>
  LET n == sh[1] IN
  IF Len(sh) = 1
  THEN {<<"0", [sh |-> <<>>, ix |-> <<0>>], FALSE>>,
        <<"1:", [sh |-> <<n - 1>>, ix |-> [j \in 1..(n - 1) |-> j]], TRUE>>,
        <<"::-1", [sh |-> <<n>>, ix |-> [j \in 1..n |-> n - j]], TRUE>>,
        <<"[-1,0]", [sh |-> <<2>>, ix |-> <<n - 1, 0>>], FALSE>>,
        <<"9", NoMap, FALSE>>}
  ELSE {<<"1", [sh |-> <<2>>, ix |-> <<2, 3>>], TRUE>>,
        <<":,0", [sh |-> <<2>>, ix |-> <<0, 2>>], TRUE>>,
        <<"1,-1", [sh |-> <<>>, ix |-> <<3>>], FALSE>>,
        <<"mask1001", [sh |-> <<2>>, ix |-> <<0, 3>>], FALSE>>}
KeyEv(f, t, a, key) == Ev(f, t, a, [key |-> key[1], im |-> key[2], nsh |-> key[3]])

VARIABLES h, path, done
vars == <<h, path, done>>
N0 == Len(path) + 1
P(id) == Proj(h, id)
Quants == {id \in DOMAIN h.o : h.o[id].k = "Q"}
Keyed(t) == IF Len(h.o[t].sh) \in {1, 2} /\ h.o[t].sh[1] > 1 /\ (Len(h.o[t].sh) = 1 \/ h.o[t].sh = <<2, 2>>) THEN Keys(h.o[t].sh) ELSE {}
Views(t) ==
  {KeyEv("get", t, <<>>, k) : k \in {k \in Keyed(t) : k[2] # NoMap /\ (P(t).k = "Q" \/ k[2].sh # <<>>)}}
  \cup (IF P(t).k # "Q" THEN {Ev("wrap", t, <<>>, [d |-> Cm])}
        ELSE {Ev(f, t, <<>>, NoP) : f \in {"copy", "mag", "deepcopy"} \cup (IF ObjX(h.o[t]) THEN {"pickle"} ELSE {"again", "real"})}
             \cup {Ev(f, t, <<>>, NoP) : f \in IF Len(h.o[t].sh) = 2 THEN {"T"} ELSE {}})
Lits(t) ==       \* values of the same shape
  LET n == Size(h.o[t].sh)
      s == h.o[t].sh
      mk(d) == [k |-> "Q", t |-> "Q", dt |-> "f8", sh |-> s, d |-> d, v |-> [i \in 1..n |-> ToString(10 * i)]]
  IN  {mk(Cm), mk(Sec), Nu("2")} \cup (IF ObjX(h.o[t]) THEN {[mk(Cm) EXCEPT !.t = "X"] @@ [u |-> [i \in 1..n |-> "3"], ush |-> s, ud |-> Cm]} ELSE {})
\* operands in the units of the target (results for out= in other units are a known finding)
Own(t) == {[b EXCEPT !.d = h.o[t].d] : b \in {b \in Lits(t) : b.k = "Q" /\ b.t = "Q"}} \cup (IF ObjX(h.o[t]) THEN {} ELSE {Id(t)})
Others(t) == {Id(j) : j \in {j \in Quants : h.o[j].sh \in {h.o[t].sh, <<>>} /\ (ObjX(h.o[j]) => ObjX(h.o[t]))}}
InPlace(t) ==
  LET q == P(t).k = "Q"
      x == ObjX(h.o[t])
      el == [sh |-> <<>>]
  IN  IF ~q THEN {KeyEv("set", t, <<Nu("7")>>, k) : k \in Keyed(t)}
      ELSE {Ev(f, t, <<b>>, NoP) : f \in {"iadd", "isub"}, b \in Lits(t) \cup Others(t)}
           \cup {Ev(f, t, <<b>>, NoP) : f \in {"imul", "idiv"}, b \in {Nu("2"), Q0(Sec, "4"), Q0(<<>>, "0.5")} \cup Others(t)}
           \cup {Ev("ipow", t, <<Nu(p)>>, NoP) : p \in {"2", "1", "0"}}
           \cup {KeyEv("set", t, <<b>>, k) : b \in {Q0(Cm, "50"), Q0(Sec, "1"), Nu("6")} \cup {Id(j) : j \in {j \in Quants : h.o[j].sh = <<>> /\ (ObjX(h.o[j]) => x)}}, k \in Keyed(t)}
           \cup {Ev("units", t, <<u>>, NoP) : u \in {Dm(Cm), Dm(Sec), Dm(M), [k |-> "S", s |-> "nonsense"]}}
           \cup (IF x THEN {Ev("setunc", t, <<b>>, NoP) : b \in {b \in Lits(t) : b.k = "Q" /\ b.t = "Q"}}
                 ELSE {Ev("fill", t, <<b>>, NoP) : b \in {Q0(Cm, "50"), Nu("6"), Q0(M, "1")}}
                      \cup {Ev("put", t, <<b>>, [ind |-> <<0, -1>>]) : b \in {Q0(Cm, "50"), Q0(Sec, "50")}}
                      \cup {Ev("sort", t, <<>>, [ax |-> <<-1>>]) : z \in IF h.o[t].sh = <<>> THEN {} ELSE {1}}
                      \cup {Ev("setreal", t, <<b>>, NoP) : b \in Lits(t)}
                      \cup {Ev("ufout", t, <<a, Q0(h.o[t].d, "50")>>, [op |-> "add"]) : a \in Own(t)}
                      \cup {Ev("mout", t, <<a>>, [op |-> "cumsum", ax |-> <<0>>]) : a \in IF h.o[t].sh = <<>> THEN {} ELSE Own(t)})
Making(t) ==
  IF P(t).k # "Q" THEN {}
  ELSE {Ev("rescale", t, <<u>>, NoP) : u \in {Dm(Cm), Dm(Sec)}} \cup {Ev("bin", t, <<b>>, [op |-> op]) : op \in {"add", "div"}, b \in Lits(t)}
       \cup {Ev("un", t, <<>>, [op |-> "neg"]), Ev("red", t, <<>>, [op |-> "sum"]), Ev("look", t, <<>>, NoP), Ev("simplified", t, <<>>, NoP)}
       \cup {Ev("flatten", t, <<>>, NoP), Ev("del", t, <<>>, NoP)}
New(x) == Ev("new", 0, <<x>>, NoP)

\* --- the state after a step, from the specification alone ------------------------------
Seqd(d) == LET RECURSIVE S(_)
               S(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE x \in ks : TRUE IN <<<<k, d[k]>>>> \o S(ks \ {k})
           IN S(DOMAIN d)
Sure(cs) == \A p \in DOMAIN cs : cs[p][1] \in {"c", "e"}
Pred(g, e, n) ==
  LET w == HeapX(G0, g, e)
      t == e.t
      o == g.o[t]
      vbuf(ws) == [c \in DOMAIN g.b[o.b] |-> IF \E p \in DOMAIN ws : o.ix[p] + 1 = c THEN ws[CHOOSE p \in DOMAIN ws : o.ix[p] + 1 = c][2] ELSE g.b[o.b][c]]
      ubuf(ws) == [c \in DOMAIN g.b[o.ub] |-> IF \E p \in DOMAIN ws : o.ui[p] + 1 = c THEN ws[CHOOSE p \in DOMAIN ws : o.ui[p] + 1 = c] ELSE g.b[o.ub][c]]
      g1 == IF t = 0 \/ w.wr = <<>> THEN g ELSE [g EXCEPT !.b[o.b] = vbuf(w.wr)]
      g2 == IF t = 0 \/ w.wu = <<>> THEN g1
            ELSE IF w.uf THEN [g1 EXCEPT !.b = (("w" \o ToString(n)) :> [p \in DOMAIN w.wu |-> w.wu[p]]) @@ @, !.o[t].ub = "w" \o ToString(n), !.o[t].ui = Iota(Len(w.wu))]
            ELSE [g1 EXCEPT !.b[o.ub] = ubuf(w.wu)]
      g3 == IF t = 0 \/ w.lab = <<>> \/ o.k # "Q" THEN g2 ELSE [g2 EXCEPT !.o[t].d = Seqd(w.lab[1])]
      x == w.new[1]
      isx == w.sig # <<>>
      share == w.share = "must"
      nd == [k |-> x.k, t |-> IF isx THEN "X" ELSE IF x.k = "Q" THEN "Q" ELSE "", dt |-> "f8", sh |-> x.sh, d |-> IF x.k = "Q" THEN Seqd(x.d) ELSE <<>>,
             b |-> IF share THEN o.b ELSE "v" \o ToString(n), ix |-> IF share THEN At1(o.ix, w.im.ix) ELSE Iota(Len(x.val)),
             ub |-> IF ~isx THEN "" ELSE IF share THEN o.ub ELSE "u" \o ToString(n), ui |-> IF ~isx THEN <<>> ELSE IF share THEN At1(o.ui, w.im.ix) ELSE Iota(Len(x.val)),
             own |-> w.own]
      nb == IF share THEN <<>> ELSE (("v" \o ToString(n)) :> [i \in DOMAIN x.val |-> x.val[i][2]]) @@ (IF isx THEN ("u" \o ToString(n)) :> w.sig[1] ELSE <<>>)
  IN  IF w.x.err = "must" THEN [h |-> g, end |-> FALSE]
      ELSE IF w.x.err # "no" \/ ~Sure(w.wr) \/ (w.new # <<>> /\ (w.new[1].err # "no" \/ ~Sure(x.val))) THEN [h |-> g, end |-> TRUE]
      ELSE IF e.f = "del" THEN [h |-> [g EXCEPT !.o = Without(@, t)], end |-> FALSE]
      ELSE IF w.new = <<>> \/ e.f = "red" THEN [h |-> g3, end |-> FALSE]
      ELSE [h |-> [b |-> nb @@ g3.b, o |-> (n :> nd) @@ g3.o], end |-> FALSE]

\* relabelling an owner whose data others look at is a known finding and is left out
Stale(e) == e.t # 0 /\ LET w == HeapX(G0, h, e) IN
            w.lab # <<>> /\ w.x.err # "must" /\ ~DEq(w.lab[1], DOf(P(e.t))) /\ \E j \in Quants \ {e.t} : j \in Sharers(h, h.o[e.t].b, Cells(h.o[e.t].ix))
Case(p) == [o |-> "heap", ops |-> [i \in DOMAIN p |-> [q \in DOMAIN p[i] \ {"im", "nsh", "r", "al", "o", "ddof"} |-> p[i][q]]]]
Init == h = H0 /\ path = <<>> /\ done = FALSE
Events == IF path = <<>> THEN {New(x) : x \in Roots}
          ELSE IF Len(path) = 1 /\ Depth < 6 THEN UNION {Views(t) : t \in DOMAIN h.o}
          ELSE UNION {Views(t) \cup InPlace(t) \cup Making(t) : t \in DOMAIN h.o}
Take(e) ==
  LET r == Pred(h, e, N0)
      p == Append(path, e)
      end == r.end \/ Len(p) = Depth
  IN  /\ h' = r.h /\ path' = p /\ done' = end
\* long paths are sampled: a few of the possible operations at each step
Some(S) == IF Depth < 6 THEN S ELSE RandomSubset(IF Cardinality(S) < 3 THEN Cardinality(S) ELSE 3, S)
\* the finished path is printed on its own, so that a simulation prints one per behaviour
Tell == done /\ path # <<>> /\ PrintT(ToJson(Case(path))) /\ path' = <<>> /\ h' = H0 /\ done' = TRUE
Next == \/ ~done /\ \E e \in Some({x \in Events : (x.f = "del" => Cardinality(DOMAIN h.o) > 1) /\ ~Stale(x)}) : Take(e)
        \/ Tell
Spec == Init /\ [][Next]_vars

\* --- what holds in every reachable state and step ---------------------------------------
Wf == \A id \in DOMAIN h.o :
        LET o == h.o[id] IN /\ Len(o.ix) = Size(o.sh) /\ \A i \in DOMAIN o.ix : o.ix[i] + 1 \in DOMAIN h.b[o.b]
                            /\ (ObjX(o) => Len(o.ui) = Size(o.sh) /\ \A i \in DOMAIN o.ui : o.ui[i] + 1 \in DOMAIN h.b[o.ub] /\ (RIsNan(h.b[o.ub][o.ui[i] + 1]) \/ RLe("0", h.b[o.ub][o.ui[i] + 1])))
\* quantities looking at the same data of a quantity agree about its units
Family(id) == h.o[id].own = "view"
Agree == \A i \in Quants, j \in Quants : (Family(i) /\ h.o[i].b = h.o[j].b /\ ~(\E k \in DOMAIN path : path[k].f = "wrap")) => DEq(DOf(P(i)), DOf(P(j)))
Last == path'[Len(path')]
Tg == Last.t
Both == DOMAIN h.o \cap DOMAIN h'.o
OfX(g, id) == Proj(g, id)
\* nothing changes an object which does not share data with the target
Apart == [][path' = <<>> \/ \A id \in Both : (id # Tg /\ ~(Tg \in DOMAIN h.o /\ id \in Sharers(h, h.o[Tg].b, Cells(h.o[Tg].ix)))) => OfX(h', id) = OfX(h, id)]_vars
\* only the target can change its units, and no view does
Labels == [][path' = <<>> \/ \A id \in Both : (id # Tg \/ h.o[id].own = "view") => h'.o[id].d = h.o[id].d]_vars
\* sharing is made when an object is made and never changes
Sharing == [][path' = <<>> \/ \A id \in Both : h'.o[id].b = h.o[id].b /\ h'.o[id].ix = h.o[id].ix /\ h'.o[id].sh = h.o[id].sh]_vars
\* a refused operation changes nothing
RefusedKeeps == [][path' = <<>> \/ (HeapX(G0, h, Last).x.err = "must" => h' = h)]_vars
\* every change of units keeps the physical value
Physical == [][(path' # <<>> /\ Last.f = "units" /\ Tg \in Both) =>
               LET p == OfX(h, Tg)
                   q == OfX(h', Tg)
               IN  \A i \in DOMAIN p.v : RClose(RMul(p.v[i], DFac(G0, DOf(p))), RMul(q.v[i], DFac(G0, DOf(q))), "1e-12")]_vars
\* the in-place operator gives what the operator gives, in the units of the target for sums
LikeOp == [][(path' # <<>> /\ Last.f \in {"iadd", "isub", "imul", "idiv", "ipow"} /\ Tg \in Both /\ LET w == HeapX(G0, h, Last) IN w.x.err = "no" /\ Sure(w.wr)) =>
             LET x == BinX(G0, IName(Last.f), OfX(h, Tg), Opnd(h, Last.a[1]))
                 q == OfX(h', Tg)
             IN  x.sh = q.sh /\ LET k == Conv(G0, x.d, DOf(q)) IN \A i \in DOMAIN q.v : RIsNan(q.v[i]) \/ RClose(q.v[i], RMul(x.val[i][2], k), "1e-12")]_vars
==============================================================================
