------------------------------ MODULE CacheMC ------------------------------
(* The time-stamp implementation of the cache (map key -> item, stamp; running *)
(* counters for count and memory; prune = repeated removal of the smallest     *)
(* stamp), at lock granularity with several threads, checked to refine the     *)
(* abstract LRU sequence for every interleaving.                               *)
EXTENDS SubBlockCache, TLC
CONSTANTS NKeys, MaxOps, Threads
Items == << [ w |-> 1, h |-> 1, pt |-> 0, mw |-> 0, mh |-> 0 ], [ w |-> 1, h |-> 1, pt |-> 1, mw |-> 0, mh |-> 0 ] >>
Empty == [ id |-> 0, st |-> 0 ]
VARIABLES map, ctr, mem, cnt, abs, n, pc, loc
vars == << map, ctr, mem, cnt, abs, n, pc, loc >>
Init == map = [ k \in 1..NKeys |-> Empty ] /\ ctr = 1 /\ mem = 0 /\ cnt = 0 /\ abs = << >> /\ n = 0
        /\ pc = [ t \in Threads |-> "idle" ] /\ loc = [ t \in Threads |-> << >> ]
Sz(id) == IF id = 0 THEN 0 ELSE SizeOf(Items[id])[2]
Begin(t) == /\ pc[t] = "idle" /\ n < MaxOps /\ n' = n + 1
            /\ \E op \in [ o : {"add"}, k : 1..NKeys, it : 1..2 ] \cup [ o : {"get"}, k : 1..NKeys ] \cup [ o : {"prune"}, mem : { << -1, -1 >>, << 0, 1 >>, << 0, 2 >> }, cnt : { -1, 0, 1 } ] :
                 pc' = [ pc EXCEPT ![t] = "body" ] /\ loc' = [ loc EXCEPT ![t] = op ]
            /\ UNCHANGED << map, ctr, mem, cnt, abs >>
RECURSIVE Evict(_, _)
Evict(m, op) == LET live == { k \in 1..NKeys : m[k].id # 0 }
                    total == Sz(m[1].id) + (IF NKeys > 1 THEN Sz(m[2].id) ELSE 0) + (IF NKeys > 2 THEN Sz(m[3].id) ELSE 0)
                    over == (op.mem[1] >= 0 /\ total > op.mem[2]) \/ (op.cnt >= 0 /\ Cardinality(live) > op.cnt)
                IN IF ~over \/ live = {} THEN m
                   ELSE Evict([ m EXCEPT ![CHOOSE k \in live : \A j \in live : m[k].st <= m[j].st] = Empty ], op)
Body(t) == /\ pc[t] = "body" /\ pc' = [ pc EXCEPT ![t] = "idle" ] /\ UNCHANGED << n, loc >>
           /\ LET op == loc[t] IN
              /\ abs' = Apply(abs, Items, op)
              /\ CASE op.o = "add" -> /\ map' = [ map EXCEPT ![op.k] = [ id |-> op.it, st |-> ctr ] ] /\ ctr' = ctr + 1
                                      /\ mem' = mem - Sz(map[op.k].id) + Sz(op.it) /\ cnt' = IF map[op.k].id = 0 THEN cnt + 1 ELSE cnt
                   [] op.o = "get" -> /\ IF map[op.k].id # 0 THEN map' = [ map EXCEPT ![op.k].st = ctr ] /\ ctr' = ctr + 1 ELSE UNCHANGED << map, ctr >>
                                      /\ UNCHANGED << mem, cnt >>
                   [] OTHER -> /\ map' = Evict(map, op) /\ UNCHANGED ctr
                               /\ mem' = Sz(map'[1].id) + (IF NKeys > 1 THEN Sz(map'[2].id) ELSE 0) + (IF NKeys > 2 THEN Sz(map'[3].id) ELSE 0)
                               /\ cnt' = Cardinality({ k \in 1..NKeys : map'[k].id # 0 })
Next == \E t \in Threads : Begin(t) \/ Body(t)
Spec == Init /\ [][Next]_vars
(* refinement mapping and the statement of P15 *)
Refines == /\ { k \in 1..NKeys : map[k].id # 0 } = Keys(abs) /\ Cardinality(Keys(abs)) = Len(abs)
           /\ \A a, b \in DOMAIN abs : a < b => map[abs[a].k].st < map[abs[b].k].st
           /\ \A a \in DOMAIN abs : map[abs[a].k].id = abs[a].id
           /\ mem = MemOf(abs, Items)[2] /\ cnt = Len(abs)
(* pruning removes nothing more than needed *)
PruneMinimal == \A p \in { << -1, -1 >>, << 0, 1 >>, << 0, 2 >>, << 0, 3 >> }, q \in { -1, 0, 1, 2 } :
    LET r == CPrune(abs, Items, p, q) d == Len(abs) - Len(r) IN
    /\ r = SubSeq(abs, d + 1, Len(abs)) /\ (Within(r, Items, p, q) \/ r = << >>)
    /\ \A j \in 0..(d - 1) : ~Within(SubSeq(abs, j + 1, Len(abs)), Items, p, q)
=============================================================================
