--------------------------- MODULE SubBlockCache ---------------------------
(* The subblock cache as an abstract object: a sequence of [k, id] entries in  *)
(* order of their last use (front = least recently used). Sizes are pairs      *)
(* <<hi, lo>> = hi * 2^20 + lo, so that they can exceed 32 bits.               *)
EXTENDS Integers, Sequences, FiniteSets
M20 == 1048576
Norm(p) == << p[1] + p[2] \div M20, p[2] % M20 >>
Plus(p, q) == Norm(<< p[1] + q[1], p[2] + q[2] >>)
More(p, q) == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] > q[2])
Bpp(pt) == CASE pt = 0 -> 1 [] pt = 1 -> 2 [] pt = 2 -> 4 [] pt = 3 -> 3 [] pt = 4 -> 6 [] pt = 9 -> 4
Product(w, h, b) == IF w % M20 = 0 THEN << (w \div M20) * h * b, 0 >> ELSE Norm(<< 0, w * h * b >>)
SizeOf(it) == Plus(Product(it.w, it.h, Bpp(it.pt)), IF it.mw > 0 THEN Norm(<< 0, ((it.mw + 7) \div 8) * it.mh >>) ELSE << 0, 0 >>)
RECURSIVE MemOf(_, _)
MemOf(c, items) == IF c = << >> THEN << 0, 0 >> ELSE Plus(SizeOf(items[Head(c).id]), MemOf(Tail(c), items))
Keys(c) == { c[n].k : n \in DOMAIN c }
Without(c, k) == SelectSeq(c, LAMBDA x : x.k # k)
Lookup(c, k) == IF k \in Keys(c) THEN c[CHOOSE n \in DOMAIN c : c[n].k = k].id ELSE 0
CAdd(c, k, id) == Append(Without(c, k), [ k |-> k, id |-> id ])
CGet(c, k) == IF k \in Keys(c) THEN Append(Without(c, k), [ k |-> k, id |-> Lookup(c, k) ]) ELSE c
(* limits: mem = <<-1,-1>> / cnt = -1 mean unlimited *)
Within(c, items, mem, cnt) == (mem[1] < 0 \/ ~More(MemOf(c, items), mem)) /\ (cnt < 0 \/ Len(c) <= cnt)
RECURSIVE CPrune(_, _, _, _)
CPrune(c, items, mem, cnt) == IF c = << >> \/ Within(c, items, mem, cnt) THEN c ELSE CPrune(Tail(c), items, mem, cnt)
(* effect and specified result of a call *)
Apply(c, items, op) == CASE op.o = "add" -> CAdd(c, op.k, op.it) [] op.o = "get" -> CGet(c, op.k)
                         [] op.o = "prune" -> CPrune(c, items, op.mem, op.cnt) [] OTHER -> c
ResultOk(c, items, op) ==
    CASE op.o = "get" -> op.id = Lookup(c, op.k)
      [] op.o = "stat" -> /\ op.vm = op.m
                          /\ op.m % 2 = 1 => op.rmem = MemOf(c, items)
                          /\ op.m >= 2 => op.rcnt = Len(c)
      [] OTHER -> TRUE
=============================================================================
