------------------------------- MODULE Alloc --------------------------------
(* Memory of fields and containers of fields, as their user sees it.
   A slot holds
     nil                                    nothing
     fld  t val                             a lattice field of type t (bytes per site Width[t])
     arr  vals                              a one-dimensional array of fields
     mat  rows vals                         a two-dimensional array of fields
     vec  vals                              a std::vector of fields
     sub  k vals                            a compact field on subset k
     raw  n val                             a block straight from the allocator
   Every field, element and block is a storage of its own with one value everywhere.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots
Nil == [k |-> "nil", t |-> "", n |-> 0, v |-> <<>>]
Start == [s \in 1..Slots |-> Nil]
Mk(k, t, n, v) == [k |-> k, t |-> t, n |-> n, v |-> v]
Same(n, x) == [i \in 1..n |-> x]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Is(st, s, k) == s # 0 /\ st[s].k = k
Many == {"arr", "mat", "vec"}
Pre(st, op) == LET o == op[1] s == IF Len(op) > 1 THEN op[2] ELSE 0 IN
  CASE o \in {"new", "arr", "mat", "vec", "raw"} -> s # 0 /\ st[s] = Nil
    [] o \in {"copy", "ret"} -> s # 0 /\ st[s] = Nil /\ op[3] # 0 /\ st[op[3]] # Nil /\ st[op[3]].k # "raw" /\ (o = "ret" => st[op[3]].k \in {"fld", "arr", "vec"})
    [] o = "assign" -> s # 0 /\ op[3] # 0 /\ st[s].k = st[op[3]].k /\ st[s].t = st[op[3]].t /\ st[s].k \in {"fld", "arr", "mat", "vec"}
    [] o = "swap" -> s # 0 /\ op[3] # 0 /\ st[s].k = st[op[3]].k /\ st[s].t = st[op[3]].t /\ st[s].k \in {"fld", "arr", "vec"}
    [] o = "conv" -> s # 0 /\ st[s] = Nil /\ Is(st, op[3], "fld") /\ st[op[3]].t = "R"
    [] o = "expr" -> s # 0 /\ st[s] = Nil /\ Is(st, op[3], "fld") /\ Is(st, op[4], "fld") /\ st[op[3]].t = st[op[4]].t
    [] o = "add" -> Is(st, s, "fld") /\ Is(st, op[3], "fld") /\ Is(st, op[4], "fld") /\ st[s].t = st[op[3]].t /\ st[s].t = st[op[4]].t
    [] o = "byval" -> Is(st, s, "fld") /\ Is(st, op[3], "fld") /\ st[s].t = st[op[3]].t
    [] o = "set" -> s # 0 /\ st[s] # Nil /\ op[3] \in 1..Len(st[s].v)
    [] o = "resize" -> Is(st, s, "arr") \/ Is(st, s, "vec")
    [] o = "push" -> Is(st, s, "vec") /\ Len(st[s].v) < 6
    [] o \in {"pop", "erase"} -> Is(st, s, "vec") /\ st[s].v # <<>> /\ (o = "erase" => op[3] \in 1..Len(st[s].v))
    [] o = "sub" -> s # 0 /\ st[s] = Nil /\ Is(st, op[3], "fld") /\ st[op[3]].t = "R"
    [] o = "subset" -> Is(st, s, "sub")
    [] o = "free" -> Is(st, s, "raw")
    [] o = "del" -> s # 0 /\ st[s] # Nil /\ st[s].k # "raw"
    [] o \in {"clear", "lattice", "bad", "noalloc"} -> TRUE
    [] OTHER -> FALSE
Sum(x, y) == x + y
Do(st, op) == LET o == op[1] s == IF Len(op) > 1 THEN op[2] ELSE 0 IN
  CASE o = "new" -> [st EXCEPT ![s] = Mk("fld", op[3], 0, <<op[4]>>)]
    [] o = "raw" -> [st EXCEPT ![s] = Mk("raw", "", op[3], <<op[4]>>)]
    [] o = "arr" -> [st EXCEPT ![s] = Mk("arr", "R", 0, Same(op[3], 0))]
    [] o = "vec" -> [st EXCEPT ![s] = Mk("vec", "R", 0, Same(op[3], 0))]
    [] o = "mat" -> [st EXCEPT ![s] = Mk("mat", "R", op[3], Same(op[3] * op[4], 0))]
    [] o \in {"copy", "ret", "assign"} -> [st EXCEPT ![s] = st[op[3]]]
    [] o = "byval" -> [st EXCEPT ![s].v = <<st[op[3]].v[1] + 1>>]
    [] o = "conv" -> [st EXCEPT ![s] = Mk("fld", "C", 0, st[op[3]].v)]
    [] o = "swap" -> [st EXCEPT ![s] = st[op[3]], ![op[3]] = st[s]]
    [] o = "expr" -> [st EXCEPT ![s] = Mk("fld", st[op[3]].t, 0, <<st[op[3]].v[1] + st[op[4]].v[1]>>)]
    [] o = "add" -> [st EXCEPT ![s].v = <<st[op[3]].v[1] + st[op[4]].v[1]>>]
    [] o = "set" -> [st EXCEPT ![s].v[op[3]] = op[4]]
    [] o = "resize" -> [st EXCEPT ![s].v = Same(op[3], 0)]
    [] o = "push" -> [st EXCEPT ![s].v = Append(@, op[3])]
    [] o = "pop" -> [st EXCEPT ![s].v = SubSeq(@, 1, Len(@) - 1)]
    [] o = "erase" -> [st EXCEPT ![s].v = Drop(@, op[3])]
    [] o = "sub" -> [st EXCEPT ![s] = Mk("sub", "R", op[4], st[op[3]].v)]
    [] o = "subset" -> [st EXCEPT ![s] = Mk("sub", "R", op[3], <<op[4]>>)]
    [] o \in {"free", "del"} -> [st EXCEPT ![s] = Nil]
    [] o \in {"clear", "lattice"} -> Start
    [] OTHER -> st
=============================================================================
