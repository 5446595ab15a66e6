------------------------------- MODULE MapMem -------------------------------
(* Memory map objects: finite maps from keys, which are the same key iff their serialised
   forms are equal, to values.  st[m] is a record: on (the object exists), map (a function
   from serialised keys to <<key, value>>), ud (user data).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == INSTANCE ByteIO
CONSTANTS Maps
Ser(kt, k) == CASE kt = "int" -> B!Int4(k[1])
                [] kt = "rec" -> B!Int4(k[1]) \o B!Int4(k[2]) \o B!Int4(k[3])
                [] kt = "arr" -> B!Int4(Len(k)) \o B!Ints(k)
                [] kt = "dbl" -> k                              \* the eight bytes of a double
                [] kt = "str" -> k \o <<10>>
                [] kt = "desc" -> B!Int4(Len(k)) \o k                \* a string with its length in front
                [] kt = "dpair" -> B!Int4(Len(k[1])) \o k[1] \o B!Int4(Len(k[2])) \o k[2]
                [] kt = "pair" -> k[1] \o <<10>> \o k[2] \o <<10>>
Empty == [x \in {} |-> 0]
Off == [on |-> FALSE, map |-> Empty, ud |-> <<>>]
Fresh == [on |-> TRUE, map |-> Empty, ud |-> <<>>]
Start == [m \in 1..Maps |-> Off]
Put1(f, kt, k, v) == LET s == Ser(kt, k) IN [x \in DOMAIN f \cup {s} |-> IF x = s THEN <<k, v>> ELSE f[x]]
RECURSIVE PutAll(_, _, _)
PutAll(f, kt, kvs) == IF kvs = <<>> THEN f ELSE PutAll(TLCEval(Put1(f, kt, kvs[1][1], kvs[1][2])), kt, Tail(kvs))
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Less1(f, s) == [x \in DOMAIN f \ {s} |-> f[x]]
Has(st, kt, m, k) == Ser(kt, k) \in DOMAIN st[m].map
Val(st, kt, m, k) == st[m].map[Ser(kt, k)][2]
Bit(b) == IF b THEN 1 ELSE 0
On(st, m) == m \in 1..Maps /\ st[m].on
Pre(st, kt, op) == LET o == op[1] m == op[2] IN
  CASE o = "new" -> ~st[m].on
    [] o = "copy" -> ~st[m].on /\ On(st, op[3])
    [] o \in {"assign", "range2", "xml"} -> On(st, m) /\ On(st, op[3]) /\ (o = "assign" \/ m # op[3])
    [] o \in {"at", "setat"} -> On(st, m) /\ Has(st, kt, m, op[3])
    [] o = "lost" -> On(st, m) /\ ~Has(st, kt, m, op[3])
    [] OTHER -> On(st, m)
Do(st, kt, op) == LET o == op[1] m == op[2] IN
  CASE o = "new" -> [st EXCEPT ![m] = Fresh]
    [] o = "del" -> [st EXCEPT ![m] = Off]
    [] o \in {"insert", "insertp"} -> [st EXCEPT ![m].map = Put1(@, kt, op[3], op[4])]
    [] o = "range" -> [st EXCEPT ![m].map = PutAll(@, kt, op[3])]
    [] o \in {"range2", "xml"} -> [st EXCEPT ![m].map = Over(@, st[op[3]].map)]
    [] o = "erase" -> [st EXCEPT ![m].map = Less1(@, Ser(kt, op[3]))]
    [] o = "clear" -> [st EXCEPT ![m].map = Empty]
    [] o = "setat" -> [st EXCEPT ![m].map[Ser(kt, op[3])][2] = op[4]]
    [] o \in {"copy", "assign"} -> [st EXCEPT ![m] = st[op[3]]]
    [] o = "ud" -> [st EXCEPT ![m].ud = op[3]]
    [] OTHER -> st
\* what the operation returns, when that is a single thing
Ret(st, kt, op) == LET o == op[1] m == op[2] IN
  CASE o = "get" -> IF Has(st, kt, m, op[3]) THEN <<0, Val(st, kt, m, op[3])>> ELSE <<1, op[4]>>
    [] o = "exist" -> <<Bit(Has(st, kt, m, op[3]))>>
    [] o = "at" -> <<Val(st, kt, m, op[3])>>
    [] o = "size" -> <<Cardinality(DOMAIN st[m].map)>>
    [] o = "getud" -> <<0, st[m].ud>>
    [] o \in {"insert", "insertp", "range", "range2", "ud"} -> <<0>>
    [] OTHER -> <<>>
\* a listing holds every key once
Listed(st, kt, m, ks) == Len(ks) = Cardinality(DOMAIN st[m].map) /\ {Ser(kt, ks[i]) : i \in 1..Len(ks)} = DOMAIN st[m].map
\* a listing of keys and values: each value is that of its key
Paired(st, kt, m, kvs) == Listed(st, kt, m, [i \in 1..Len(kvs) |-> kvs[i][1]]) /\ \A i \in 1..Len(kvs) : kvs[i][2] = Val(st, kt, m, kvs[i][1])
RetOk(st, kt, op, ret) == CASE op[1] = "keys" -> Listed(st, kt, op[2], ret)
                            [] op[1] \in {"kv", "iter", "iter2"} -> Paired(st, kt, op[2], ret)
                            [] OTHER -> ret = Ret(st, kt, op)
=============================================================================
