----------------------------- MODULE AllocModel -----------------------------
(* Design of the lattice allocator, and of the objects that own its blocks.
   The raw allocator hands out any free interval of a heap of H bytes, starting anywhere
   that is a multiple of RawA.  A request of n bytes asks it for n + Slop bytes, rounds the
   address up to a multiple of A and remembers which raw interval it came from.
   Objects: a field owns its block; a compact sub-field owns one; a view refers to another
   object's block.  Copying an owner allocates; copying a view copies the reference.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS H, A, RawA, Slop, Sizes, Objs, Steps
VARIABLES raw, map, obj, refused, n
vars == <<raw, map, obj, refused, n>>
None == [k |-> "none", at |-> -1, len |-> 0]
Over(a, la, b, lb) == a < b + lb /\ b < a + la
Up(x) == ((x + A - 1) \div A) * A
Init == raw = {} /\ map = [x \in {} |-> 0] /\ obj = [o \in Objs |-> None] /\ refused = FALSE /\ n = 0
\* raw intervals that the raw allocator may return
Spots(len) == {lo \in {RawA * i : i \in 0..(H \div RawA)} : lo + len <= H /\ \A r \in raw : ~Over(lo, len, r[1], r[2])}
\* allocate for object o; an address that is already known is refused (the process ends)
Give(o, k, len) == \E lo \in Spots(len + Slop) : LET p == Up(lo) IN
                     IF p \in DOMAIN map THEN refused' = TRUE /\ UNCHANGED <<raw, map, obj>>
                     ELSE /\ raw' = raw \cup {<<lo, len + Slop>>}
                          /\ map' = [x \in DOMAIN map \cup {p} |-> IF x = p THEN <<lo, len + Slop>> ELSE map[x]]
                          /\ obj' = [obj EXCEPT ![o] = [k |-> k, at |-> p, len |-> len]]
                          /\ UNCHANGED refused
\* release address p for object o
Take(o, p) == IF p \notin DOMAIN map THEN refused' = TRUE /\ UNCHANGED <<raw, map, obj>>
              ELSE /\ raw' = raw \ {map[p]} /\ map' = [x \in DOMAIN map \ {p} |-> map[x]]
                   /\ obj' = [obj EXCEPT ![o] = None] /\ UNCHANGED refused
Free1 == {o \in Objs : obj[o].k = "none"}
Users(o) == {q \in Objs : obj[q].k = "view" /\ obj[q].at = obj[o].at}
New == \E o \in Free1, len \in Sizes : Give(o, "own", len)
View == \E o \in Free1, q \in Objs : obj[q].k # "none" /\ obj' = [obj EXCEPT ![o] = [obj[q] EXCEPT !.k = "view"]] /\ UNCHANGED <<raw, map, refused>>
Copy == \E o \in Free1, q \in Objs : obj[q].k # "none" /\
          IF obj[q].k = "own" THEN Give(o, "own", obj[q].len) ELSE obj' = [obj EXCEPT ![o] = obj[q]] /\ UNCHANGED <<raw, map, refused>>
\* users destroy the views of an object before the object
Destroy == \E o \in Objs : /\ obj[o].k # "none"
             /\ IF obj[o].k = "own" THEN Users(o) = {} /\ Take(o, obj[o].at)
                ELSE obj' = [obj EXCEPT ![o] = None] /\ UNCHANGED <<raw, map, refused>>
Next == n < Steps /\ ~refused /\ n' = n + 1 /\ (New \/ View \/ Copy \/ Destroy)
Spec == Init /\ [][Next]_vars
Own == {o \in Objs : obj[o].k = "own"}
Aligned == \A o \in Own : obj[o].at % A = 0
Inside == \A o \in Own : \E r \in raw : r[1] <= obj[o].at /\ obj[o].at + obj[o].len <= r[1] + r[2]
Disjoint == \A o, q \in Own : o # q => ~Over(obj[o].at, obj[o].len, obj[q].at, obj[q].len) /\ obj[o].at # obj[q].at
OneOwner == \A p \in DOMAIN map : Cardinality({o \in Own : obj[o].at = p}) = 1
NoLeak == Cardinality(raw) = Cardinality(Own) /\ {map[p] : p \in DOMAIN map} = raw
NotRefused == ~refused
ViewsLive == \A o \in Objs : obj[o].k = "view" => obj[o].at \in DOMAIN map
=============================================================================
