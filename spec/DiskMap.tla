------------------------------- MODULE DiskMap ------------------------------
(* Disk map objects and their files, with processes that may die.
   file[f]: ex      0 no such file, 1 there is one, 2 unknown
            opts    the possible durable maps: one, once a flush has completed; two, if the
                    process died within a flush
            bad     no flush is known to have completed: opening may be refused
            ud      user data given when the file was made (or -1 entries: unknown)
            rec     the records; each a value, other values it may turn out to have (it was
                    overwritten and no flush has completed since), torn (an overwrite was cut
                    short), dmg (its bytes were damaged)
            hurt    bytes were damaged or cut off somewhere: everything may be refused
   obj[o]:  on, st (init, unch, mod), f, w (opened for writing), ud, map, stale (records
            overwritten by another object since this one was opened)
   A map sends a serialised key to <<key, record>>.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
M == INSTANCE MapMem WITH Maps <- 1
CONSTANTS Files, Objs
Ser(kt, k) == M!Ser(kt, k)
Empty == [x \in {} |-> 0]
NoFile == [ex |-> 0, opts |-> {}, bad |-> TRUE, ud |-> <<>>, rec |-> <<>>, hurt |-> FALSE]
Gone == [on |-> FALSE, st |-> "init", f |-> 0, w |-> FALSE, ud |-> <<>>, map |-> Empty, stale |-> {}]
Fresh == [Gone EXCEPT !.on = TRUE]
Start == [file |-> [f \in 1..Files |-> NoFile], obj |-> [o \in 1..Objs |-> Gone]]
Bit(b) == IF b THEN 1 ELSE 0
Open(st, o) == st.obj[o].on /\ st.obj[o].st # "init"
Holders(st, f) == {o \in 1..Objs : Open(st, o) /\ st.obj[o].f = f}
Writer(st, f) == {o \in Holders(st, f) : st.obj[o].w}
Has(st, kt, o, k) == Ser(kt, k) \in DOMAIN st.obj[o].map
Rid(st, kt, o, k) == st.obj[o].map[Ser(kt, k)][2]
Rec(st, kt, o, k) == st.file[st.obj[o].f].rec[Rid(st, kt, o, k)]
\* what a read through object o may return
Readings(st, kt, o, k) == LET r == Rec(st, kt, o, k) IN IF st.obj[o].w \/ r.alts = {} THEN {r.val} \cup (IF r.torn THEN r.alts ELSE {}) ELSE {r.val} \cup r.alts
New(v) == [val |-> v, alts |-> {}, torn |-> FALSE, dmg |-> FALSE]
Settled(rec) == [i \in 1..Len(rec) |-> [rec[i] EXCEPT !.alts = IF rec[i].torn THEN @ ELSE {}]]
Others(st, f, o, r) == [q \in 1..Objs |-> IF q # o /\ Open(st, q) /\ st.obj[q].f = f THEN [st.obj[q] EXCEPT !.stale = @ \cup {r}] ELSE st.obj[q]]
Pre(st, kt, op) == LET n == op[1] o == op[2] IN
  CASE n = "make" -> ~st.obj[o].on
    [] n = "open" -> LET f == op[3] m == op[4] IN st.obj[o].on /\ (Open(st, o) \/ (IF m = "r" THEN TRUE ELSE Holders(st, f) = {}))
    [] n = "insert" -> st.obj[o].on /\ (Open(st, o) => st.obj[o].w /\ (Has(st, kt, o, op[3]) => Len(op[4]) = Len(Rec(st, kt, o, op[3]).val)))
    [] n = "get" -> st.obj[o].on /\ (Open(st, o) /\ Has(st, kt, o, op[3]) =>
                      /\ Rid(st, kt, o, op[3]) \notin st.obj[o].stale
                      /\ Rec(st, kt, o, op[3]).alts = {} \/ st.obj[o].w \/ Writer(st, st.obj[o].f) = {})
    [] n \in {"junk", "flip", "cut"} -> Holders(st, o) = {}
    [] n \in {"meta", "exists"} -> TRUE
    [] OTHER -> st.obj[o].on
\* a completed flush of object o
Flushed(st, o) == IF st.obj[o].st # "mod" THEN st ELSE
  [st EXCEPT !.file[st.obj[o].f].opts = {st.obj[o].map}, !.file[st.obj[o].f].bad = FALSE, !.file[st.obj[o].f].rec = Settled(@), !.obj[o].st = "unch"]
Closed(st, o) == [Flushed(st, o) EXCEPT !.obj[o] = [Fresh EXCEPT !.ud = st.obj[o].ud]]
\* the state after an operation that ended normally (with seen, the map found when opening)
Do(st, kt, op, seen, got) == LET n == op[1] o == op[2] IN
  CASE n = "make" -> [st EXCEPT !.obj[o] = Fresh]
    [] n = "drop" -> [Closed(st, o) EXCEPT !.obj[o] = Gone]
    [] n = "ud" -> IF Open(st, o) THEN st ELSE [st EXCEPT !.obj[o].ud = op[3]]
    [] n = "open" -> LET f == op[3] m == op[4] IN
         IF Open(st, o) THEN st
         ELSE IF m = "new"
         THEN [st EXCEPT !.file[f] = [NoFile EXCEPT !.ex = 1, !.ud = st.obj[o].ud], !.obj[o] = [@ EXCEPT !.st = "mod", !.f = f, !.w = TRUE, !.map = Empty, !.stale = {}]]
         ELSE [st EXCEPT !.file[f] = [@ EXCEPT !.opts = {seen}, !.bad = FALSE], !.obj[o] = [@ EXCEPT !.st = "unch", !.f = f, !.w = (m = "rw"), !.map = seen, !.ud = st.file[f].ud, !.stale = {}]]
    [] n = "close" -> Closed(st, o)
    [] n = "flush" -> Flushed(st, o)
    [] n = "insert" -> IF ~Open(st, o) THEN st ELSE LET f == st.obj[o].f s == Ser(kt, op[3]) IN
         IF Has(st, kt, o, op[3])
         THEN LET r == Rid(st, kt, o, op[3]) IN
              [st EXCEPT !.file[f].rec[r] = [@ EXCEPT !.alts = @ \cup {st.file[f].rec[r].val}, !.val = op[4], !.torn = FALSE, !.dmg = FALSE],
                         !.obj = [Others(st, f, o, r) EXCEPT ![o].st = "mod"]]
         ELSE LET r == Len(st.file[f].rec) + 1 IN
              [st EXCEPT !.file[f].rec = Append(@, New(op[4])), !.obj[o].st = "mod",
                         !.obj[o].map = [x \in DOMAIN st.obj[o].map \cup {s} |-> IF x = s THEN <<op[3], r>> ELSE st.obj[o].map[x]]]
    [] n = "get" -> IF Open(st, o) /\ Has(st, kt, o, op[3])
                    THEN LET r == Rid(st, kt, o, op[3]) IN
                         [st EXCEPT !.file[st.obj[o].f].rec[r] = IF st.obj[o].w /\ ~@.torn THEN @ ELSE [@ EXCEPT !.val = got, !.alts = {}, !.torn = FALSE]]
                    ELSE st
    [] n = "junk" -> [st EXCEPT !.file[o] = [NoFile EXCEPT !.ex = 1, !.ud = <<-1>>]]
    [] n = "flip" -> IF got = <<0>> THEN st ELSE
                     [st EXCEPT !.file[o].rec = [i \in 1..Len(@) |-> IF @[i].val = op[3] THEN [@[i] EXCEPT !.dmg = TRUE] ELSE @[i]]]
    [] n = "cut" -> IF got = <<0>> THEN st ELSE [st EXCEPT !.file[o].hurt = TRUE]
    [] OTHER -> st
\* is ret what the operation returns
RetOk(st, kt, op, ret) == LET n == op[1] o == op[2] IN
  CASE n = "insert" -> ret = <<Bit(~Open(st, o))>>
    [] n = "get" -> IF Open(st, o) /\ Has(st, kt, o, op[3]) THEN ret[1] = 0 /\ ret[2] \in Readings(st, kt, o, op[3]) /\ ~Rec(st, kt, o, op[3]).dmg
                    ELSE ret = <<1, op[4]>>
    [] n = "exist" -> ret = <<Bit(Open(st, o) /\ Has(st, kt, o, op[3]))>>
    [] n = "size" -> ret = <<Cardinality(DOMAIN st.obj[o].map)>>
    [] n = "ud" -> ret = <<Bit(Open(st, o))>>
    [] n = "getud" -> ret = (IF Open(st, o) THEN <<0, st.obj[o].ud>> ELSE <<1, <<63>>>>)
    [] n = "meta" -> st.file[o].ex # 0 /\ ret = st.file[o].ud
    [] n = "exists" -> st.file[o].ex = 2 \/ ret = <<st.file[o].ex>>
    [] n = "open" -> ret = (IF Open(st, o) THEN <<"throw">> ELSE <<>>)
    [] n \in {"flip", "cut", "junk"} -> ret \in {<<0>>, <<1>>}
    [] OTHER -> ret = <<>>
\* the map found when a file is opened is one of the possible ones
Found(st, kt, op, seen) == op[1] = "open" /\ ~Open(st, op[2]) /\ op[4] # "new" => st.file[op[3]].ex # 0 /\ seen \in st.file[op[3]].opts
\* the process may refuse the operation with a failing exit
MayRefuse(st, kt, op) == LET n == op[1] o == op[2] IN
  CASE n = "open" -> ~Open(st, o) /\ op[4] # "new" /\ LET f == st.file[op[3]] IN f.ex # 1 \/ f.bad \/ f.hurt
    [] n = "meta" -> st.file[o].ex # 1 \/ st.file[o].bad \/ st.file[o].hurt
    [] n = "get" -> Open(st, o) /\ Has(st, kt, o, op[3]) /\ LET r == Rec(st, kt, o, op[3]) IN r.dmg \/ r.torn \/ st.file[st.obj[o].f].hurt
    [] OTHER -> FALSE
\* all objects vanish with their process
Left(st) == [st EXCEPT !.obj = [o \in 1..Objs |-> Gone]]
\* the process dies within the operation, at one of its writes
Killed(st, kt, op) == LET n == op[1] o == op[2] IN
  CASE n = "insert" /\ Open(st, o) /\ Has(st, kt, o, op[3]) ->
         LET r == Rid(st, kt, o, op[3]) IN Left([st EXCEPT !.file[st.obj[o].f].rec[r] = [@ EXCEPT !.alts = @ \cup {op[4]}, !.torn = TRUE]])
    [] n \in {"flush", "close", "drop"} /\ Open(st, o) /\ st.obj[o].st = "mod" -> Left([st EXCEPT !.file[st.obj[o].f].opts = @ \cup {st.obj[o].map}])
    [] n = "open" /\ ~Open(st, o) /\ op[4] = "new" -> Left([st EXCEPT !.file[op[3]] = [NoFile EXCEPT !.ex = 2, !.ud = st.obj[o].ud]])
    [] OTHER -> Left(st)
=============================================================================
