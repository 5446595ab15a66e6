------------------------------ MODULE FieldGen ------------------------------
(* Generates histories of data-parallel statements for replay.  The state is a
   bound on the magnitude of every register's components, so that all values
   stay exactly representable; registers are refilled when a statement would
   exceed the limit.  Every statement of the table is used once per history,
   in random order, with random (possibly coinciding) registers and subset.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Ops == ndJsonDeserialize(IOEnv.OPTAB)
CONSTANTS NReg, NSubs, Limit, Vol
VARIABLES mag, todo, hist
Lo(a) == IF a > 40000000 THEN 40000000 ELSE a
Times(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > 40000000 \div b THEN 40000000 ELSE a * b
Mx(a, b) == IF a > b THEN a ELSE b
Ab(a) == IF a < 0 THEN -a ELSE a
\* bound on |components| of an expression; env: letter -> bound
RECURSIVE Mag(_, _)
RECURSIVE MaxArgs(_, _, _)
Mag(e, env) ==
  CASE e[1] = "reg" -> env[e[2]]
    [] e[1] = "num" -> Ab(e[2])
    [] e[1] \in {"add", "sub"} -> Lo(Mag(e[2], env) + Mag(e[3], env))
    [] e[1] \in {"mul", "localInnerProduct", "localInnerProductReal", "localColorInnerProduct", "outerProduct", "traceSpinOuterProduct", "colorVectorContract", "colorCrossProduct"} ->
         IF e[2][1] = "Gamma" \/ e[3][1] = "Gamma" THEN MaxArgs(e, env, 2)
         ELSE Times(24, Times(Mag(e[2], env), Mag(e[3], env)))
    [] e[1] \in {"traceMultiply", "traceColorMultiply", "traceSpinMultiply"} -> Times(300, Times(Mag(e[2], env), Mag(e[3], env)))
    [] e[1] = "localNorm2" -> Times(288, Times(Mag(e[2], env), Mag(e[2], env)))
    [] e[1] \in {"quarkContract12", "quarkContract13", "quarkContract14", "quarkContract23", "quarkContract24", "quarkContract34", "traceSpinQuarkContract13"} ->
         Times(150, Times(Mag(e[2], env), Mag(e[3], env)))
    [] e[1] = "quarkContractXX" -> Times(150, Times(Mag(e[3], env), Mag(e[4], env)))
    [] e[1] = "colorContract" -> Times(144, Times(Mag(e[2], env), Times(Mag(e[3], env), Mag(e[4], env))))
    [] e[1] \in {"trace", "traceColor", "traceSpin", "realTrace", "imagTrace"} -> Times(12, Mag(e[2], env))
    [] e[1] \in {"onePlusGamma", "project", "reconstruct"} -> Times(2, Mag(e[4], env))
    [] e[1] = "shl" -> Times(64, Mag(e[2], env))
    [] e[1] \in {"band", "bor", "bxor", "inv"} -> Lo(2 * (MaxArgs(e, env, 2) + 1))
    [] e[1] = "pow" -> Times(Mag(e[2], env), Mag(e[2], env))
    [] e[1] = "coord" -> 64
    [] e[1] = "Gamma" -> 1
    [] OTHER -> MaxArgs(e, env, 2)
MaxArgs(e, env, i) == IF i > Len(e) THEN 1
                      ELSE Mx(IF DOMAIN e[i] = {} THEN 0 ELSE Mag(e[i], env), MaxArgs(e, env, i + 1))
After(op, env) ==
  LET x == Mag(op.ast, env) IN
  CASE op.asg \in {"+=", "-="} -> Lo(x + env["D"])
    [] op.asg = "*=" -> Times(24, Times(x, env["D"]))
    [] op.asg = "<<=" -> Times(64, env["D"])
    [] op.asg \in {"|=", "&=", "^="} -> Lo(2 * (Mx(x, env["D"]) + 1))
    [] OTHER -> Mx(x, env["D"])
Cap(op) == IF op.kind \in {"red", "redmulti"} THEN Limit \div Vol ELSE Limit

Base(t) == t.bound
Choose(S) == RandomElement(S)
Init == mag = <<>> /\ todo = 1..Len(Ops) /\ hist = <<>>
Get(m, r, d) == IF r \in DOMAIN m THEN m[r] ELSE d
\* step: take an operation that was not used yet
\* a destination may occur in its own expression where the statement is a linear update
Apart(op, ix) == IF ~op.apart THEN ix
                 ELSE [k \in 1..Len(ix) |-> IF k > 1 /\ k <= Len(op.args) /\ op.args[k].ty = op.args[1].ty /\ ix[k] = ix[1]
                                            THEN (ix[k] % NReg) + 1 ELSE ix[k]]
Step(o, op, rix, sub, site) ==
  LET ix == Apart(op, rix)
      names == [k \in 1..Len(op.args) |-> op.args[k].ty \o ToString(ix[k])]
      letters == [k \in 1..Len(op.args) |-> op.args[k].letter]
      envOf(m) == [lt \in {letters[k] : k \in 1..Len(letters)} \cup {"D"} |->
                     IF \E k \in 1..Len(letters) : letters[k] = lt
                     THEN LET k == CHOOSE k \in 1..Len(letters) : letters[k] = lt IN Get(m, names[k], 0) ELSE 0]
      missing == {k \in 1..Len(names) : names[k] \notin DOMAIN mag}
      over == After(op, envOf(mag)) > Cap(op)
      refill == IF over THEN {k \in 1..Len(names) : TRUE} ELSE missing
      m2 == [r \in DOMAIN mag \cup {names[k] : k \in refill} |->
               IF \E k \in refill : names[k] = r THEN op.args[CHOOSE k \in refill : names[k] = r].bound ELSE mag[r]]
      fills == SetToSeq({<<"fill", names[k], op.args[k].bound>> : k \in refill})
      call == <<"op", op.id, sub>> \o <<[k \in 1..Len(names) |-> <<letters[k], ix[k]>>]>> \o <<site>>
      res == After(op, envOf(m2))
  IN /\ hist' = hist \o fills \o <<call>>
     /\ todo' = todo \ {o}
     /\ mag' = IF op.kind \in {"assign", "scalar"} THEN [m2 EXCEPT ![names[1]] = res] ELSE m2
Next ==
  /\ todo # {}
  /\ \E o \in {Choose(todo)} :
     \E ix \in {[k \in 1..6 |-> Choose(1..NReg)]} :
     \E sub \in {Choose(0..(NSubs - 1))} :
     \E site \in {[m \in 1..4 |-> Choose(0..99)]} :
        Step(o, Ops[o], ix, IF Ops[o].full THEN 0 ELSE IF Ops[o].subonly /\ sub = 0 THEN 1 ELSE sub, site)
Spec == Init /\ [][Next]_<<mag, todo, hist>>
Emit == todo = {} => PrintT(ToJson(hist))
=============================================================================
