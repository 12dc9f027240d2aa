---------------------------- MODULE HashSetTrace ----------------------------
(* Judges programs of set operations recorded from the implementation.  A    *)
(* case is a program: "other" and a list of steps [op, t (sequence), x, ret, *)
(* after, keep], where "after" lists the set's elements after the step (with *)
(* multiplicity, as the implementation enumerates them) and "keep" is TRUE   *)
(* iff the operand was left as it was.                                       *)
EXTENDS HashSet, CaseIO

\* KF-C14-1: the empty set is reported as proper superset of everything.
Known(s, st) == /\ IsKnown("KF-C14-1")
                /\ st.op = "IsProperSupersetOf" /\ s = {} /\ st.ret = 1
                /\ st.after = <<>> /\ st.keep

StepOK(s, st) ==
    LET t == Items(st.t) IN
    \/ Known(s, st)
    \/ /\ Items(st.after) = After(st.op, s, t, st.x)
       /\ Len(st.after) = Cardinality(Items(st.after))
       /\ st.ret = Ret(st.op, s, t, st.x)
       /\ st.keep

RECURSIVE FirstBad(_, _, _)
FirstBad(c, k, s) ==
    IF k > Len(c.steps) THEN 0
    ELSE IF ~StepOK(s, c.steps[k]) THEN k
    ELSE FirstBad(c, k + 1, Items(c.steps[k].after))

HasKnown(c) == \E k \in DOMAIN c.steps : Known(IF k = 1 THEN {} ELSE Items(c.steps[k-1].after), c.steps[k])

Why(c) == LET k == FirstBad(c, 1, {}) IN
    IF k = 0 THEN "" ELSE
    LET st == c.steps[k]
        s == IF k = 1 THEN {} ELSE Items(c.steps[k-1].after)
    IN <<"step", k, st.op, "before", s, "operand", st.t, st.x, "returned", st.ret, "after", st.after,
         "expected", Ret(st.op, s, Items(st.t), st.x), After(st.op, s, Items(st.t), st.x)>>

TInit == CaseInit /\ set = {} /\ other = {} /\ last = <<>>
TNext == /\ Cur <= NumCases
         /\ LET c == Cases[Cur] IN JudgeK(FirstBad(c, 1, {}) = 0, Why(c), HasKnown(c), "KF-C14-1")
         /\ UNCHANGED vars
=============================================================================
