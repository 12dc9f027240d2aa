------------------------------ MODULE HashSet -------------------------------
(* A mutable set and the operations of the library's set type.  The state is *)
(* a mathematical set; a slice operand is a sequence and stands for the set  *)
(* of its items; a set operand is a second set, which no operation changes.  *)
EXTENDS Naturals, Sequences, FiniteSets

Items(q) == {q[k] : k \in DOMAIN q}

Mutators == {"ExceptWith", "SymmetricExceptWith", "IntersectWith", "UnionWith"}
Queries  == {"SetEquals", "Overlaps", "IsSubsetOf", "IsProperSubsetOf", "IsSupersetOf", "IsProperSupersetOf"}
Simple   == {"Add", "Remove", "Contains", "RemoveWhere", "IsEmpty", "Clear", "Keys", "Len", "New"}

\* The set after an operation with operand set t / item x.
After(op, s, t, x) ==
    CASE op = "ExceptWith"          -> s \ t
      [] op = "SymmetricExceptWith" -> (s \ t) \cup (t \ s)
      [] op = "IntersectWith"       -> s \cap t
      [] op = "UnionWith"           -> s \cup t
      [] op = "Add"                 -> s \cup {x}
      [] op = "Remove"              -> s \ {x}
      [] op = "RemoveWhere"         -> s \ t     \* t: the items the predicate selects
      [] op = "Clear"               -> {}
      [] op = "New"                 -> t
      [] OTHER                      -> s

Bool(b) == IF b THEN 1 ELSE 0

\* The value returned (booleans as 0/1; mutators return nothing: 0).
Ret(op, s, t, x) ==
    CASE op = "SetEquals"           -> Bool(s = t)
      [] op = "Overlaps"            -> Bool(s \cap t # {})
      [] op = "IsSubsetOf"          -> Bool(s \subseteq t)
      [] op = "IsProperSubsetOf"    -> Bool(s \subseteq t /\ s # t)
      [] op = "IsSupersetOf"        -> Bool(t \subseteq s)
      [] op = "IsProperSupersetOf"  -> Bool(t \subseteq s /\ s # t)
      [] op = "Add"                 -> Bool(x \notin s)
      [] op = "Remove"              -> Bool(x \in s)
      [] op = "Contains"            -> Bool(x \in s)
      [] op = "RemoveWhere"         -> Cardinality(s \cap t)
      [] op = "IsEmpty"             -> Bool(s = {})
      [] op = "Len"                 -> Cardinality(s)
      [] OTHER                      -> 0

-----------------------------------------------------------------------------
(* The state machine, checked exhaustively for a small universe.             *)
CONSTANT U
VARIABLES set, other, last   \* last = <<op, set before, returned>>
vars == <<set, other, last>>

Init == /\ set = {} /\ other \in SUBSET U /\ last = <<"New", {}, 0>>
Do(op, x) == /\ set' = After(op, set, other, x)
             /\ last' = <<op, set, Ret(op, set, other, x)>>
             /\ UNCHANGED other
Swap == /\ other' = set /\ set' = other /\ last' = <<"Swap", set, 0>>
Next == \/ \E op \in Mutators \cup Queries, x \in U : Do(op, x)
        \/ \E op \in Simple \ {"New"}, x \in U : Do(op, x)
        \/ Swap
Spec == Init /\ [][Next]_vars

TypeOK == set \subseteq U /\ other \subseteq U
\* Laws every history must satisfy.
Laws == /\ last[1] \in Queries \cup {"Contains", "IsEmpty", "Keys", "Len"} => set = last[2]
        /\ last[1] = "IntersectWith" => set \subseteq last[2] /\ set \subseteq other
        /\ last[1] = "UnionWith" => last[2] \subseteq set /\ other \subseteq set
        /\ last[1] = "ExceptWith" => set \cap other = {}
        /\ last[1] = "SymmetricExceptWith" =>
              After("SymmetricExceptWith", set, other, 0) = last[2]
        /\ last[1] = "IsProperSubsetOf" /\ last[3] = 1 =>
              Ret("IsSubsetOf", set, other, 0) = 1 /\ Ret("IsSupersetOf", set, other, 0) = 0
        /\ last[1] = "Add" => (last[3] = 1) = (set # last[2])
        /\ last[1] = "Remove" => (last[3] = 1) = (set # last[2])
        /\ last[1] = "RemoveWhere" => last[3] = Cardinality(last[2]) - Cardinality(set)
=============================================================================
