------------------------------- MODULE ExprMC -------------------------------
(* Grows every short token sequence and every small operand pair, and checks *)
(* that the rules of Expr.tla fit together.                                  *)
EXTENDS Expr

CONSTANT MaxToks
Tk(k, s, o) == [k |-> k, s |-> s, o |-> o]
Alphabet == {Tk("int", T("2"), ""), Tk("bool", T("true"), ""), Tk("null", <<>>, ""), Tk("op", <<>>, "+"), Tk("op", <<>>, "*"),
             Tk("op", <<>>, "="), Tk("op", <<>>, "<"), Tk("op", <<>>, "AND"), Tk("op", <<>>, "OR"), Tk("op", <<>>, "NOT"), Tk("op", <<>>, "IS"),
             Tk("(", <<>>, ""), Tk(")", <<>>, "")}
Zs == [i \in 1 .. 16 |-> 0]
Samples == <<Bool(TRUE), Bool(FALSE), I32(I(7)), I32(I(-3)), I32(Neg(P2[31])), X("Int64", P2[40]), X("Decimal", DecNorm(I(25), -1)),
             X("Double", OfInt(I(3))), X("Double", NaN), Str(T("12")), Str(T("aB")), X("Guid", Zs), X("DateTime", ZeroTime),
             NullX("Boolean"), NullX("Int32"), NullX("Int64"), NullX("Decimal"), NullX("Double"), NullX("String"), NullX("Guid"), NullX("DateTime")>>
BinOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "=", "===", "<>", "<", "<=", ">", ">=", "AND", "OR"}

VARIABLES ts, pair
vars == <<ts, pair>>
Init == ts = <<>> /\ pair \in {<<>>} \cup (DOMAIN Samples) \X (DOMAIN Samples)
Next == /\ Len(ts) < MaxToks
        /\ pair = <<>>
        /\ \E k \in Alphabet : ts' = Append(ts, k)
        /\ UNCHANGED pair
Spec == Init /\ [][Next]_vars

\* Parentheses around a whole expression change nothing, under either table.
Wrapped(q) == <<Tk("(", <<>>, "")>> \o q \o <<Tk(")", <<>>, "")>>
ParenInv == \A lv \in {DocLevel, FlatLevel} : With(Parse(ts, lv), LAMBDA p : p.k = "bad" \/ Parse(Wrapped(ts), lv) = p)
\* Both tables accept the same sequences when only one operator is present, and then agree.
OpsOf == Cardinality({i \in DOMAIN ts : ts[i].k = "op"})
OneOpInv == OpsOf <= 1 => Parse(ts, DocLevel) = Parse(ts, FlatLevel)
\* Every sequence has a value or is refused; nothing is left undefined.
ValueInv == LET v == Value(Parse(ts, DocLevel), <<>>) IN v.t \in DOMAIN Rank \cup {"error", "String", "Guid", "DateTime", "Undefined"}

A == Samples[pair[1]]
B == Samples[pair[2]]
Result(o) == Binary(o, A, B)
Kinds == DOMAIN Rank \cup {"error", "any", "String", "Guid", "DateTime"}
PairInv ==
    pair = <<>> \/
    /\ \A o \in BinOps : Result(o).t \in Kinds
    \* a comparison or logical operator is Boolean, null exactly when an operand is
    /\ \A o \in {"=", "===", "<>", "<", "<=", ">", ">=", "AND", "OR"} :
          With(Result(o), LAMBDA r : r.t = "Boolean" => (r.n <=> (A.n \/ B.n)))
    \* equal and different, less and not less, exclude each other
    /\ With(Result("="), LAMBDA e : With(Result("<>"), LAMBDA d : (e.t = "Boolean" /\ ~e.n) => (d.t = "Boolean" /\ d.v = ~e.v)))
    /\ With(Result("<"), LAMBDA e : With(Result(">="), LAMBDA d : (e.t = "Boolean" /\ ~e.n /\ e.v) => ~d.v))
    \* the type of arithmetic does not depend on the order of numbers, and sum and product commute
    /\ (IsNumericT(A.t) /\ IsNumericT(B.t)) =>
          \A o \in {"+", "*"} : With(Result(o), LAMBDA r : With(Binary(o, B, A), LAMBDA q : r.t = q.t /\ r.n = q.n /\ r.v = q.v))
    \* a value survives the conversion to a wider type and back
    /\ \A t \in {"Int64", "Decimal", "Double", "String"} :
          (A.t \in {"Boolean", "Int32"} /\ ~A.n) =>
             With(Conv(Conv(A, t), A.t), LAMBDA r : r.t = A.t /\ r.v = A.v)
=============================================================================
