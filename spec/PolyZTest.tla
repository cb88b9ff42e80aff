------------------------------ MODULE PolyZTest ------------------------------
EXTENDS Integers, Sequences, TLC
Z == INSTANCE PolyZ
P == INSTANCE PolyZPure
C == {"-3", "1", "2"}
E == {<<0, 0>>, <<1, 0>>, <<0, 2>>}
Polys == {{}} \cup {{<<e, c>>} : e \in E, c \in C} \cup {{<<<<1, 0>>, c>>, <<<<0, 2>>, d>>} : c, d \in C} \cup {{<<<<0, 0>>, c>>, <<<<1, 0>>, d>>} : c, d \in C}
ASSUME \A p, q \in Polys : Z!PMul(p, q) = P!PMul(p, q) /\ Z!PAdd(p, q) = P!PAdd(p, q)
ASSUME \A p \in Polys, c \in {"0", "-2", "5"} : Z!PScale(p, c) = P!PScale(p, c)
ASSUME \A p \in Polys, m \in {"2", "7"} : Z!PModP(p, m) = P!PModP(p, m)
ASSUME \A p \in Polys, x, y \in {"0", "1", "5"}, m \in {"2", "7"} : Z!PEvalM(p, <<x, y>>, m) = P!PEvalM(p, <<x, y>>, m)
ASSUME LET b == "123456789123456789123456789" p == {<<<<1>>, b>>, <<<<0>>, "1">>} q == {<<<<1>>, b>>, <<<<0>>, "-1">>}
       IN Z!PMul(p, q) = {<<<<2>>, Z!BMul(b, b)>>, <<<<0>>, "-1">>}
ASSUME PrintT(<<"ACCEPTED", 1>>)
=============================================================================
