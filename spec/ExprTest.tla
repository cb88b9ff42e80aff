------------------------------- MODULE ExprTest -------------------------------
EXTENDS Integers, Sequences, TLC
Z == INSTANCE Expr
P == INSTANCE ExprPure
A == {"x", "(x)", "12", "-y1", "(-y1)", "(2-x)", "x^2", "x^(-1)", "y1^(2)", "-x^2", "(x+y1)^2", "(-(x))", "0", "x^", "u", "(x", "2^(-x)"}
O == {"+", "-", "*", "/", "+-", "-+", "", "^", "--"}
ASSUME \A a, b \in A, o \in O, x \in {"0", "3"} : Z!EvalExpr(a \o o \o b, <<"x", "y1">>, <<x, "2">>, "7") = P!EvalExpr(a \o o \o b, <<"x", "y1">>, <<x, "2">>, "7")
ASSUME \A a \in {"-x^2+3", "(x-1)/(x+1)*2", "2-x/3/2", "((x))", "x-y1-1", "x/y1/2", "2^3^2", "", ")", "+x", "++x", "x+", "1/(x-x)", "1/(1/(x-x))+1", "0^0", "0^(-1)"} : Z!EvalExpr(a, <<"x", "y1">>, <<"5", "2">>, "11") = P!EvalExpr(a, <<"x", "y1">>, <<"5", "2">>, "11")
ASSUME /\ Z!EvalExpr("-x^2", <<"x">>, <<"3">>, "101") = "92" /\ Z!EvalExpr("2-x/3/2", <<"x">>, <<"12">>, "101") = "0" /\ Z!EvalExpr("x^(-1)*x", <<"x">>, <<"12">>, "101") = "1"
       /\ Z!EvalExpr("100000000000000000000+-x", <<"x">>, <<"12">>, "101") = Z!BMod("99999999999999999988", "101")
ASSUME PrintT(<<"ACCEPTED", 1>>)
=============================================================================
