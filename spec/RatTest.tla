------------------------------ MODULE RatTest ------------------------------
EXTENDS Rat, Integers, TLC
S(n) == ToString(n)
I == -7..7
ASSUME \A a, b \in I : RAdd(S(a), S(b)) = S(a + b) /\ RSub(S(a), S(b)) = S(a - b) /\ RMul(S(a), S(b)) = S(a * b)
ASSUME \A a, b \in I : RLt(S(a), S(b)) = (a < b) /\ RLe(S(a), S(b)) = (a <= b) /\ REq(S(a), S(b)) = (a = b)
ASSUME \A a, b \in I : b # 0 => RMul(RDiv(S(a), S(b)), S(b)) = S(a)
ASSUME \A a \in I, b \in 1..7 : RMod(S(a), S(b)) = S(a % b) /\ RFloor(RDiv(S(a), S(b))) = S(a \div b)
ASSUME \A a \in I \ {0}, p \in 0..5 : RPow(S(a), S(p)) = S(a ^ p)
ASSUME \A a \in I \ {0}, p \in 0..5 : RMul(RPow(S(a), S(p)), RPow(S(a), S(-p))) = "1"
ASSUME RPow("4", "1/2") = "2" /\ RPow("8", "-0.5") # "0" /\ RClose(RPow("2", "0.5"), "1.4142135623730951", "1e-15")
ASSUME RNorm("1e-3") = "1/1000" /\ RNorm("0x1p-1") = "1/2" /\ RNorm("-0.0") = "0" /\ RNorm("2|0.0") = "2"
ASSUME RDiv("1", "0") = "inf" /\ RDiv("0", "0") = "nan" /\ ~REq("nan", "nan") /\ RClose("nan", "nan", "0")
ASSUME RMul("1|2", "3|-1") = "5|5" /\ RDiv("5|5", "3|-1") = "1|2" /\ RAbs("3|4") = "5"
ASSUME RClose("1", "1.0001", "1e-3") /\ ~RClose("1", "1.0001", "1e-5") /\ RCloseS("0", "1e-13", "1e-12", "1")
ASSUME RRint("2.5") = "2" /\ RRint("3.5") = "4" /\ RRint("-2.5") = "-2" /\ RFloor("-0.5") = "-1" /\ RTrunc("-1.5") = "-1"
ASSUME RModOK("0.1", "1", "0.1", "1e-12") /\ RModOK("0", "1", "0.1", "1e-12") /\ ~RModOK("0.05", "1", "0.1", "1e-12")
ASSUME ~RModOK("2", "5", "-3", "1e-12") /\ RModOK("-1", "5", "-3", "1e-12") /\ ~RModOK("-3", "5", "-2", "1e-12") /\ ~RFmodOK("-1", "5", "3", "1e-12") /\ RFmodOK("2", "5", "-3", "1e-12")
ASSUME RFloorDivOK("3", "7", "2", "1e-12") /\ ~RFloorDivOK("2", "7", "2", "1e-12")
ASSUME RSum(<<"1", "1/2">>) = "3/2" /\ RDot(<<"1", "2">>, <<"3", "4">>) = "11" /\ RMaxAbs(<<"-3", "nan">>) = "3"
ASSUME SChars("a°b") = <<"a", "°", "b">> /\ SCat(<<"a", "b">>) = "ab" /\ SLe("a", "b") /\ ~SLe("b", "a")
=============================================================================
