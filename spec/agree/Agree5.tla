------------------------------- MODULE Agree5 ------------------------------
EXTENDS Dag
VARIABLE x
Init == x = 0
Next == x' = x
P(name, v) == PrintT(<<"AGREE", name, v>>)
\* a strong pseudoprime to 2, 3, 5 and 7, and the steps from it to the next prime below
ASSUME P("primew", << PrimeDownW(<<32199, 49057, 0, 0>>), PrimeDownW(W64(1000001)) >>)
=============================================================================
