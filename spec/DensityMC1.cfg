SPECIFICATION Spec
CONSTANTS MaxDegree = 7
 Dim = 1
INVARIANTS AnyFactorFirst EvenPositive CauchySchwarz OddVanish FirstTwo Independent Emit
