SPECIFICATION Spec
CONSTANTS MaxDegree = 7
 Dim = 2
INVARIANTS AnyFactorFirst EvenPositive CauchySchwarz OddVanish FirstTwo Independent Emit
