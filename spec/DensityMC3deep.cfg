SPECIFICATION Spec
CONSTANTS MaxDegree = 5
 Dim = 3
INVARIANTS AnyFactorFirst EvenPositive CauchySchwarz OddVanish FirstTwo Independent Emit
