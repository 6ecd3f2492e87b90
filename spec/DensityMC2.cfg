SPECIFICATION Spec
CONSTANTS MaxDegree = 4
 Dim = 2
INVARIANTS AnyFactorFirst EvenPositive CauchySchwarz OddVanish FirstTwo Independent Emit
