SPECIFICATION Spec
CONSTANTS MaxDegree = 4
 Dim = 3
INVARIANTS AnyFactorFirst EvenPositive CauchySchwarz OddVanish FirstTwo Independent Emit
