SPECIFICATION Spec
CONSTANTS MaxDegree = 9
 Dim = 1
INVARIANTS AnyFactorFirst EvenPositive CauchySchwarz OddVanish FirstTwo Independent Emit
