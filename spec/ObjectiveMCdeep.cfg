SPECIFICATION Spec
CONSTANTS J = 3
 MaxK = 4
 Beta = 2
INVARIANTS Tightens One NothingSeen AnswersLower AnnealOK Emit
