SPECIFICATION Spec
CONSTANTS J = 2
 MaxK = 3
 Beta = 2
INVARIANTS Tightens One NothingSeen AnswersLower AnnealOK Emit
