SPECIFICATION Spec
CONSTANTS Losses = {"32767/32768", "1", "2", "4", "nan"}
 MaxLen = 8
 Kinds = {"interval", "epoch", "batch"}
INVARIANTS Inv Emit
PROPERTIES NoneAfterStop Ends
