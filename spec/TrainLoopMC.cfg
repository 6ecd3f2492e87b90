SPECIFICATION Spec
CONSTANTS Losses = {"32767/32768", "1", "2", "nan"}
 MaxLen = 6
 Kinds = {"interval", "epoch", "batch"}
INVARIANTS Inv Emit
PROPERTIES NoneAfterStop Ends
