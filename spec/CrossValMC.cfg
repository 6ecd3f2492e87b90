SPECIFICATION Spec
CONSTANTS N = 5
 F = 3
 V = 2
INVARIANTS OnceAtMost NeverSeen AllOnceWhenDone GridComplete NoEmptyFold CutOK Emit
