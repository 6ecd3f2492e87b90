SPECIFICATION Spec
CONSTANTS N = 6
 F = 4
 V = 2
INVARIANTS OnceAtMost NeverSeen AllOnceWhenDone GridComplete NoEmptyFold CutOK Emit
