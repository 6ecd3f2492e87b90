SPECIFICATION Spec
CONSTANTS MaxN = 5
 Top = 3
INVARIANTS Monotone Inside RanksAddUp EndsTakeNearest FlagsMonotone WiderKeepsMore SomeKept MiddleKept Order Emit
