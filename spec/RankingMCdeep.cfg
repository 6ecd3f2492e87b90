SPECIFICATION Spec
CONSTANTS MaxN = 6
 Top = 4
INVARIANTS Monotone Inside RanksAddUp EndsTakeNearest FlagsMonotone WiderKeepsMore SomeKept MiddleKept Order Emit
