SPECIFICATION Spec
CONSTANTS Depth = 6
VIEW View
INVARIANTS Emit
PROPERTIES Isolated Frame LoadedIsSaved CallerKept
