SPECIFICATION Spec
CONSTANTS Depth = 5
VIEW View
INVARIANTS Emit
PROPERTIES Isolated Frame LoadedIsSaved CallerKept
