SPECIFICATION Spec
INVARIANTS FileExact LineExact ObjectsExact NothingElseWritten
