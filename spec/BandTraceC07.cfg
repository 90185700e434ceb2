SPECIFICATION Spec
INVARIANTS BandListed BandFlagged MinesListed MinesFlagged
