SPECIFICATION Spec
INVARIANTS Round DiscWhole SidesStraight SidesWhole AreaFollows
