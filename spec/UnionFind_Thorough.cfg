CONSTANT MaxElems = 6
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Acyclic Refines RepInClass SizesRight Shallow
PROPERTIES ResultRight QueriesPure
CHECK_DEADLOCK FALSE
