CONSTANT MaxElems = 5
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Acyclic Refines RepInClass SizesRight Shallow
PROPERTIES ResultRight QueriesPure
CHECK_DEADLOCK FALSE
