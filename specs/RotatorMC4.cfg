CONSTANTS SIZE = 4
 TURNS = 2
SPECIFICATION Spec
INVARIANTS Alone Ordered Together
PROPERTIES Ends
