CONSTANTS SIZE = 3
 TURNS = 2
SPECIFICATION Spec
INVARIANTS Alone Ordered Together
PROPERTIES Ends
