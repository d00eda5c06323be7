CONSTANTS MaxSrc = 3
          Ids = {"a", "b", "c"}
          Trts = {1, 2}
          Kinds <- KindsThree
          MaxW = 3
          Accs <- AccsAll
          Discs = {1}
          Shifts = {2}
INIT Init
NEXT Next
INVARIANTS Emit EmitDup
CONSTRAINT NotGen
CHECK_DEADLOCK FALSE
