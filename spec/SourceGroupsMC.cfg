CONSTANTS MaxSrc = 3
          Ids = {"a", "b", "c"}
          Trts = {1, 2}
          Kinds <- KindsTwo
          MaxW = 3
          Accs <- AccsAll
          Discs = {1}
          Shifts = {0, 2}
INIT Init
NEXT Next
INVARIANTS OnceEach AllThere ReadIsGroupsOf DupRefused Range GenDone Conserved
CHECK_DEADLOCK FALSE
