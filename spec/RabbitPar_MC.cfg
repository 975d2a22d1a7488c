SPECIFICATION Spec
CONSTANTS K = 3
          C = 2
          D = 2
          L1 = 2
          L2 = 1
INVARIANT SideBySideOK
