SPECIFICATION Spec
CONSTANTS D = 8
          Depth = 3
INVARIANTS SameCrystal EnsureIn CureGood Antisymmetric
CHECK_DEADLOCK FALSE
