SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Alphabet = {0, 1, 2}
INVARIANTS NeverStuck Deterministic
CHECK_DEADLOCK FALSE
