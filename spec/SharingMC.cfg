INIT Init
NEXT Next
CONSTANTS
  Fields = {3, 5}
  MaxT = 3
INVARIANTS Hidden Determined
