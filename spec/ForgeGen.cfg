INIT Init
NEXT Next
CONSTANTS
  HeaderSize = 4
  Group = 7
  Groups = 19
  Forgings = 14
  Doubles = 10
  Alters = 120
  Pairs = 200
  Heirs = 8
  Boths = 2
  Binds = 130
  Movings = 1
CHECK_DEADLOCK FALSE
