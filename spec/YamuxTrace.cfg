CONSTANTS
  D = 262144
  BACKLOG = 256
  QFULL = 10
  QMAX = 16
  PENDMAX = 32
  PINGIV = 10000
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
