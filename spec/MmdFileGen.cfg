SPECIFICATION GSpec
CONSTANTS
  FlagBits = {1, 32, 256, 512, 1024, 2048, 8192}
  BigCounts = {127, 128, 129, 255, 256, 257, 32768, 32769}
INVARIANTS RefsSurvive NoConfusion Emit
CHECK_DEADLOCK FALSE
