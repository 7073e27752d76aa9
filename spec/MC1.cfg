SPECIFICATION Spec
CONSTANTS
  W = 8
  Ordered = FALSE
  Limits <- NoLimit
  Rates <- RateNever
  Modes <- Sys
  Adaptives <- No
  AckNb = 1000
  AckPeriod = 0
  MaxData = 3
  MaxRepairs = 3
  MaxAcks = 1
  MaxTime = 0
  RepairIds <- RI_plain
  DrainRounds = 15
VIEW View
INVARIANTS AtMostOnce OnlySubmitted InOrder SkippedOnlyAbandoned NothingWithheld NothingDecodable
  AcksTruthful WindowDiscipline PacketsNumbered HorizonSafe NothingStaleKept AdaptiveBounds
  DrainsFromHere
PROPERTIES WindowLimited EvictOnlyWhenNeeded HorizonMonotone
CHECK_DEADLOCK FALSE
