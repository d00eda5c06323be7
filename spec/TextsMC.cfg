CONSTANTS Alphabet = "01.-e "
          MaxLen = 5
INIT MCInit
NEXT MCNext
INVARIANTS AutomatonIsGrammar ScanIsIncremental IntegersAreNumbers OrderSane RulesNested
CHECK_DEADLOCK FALSE
