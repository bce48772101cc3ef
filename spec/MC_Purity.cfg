SPECIFICATION Spec
CONSTANTS Threads = {t1,t2}
          Impl = "pure"
          HistoryLength = 4
INVARIANTS NoMemory Alone
CHECK_DEADLOCK FALSE
