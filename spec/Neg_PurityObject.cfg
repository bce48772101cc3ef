SPECIFICATION Spec
CONSTANTS Threads = {t1}
          Impl = "object"
          HistoryLength = 4
INVARIANTS NoMemory Alone
CHECK_DEADLOCK FALSE
