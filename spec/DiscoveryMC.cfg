SPECIFICATION MCSpec
CONSTANTS Overall = 4  Quiet = 2  NC = 2  NM = 2  TMax = 6
          Describes <- MCDescribes
INVARIANTS Conforms MustTaken TakenMay TimesRight
CHECK_DEADLOCK FALSE
