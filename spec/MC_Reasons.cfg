SPECIFICATION Spec
CONSTANTS
  MaxSteps = 3
INVARIANTS ContextLaw OtherLaw CauseLaw UpLaw NeverNone TableLaw NamesLaw Emit
CHECK_DEADLOCK FALSE
