SPECIFICATION Spec
CONSTANTS
  Universe <- Envs3
  Queries <- Asked
  MaxItems = 3
  MaxOther = 2
  Degrees <- Two
INVARIANTS NoMisses NoExtras NoRepeats Level TreeRight Complete
