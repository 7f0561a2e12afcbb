SPECIFICATION Spec
CONSTANTS
  Universe <- Envs4
  Queries <- Asked
  MaxItems = 6
  MaxOther = 2
  Degrees <- TwoFour
INVARIANTS NoMisses NoExtras NoRepeats Level TreeRight Complete
