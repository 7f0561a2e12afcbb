SPECIFICATION Spec
CONSTANTS
  Universe <- Envs6
  Queries <- Asked
  MaxItems = 3
  MaxOther = 2
  Degrees <- TwoFour
INVARIANTS NoMisses NoExtras NoRepeats Level TreeRight Complete
