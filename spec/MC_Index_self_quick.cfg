SPECIFICATION Spec
CONSTANTS
  Universe <- Envs3
  Queries <- Asked
  MaxItems = 4
  MaxOther = 2
  Degrees <- TwoFour
INVARIANTS NoMisses NoExtras NoRepeats Level TreeRight Complete Counted
