SPECIFICATION Spec
CONSTANTS
  Universes <- UniversesC
  Redshifts <- RedshiftsC
INVARIANTS EinsteinDeSitter LambdaAge AgesAddUp Today MatterWins EmitCases
PROPERTY Further
