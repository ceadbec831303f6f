SPECIFICATION Spec
CONSTANTS
  Dirs = {"A", "B"}
  Names = {"x.h5", "s/x.h5", "ssp_data_fsps_v3.2_lgmet_age.h5"}
  Versions = {"v1", "v2"}
  MaxSteps = 40
  EmitAt = 0
INVARIANTS DiskIsHistory LoadReads EmitCases
