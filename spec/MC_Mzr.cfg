SPECIFICATION Spec
CONSTANTS
  Masses = {"7.5", "9.8", "10.5", "11.6"}
  Times <- TimesC
  Tweaks <- TweaksC
INVARIANTS NeverAboveToday TodayAfterT0 PivotValue ReductionAtTc ImplementationsAgree EmitCases
