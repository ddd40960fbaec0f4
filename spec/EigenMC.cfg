SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS GetSet SaveLoad WriteRead Canonical Align
PROPERTIES BandsOnly CopiesStay FilesStay
CHECK_DEADLOCK FALSE
