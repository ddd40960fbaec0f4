SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS GetSet SaveLoad WriteRead Canonical Align
PROPERTIES BandsOnly CopiesStay FilesStay
CHECK_DEADLOCK FALSE
