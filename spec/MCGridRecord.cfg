SPECIFICATION Spec
CONSTANTS Full = 24
 None = 99999
 Turn = 36
 Odd = 1
 Keys = {"HTSGW", "PERPW", "DIRPW", "WIND", "WDIR", "SWELL_1", "SWPER_1", "SWDIR_1", "WVHGT", "WVPER", "WVDIR"}
INVARIANTS Same Among
CHECK_DEADLOCK FALSE
