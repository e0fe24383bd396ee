SPECIFICATION SpecB
CHECK_DEADLOCK FALSE
ALIAS Where
