SPECIFICATION Spec
ALIAS Where
