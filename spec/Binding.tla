------------------------------- MODULE Binding -------------------------------
(* For tools/binding.py: the trace specification, saying which episodes it   *)
(* explains to the end instead of stopping at the first it does not.         *)
EXTENDS Trace
Reached == Done /\ PrintT(<<"DONE", l>>)
NextB   == Read \/ DeepE \/ Lin \/ Map \/ Merge \/ Stack \/ FEq \/ Edits
        \/ ProjectE \/ KernE \/ KernRay \/ TileE \/ WideE \/ HugeE \/ VastE \/ VLearnE \/ VOutsE \/ BSave \/ FSave \/ Learning \/ Reached
SpecB   == Init /\ [][NextB]_vars
=============================================================================
