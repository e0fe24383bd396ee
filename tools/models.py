"""Which models TLC checks for which property (see spec/MC_*.tla)."""
from collections import namedtuple

# refuted: None, or the property TLC must find violated (a design known not to have it)
Model = namedtuple("Model", "name module cfg refuted")
Model.__new__.__defaults__ = (None,)

Q, T = "quick", "thorough"
MODELS = {
    # property: [(cfg/<name>.cfg of the module named before "__", refuted property or None, tiers)]
    "C01": [("MC_Features__read", None, (Q, T)), ("MC_Features__read_t", None, (T,)), ("MC_Vast__read", None, (Q, T)), ("MC_Vast__read_t", None, (T,))],
    "C02": [("MC_Features__lin", None, (Q, T)), ("MC_Features__lin_t", None, (T,)), ("MC_Huge", None, (Q, T)), ("MC_Vast__lin", None, (Q, T)), ("MC_Vast__lin_t", None, (T,))],
    "C03": [("MC_Features__map", None, (Q, T)), ("MC_Features__map_t", None, (T,)), ("MC_Vast__map", None, (Q, T)), ("MC_Vast__map_t", None, (T,))],
    "C04": [("MC_Features__merge", None, (Q, T)), ("MC_Features__merge_t", None, (T,)), ("MC_Huge", None, (Q, T)), ("MC_Vast__merge", None, (Q, T)), ("MC_Vast__merge_t", None, (T,))],
    "C05": [("MC_Features__stack", None, (Q, T)), ("MC_Features__stack_t", None, (T,)), ("MC_Huge", None, (Q, T)), ("MC_Vast__stack", None, (Q, T)), ("MC_Vast__stack_t", None, (T,))],
    "C06": [("MC_Edits", None, (Q, T)), ("MC_Edits__t", None, (T,)), ("MC_Vast__edit", None, (Q, T)), ("MC_Vast__edit_t", None, (T,))],
    "C07": [("MC_Inplace__commit", None, (Q, T)), ("MC_Inplace__takeout", "Survives", (Q, T)), ("MC_Inplace__commit_t", None, (T,))],
    "C08": [("MC_Bases__C08", None, (Q, T)), ("MC_Bases__C08_t", None, (T,))],
    "C09": [("MC_Terms", None, (Q, T)), ("MC_Terms__t", None, (T,))],
    "C10": [("MC_Grid", None, (Q, T)), ("MC_Grid__t", None, (T,))],
    "C11": [("MC_Tiles__euclid", None, (Q, T)), ("MC_Tiles__truncate", "IsTile", (Q, T)), ("MC_Tiles__euclid_t", None, (T,))],
    "C12": [("MC_Kernels", None, (Q, T)), ("MC_Kernels__t", None, (T,))],
    "C13": [("MC_Bases__C13", None, (Q, T)), ("MC_Bases__C13_t", None, (T,))],
    "C14": [("MC_Bases__C14", None, (Q, T)), ("MC_Bases__C14_t", None, (T,))],
    "C15": [("MC_Learner__C15", None, (Q, T)), ("MC_Learner__C15swap", None, (Q, T)), ("MC_Learner__C15_t", None, (T,)), ("MC_Learner__C15swap_t", None, (T,))],
    "C16": [("MC_Optim__all", None, (Q, T)), ("MC_Optim__zero", None, (Q, T)), ("MC_Optim__t", None, (T,)), ("MC_Vast__step", None, (Q, T)), ("MC_Vast__step_t", None, (T,))],
    "C17": [("MC_Optim__all", None, (Q, T)), ("MC_Optim__keep", "AsNew", (Q, T)), ("MC_Optim__t", None, (T,))],
    "C18": [("MC_Learner__C18s", None, (Q, T)), ("MC_Learner__C18v", None, (Q, T)), ("MC_Learner__C18early", "FailKeeps", (Q, T)), ("MC_Learner__C18_t", None, (T,))],
    "C19": [("MC_Learner__C19", None, (Q, T)), ("MC_Learner__C19own", None, (Q, T)), ("MC_Learner__C19shared", "Independent", (Q, T)),
            ("MC_Learner__C19stateless", None, (Q, T)), ("MC_Learner__C19_t", None, (T,))],
    "C20": [("MC_Learner__C20", None, (Q, T)), ("MC_Learner__C20v", None, (Q, T)), ("MC_Learner__C20partial", "SameAsOriginal", (Q, T)), ("MC_Learner__C20_t", None, (T,))],
    "C21": [("MC_Optim__all", None, (Q, T)), ("MC_Optim__zero", None, (Q, T)), ("MC_Optim__t", None, (T,)), ("MC_Vast__step", None, (Q, T)), ("MC_Vast__step_t", None, (T,))],
    "C22": [("MC_Learner__C22", None, (Q, T)), ("MC_Learner__C22_t", None, (T,))],
    "C23": [("MC_Features__eq", None, (Q, T)), ("MC_Features__eq_t", None, (T,)), ("MC_Vast__eq", None, (Q, T)), ("MC_Vast__eq_t", None, (T,))],
}


def of(prop, tier):
    out = []
    for name, refuted, tiers in MODELS.get(prop, []):
        if tier in tiers:
            out.append(Model(name, name.split("__")[0], "cfg/%s.cfg" % name, refuted))
    return out
