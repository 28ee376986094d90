import Lean.Meta.Tactic.Simp.RegisterCommand
/-- symbolic-execution rules for the program semantics and the library models -/
register_simp_attr gs
