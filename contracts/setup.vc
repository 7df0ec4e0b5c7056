@# What is left out of the Verus text (see DESIGN.md).
@derive_eq dynamic::hierarchy::traverse::DftEvent
@derive_eq dynamic::forest::debug_print::LineState
@fmt dynamic::forest::debug_print
