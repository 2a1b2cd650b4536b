"""gai - gated-SSA value numbering for the flixOpt sources (see DESIGN.md)."""
