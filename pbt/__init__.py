"""Property-based checks of graphicle."""
