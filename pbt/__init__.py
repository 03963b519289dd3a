"""Property-based checks of sunwhere. See DESIGN.md."""
