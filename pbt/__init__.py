"""Property-based checks of pymantic. See DESIGN.md."""
