"""Repository-specific abstract interpreter for GroCo (stdlib only)."""
