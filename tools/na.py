"""Properties that are stated but not decided, and the guarded source commits."""
HOOKS = ["6d6ad46", "0d1fbf0", "aa25623", "68ebf4d"]
NOT_APPLICABLE = []
