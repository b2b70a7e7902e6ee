NOT = {}
LIMITS = {}
