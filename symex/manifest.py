LEVELS = {}
