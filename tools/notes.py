NA = {}
EXTRA = {}
