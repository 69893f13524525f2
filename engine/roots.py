"""Registry of the properties' root obligations."""
JOBS = {}          # property -> [(title, fn(c), tier)]

def job(prop, title, tier='quick', weight=1):
    def d(fn):
        JOBS.setdefault(prop, []).append((title, fn, tier, weight))
        return fn
    return d
