"""Source- and IR-level rules (not scenario based)."""

RULES = {}


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def run(prop, repo, work, tier):
    out = []
    for f in RULES.get(prop, []):
        out.append(f(repo, work))
    return out
