"""What a check returns."""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []      # dicts: key, what, where, path
        self.inconclusive = []
        self.coverage = {}
        self.assumptions = []
        self.rule = ""

    def violation(self, key, what, where="", path=()):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "what": what, "where": where, "path": list(path)})

    def undecided(self, what):
        if what not in self.inconclusive:
            self.inconclusive.append(what)

    def count(self, k, n=1):
        self.coverage[k] = self.coverage.get(k, 0) + n


def where(file, line):
    return "%s:%s" % (file.replace("/repo/", ""), line)
