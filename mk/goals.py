"""Obligations and their verdicts."""
HOLDS, VIOLATED, UNDECIDED = "holds", "violated", "undecided"


class Goal:
    def __init__(self, key, status, where, detail="", rule=""):
        self.key = key          # stable identifier, no line numbers
        self.status = status
        self.where = where      # function (span)
        self.detail = detail
        self.rule = rule
        self.config = None

    def __repr__(self):
        return "[%s] %s @ %s: %s" % (self.status, self.key, self.where, self.detail)


def short(span):
    return span.replace("crates/minikalman/src/", "")
