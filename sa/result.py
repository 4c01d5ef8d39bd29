class Finding:
    """key: rule + construct (no line numbers); where: file/function/line of today's source"""
    def __init__(self, key, where, msg): self.key = " ".join(key.split()); self.where = where; self.msg = msg
    def __repr__(self): return "%s @ %s: %s" % (self.key, self.where, self.msg)
class Result:
    def __init__(self, level="other"):
        self.findings = []; self.coverage = {}; self.level = level; self.summary = []; self.broken = []; self.gaps = []
    def add(self, key, where, msg): self.findings.append(Finding(key, where, msg))
