class Finding(object):
    def __init__(self, rule, key, file, line, msg, where=()):
        self.rule, self.key, self.file, self.line, self.msg, self.where = rule, key, file, line, msg, list(where)

    def text(self):
        s = '%s[%s] %s (instance %s)' % ('%s:%s: ' % (self.file, self.line) if self.file else '', self.rule, self.msg, self.key)
        for w in self.where:
            s += '\n      via ' + w
        return s


class Result(object):
    def __init__(self):
        self.findings, self.undecided, self.coverage, self.assumptions = [], [], {}, []

    @staticmethod
    def merge(parts):
        if len(parts) == 1:
            return parts[0]
        r = Result()
        for i, p in enumerate(parts):
            r.findings += p.findings
            r.undecided += p.undecided
            r.assumptions += p.assumptions
            for k, v in p.coverage.items():
                if k not in r.coverage:
                    r.coverage[k] = v
                elif isinstance(v, int) and not isinstance(v, bool):
                    r.coverage[k] += v
                elif isinstance(v, list):
                    r.coverage[k] = r.coverage[k] + v
                elif isinstance(v, dict):
                    r.coverage[k] = dict(r.coverage[k], **v)
                elif isinstance(v, str) and v != r.coverage[k]:
                    r.coverage[k] += ' | ' + v
        return r
