from ..runcheck import RunCheck


class C13(RunCheck):
    id = "C13"
    rule = "the history was shown after instructions had been executed"
    n_quick = 8000
    limit = 40000
    big = 0.08
    weights = [(3, "brk"), (1, "ev"), (1, "delete"), (5, "step"), (6, "run"), (3, "runfrom"), (2, "next"), (1, "pc"),
               (2, "hist"), (3, "histn"), (2, "histinfo"), (1, "histclr")]

    def extra(self, s):
        s.op(["histn", 20000])
        s.op(["histinfo"])
        if len(s.m.hist) >= 10000:
            s.o.labels.append("full")

    def interesting(self, s, o, seen):
        return s.m.ninst > 0


CHECK = C13()
