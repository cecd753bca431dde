from ..runcheck import RunCheck


class C07(RunCheck):
    id = "C07"
    n_quick = 12000
    rule = ("the session executed the program and it was stopped at least once by a fetch breakpoint at the place "
            "and time the model predicts")
    weights = [(9, "brk"), (2, "clear"), (2, "delete"), (2, "cmd"), (1, "disp"), (0.5, "undisp"), (3, "step"),
               (8, "run"), (2, "runfrom"), (3, "next"), (1, "pc"), (2, "info"), (0.7, "poke"), (0.5, "ev")]

    def interesting(self, s, o, seen):
        return "stop104" in o.labels


CHECK = C07()
