from ..runcheck import RunCheck


class C08(RunCheck):
    id = "C08"
    n_quick = 10000
    rule = ("the session executed the program and it was stopped at least once by an event breakpoint after the "
            "instruction the model predicts")
    weights = [(9, "ev"), (1.5, "delete"), (1.5, "cmd"), (1, "disp"), (3, "step"),
               (8, "run"), (1.5, "runfrom"), (1, "next"), (1, "pc"), (1.5, "info"), (1, "poke"), (1, "pokee"),
               (1.5, "look"), (1, "brk")]

    def interesting(self, s, o, seen):
        return "stop112" in o.labels


CHECK = C08()
