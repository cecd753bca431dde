from ..memmodel import MemCheck


class C(MemCheck):
    id = "C02"
    n_quick = 6000
    n_thorough = 60000
    weights = [(3, "set"), (1, "fill"), (1, "wr"), (12, "dump"), (2, "dumpbits"), (4, "rt")]
    rule = ("a case is 1..14 memory commands, mostly dumps in every format, on 3..8 memories 1 to 32 bits wide; "
            "non-trivial when at least one dump or change of existing cells was made")


CHECK = C()
