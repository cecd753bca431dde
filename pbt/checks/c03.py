from ..memmodel import MemCheck


class C(MemCheck):
    id = "C03"
    n_quick = 6000
    n_thorough = 60000
    weights = [(6, "set"), (5, "fill"), (2, "wr"), (2, "setbits"), (1, "dump"), (6, "where"), (4, "hole")]
    rule = ("a case is 1..14 commands that change or search memory, on 3..8 memories 1 to 32 bits wide; "
            "non-trivial when at least one command changed or found cells")


CHECK = C()
