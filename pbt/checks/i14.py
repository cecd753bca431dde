from ..isa.p1516 import P1516


class C(P1516):
    id = "I14"


CHECK = C()
