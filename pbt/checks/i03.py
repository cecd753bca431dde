from ..isa.mcs51 import MCS51


class C(MCS51):
    id = "I03"


CHECK = C()
