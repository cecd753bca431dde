from ..isa.f8 import F8


class C(F8):
    id = "I09"


CHECK = C()
