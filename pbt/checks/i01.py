from ..isa.z80 import Z80


class C(Z80):
    id = "I01"


CHECK = C()
