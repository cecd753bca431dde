from ..isa.stm8 import STM8


class C(STM8):
    id = "I10"


CHECK = C()
