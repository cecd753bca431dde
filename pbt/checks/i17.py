from ..isa.sm83 import SM83


class C(SM83):
    id = "I17"


CHECK = C()
