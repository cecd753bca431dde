from ..isa.i8048 import I8048


class C(I8048):
    id = "I13"


CHECK = C()
