from ..isa.pblaze import PicoBlaze


class C(PicoBlaze):
    id = "I15"


CHECK = C()
