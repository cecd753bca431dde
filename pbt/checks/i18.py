from ..isa.oisc import OISC


class C(OISC):
    id = "I18"


CHECK = C()
