from ..isa.tim51 import Tim51


class C(Tim51):
    id = "C24"
    unit_name = "instructions"
    n_quick = 1500
    n_thorough = 30000


CHECK = C()
