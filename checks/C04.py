"""C04: optionals carry a value or exactly the first fault."""
from vf import pbt, prog
from checks import C03


class Programs(C03.Programs):
    name = "optional-programs"
    quick, thorough = 3000, 60000
    opts = dict(opt=True)

    def nontrivial(self, c):
        w, ran = prog.expected(c)
        st = prog.stats(c)
        return len(w) >= 6 and bool(st & {"F"}) and bool(st & {"??", "!", "ok", "ct", "catch", "try", "unwrap"})


class C04(pbt.Check):
    id = "C04"
    rule = "the program prints at least 6 lines, raises a fault somewhere and handles optionals in at least one way; distinct by program and optimisation level"
    assumptions = C03.C03.assumptions + ["force unwrap (!!) of a fault belongs to C10"]
    families = [Programs()]


CHECK = C04()
