"""Setup step: make sure the solver and the code under test can be imported and the engines agree on a small circuit."""
import sys


def main():
    from .env import setup
    setup()
    from .smt import z3
    from .prog import sym_input, inbit, Spec, verify_circuit, Violation
    import qrisp
    from qrisp import QuantumVariable, mcx
    for wrong in (False, True):
        a = QuantumVariable(3)
        sym_input(a.reg, "a")
        mcx(list(a.reg[:2]), a.reg[2], method="gray")
        sp = Spec()
        b = [inbit("a[%d]" % i) for i in range(3)]
        t = z3.Xor(b[2], z3.Or(b[0], b[1]) if wrong else z3.And(b[0], b[1]))
        sp.reg(a.reg, [b[0], b[1], t], "a")
        try:
            verify_circuit(a.qs.compile(), sp)
            seen = False
        except Violation:
            seen = True
        if seen != wrong:
            print("selftest failed")
            return 3
    print("selftest ok: z3 %s, qrisp from %s" % (z3.get_version_string(), qrisp.__file__))
    return 0


if __name__ == "__main__":
    sys.exit(main())
