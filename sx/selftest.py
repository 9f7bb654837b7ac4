"""setup_cmd: the tools the checks need are there and the engine decides."""
import sys


def main():
    from . import loader

    loader.install(True)
    import koreo.result  # instrumented import works
    from . import core  # appends z3's location
    import z3

    x = z3.Int("x")
    s = z3.Solver()
    s.add(x > 2, x < 4)
    assert s.check() == z3.sat and s.model()[x].as_long() == 3
    print("ok: z3", z3.get_version_string(), "python", sys.version.split()[0])


main()
