TRUSTED = [
    "pyvc (this directory): mechanical extraction, symbolic proxies, path exploration, facades",
    "CPython 3.12 executing the repository's statements",
    "z3 4.x (python bindings) and cvc5 1.1.2 as back ends",
    "floats are treated as mathematical reals; nan and +-inf only as explicit values",
    "partial correctness: loop termination is not proved",
    "axioms of external mathematics listed in pyvc/theory.py",
]
