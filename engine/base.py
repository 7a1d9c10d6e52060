"""Contract base class, shared by the symbolic verifier and the concrete conformance runner."""


class Reject(Exception):
    """The generated input does not satisfy the precondition."""


class Unit:
    """A contract on one repository function (or a composition of a few).

    make(g, case)            builds the inputs and states the precondition
    call(fns, inp, case)     calls the real function
    post(o, inp, res, case)  states the postcondition as named obligations
    stub(o, args)            the contract as seen by callers (result description)
    """

    name = "?"
    target = "?"
    cases = [{}]
    conc_cases = None  # cases of the concrete conformance run (default: cases)
    uses = ()  # names of units whose contract replaces the call site
    stub = None
    stub_target = None
    symbolic = True  # False: bounded stand-in only
    public = False  # goes through documented entry points only: any exception counts
    concrete = True
    n_random = 30
    budget = 40.0
    doc = ""
    loops = {}

    def make(self, g, case):
        raise NotImplementedError

    def call(self, fns, inp, case):
        return fns(self.target)(**inp.args)

    def post(self, o, inp, res, case):
        raise NotImplementedError


REGISTRY = {}


def register(cls):
    u = cls()
    assert u.name not in REGISTRY, u.name
    REGISTRY[u.name] = u
    return cls
