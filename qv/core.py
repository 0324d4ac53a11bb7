"""What a property module is made of."""


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key  # identifies a known finding, if it is one


class Skip(Exception):
    """Nothing to decide here: an internal method this check needs is not there (any more)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Part:
    """One generated check of a property.

    strategy(tier) -> hypothesis strategy of JSON-serialisable cases
    check(case) -> (nontrivial, labels); raises Violation
    quick / thorough: number of generated cases (over all workers)
    """

    def __init__(self, name, strategy, check, quick, thorough, fixed=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.fixed = list(fixed)
