class CaseTimeout(BaseException):
    pass


class Undecided(Exception):
    pass


class Done(Exception):
    """The case ends here; what it observed (and any violation) is recorded in the monitor."""
