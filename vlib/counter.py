"""Counts evaluations wherever a (pickled) function runs in this process."""
N = 0
SEEN = {}
TRIP = None


class Trip(ArithmeticError):
    pass


KINDS = {'ValueError': ValueError, 'RuntimeError': RuntimeError, 'FloatingPointError': FloatingPointError, 'KeyError': KeyError,
         'TypeError': TypeError, 'ZeroDivisionError': ZeroDivisionError, 'Trip': Trip}


def reset(trip=None):
    global N, TRIP
    N, TRIP = 0, trip
    SEEN.clear()


def bump(y):
    global N
    N += 1
    h = y.tobytes()
    SEEN[h] = SEEN.get(h, 0) + 1
    if TRIP is not None and N >= TRIP[0]:
        raise KINDS[TRIP[1]]('broken arc')
