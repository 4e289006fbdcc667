"""Exact disguises of a geometry pair: maps which keep every relation.

A dressing is data (it goes to replay files); ``apply`` gives plain data with
int/Fraction coordinates, ``numbers`` the numeric type of every coordinate."""
from fractions import Fraction

from cfractions import Fraction as CFraction

from . import gen

DIHEDRAL = [(1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0),
            (-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0), (0, -1, -1, 0)]


def random_linear(rng, level):
    """(a, b, c, d) of an invertible exact linear map"""
    choice = rng.randint(0, 5)
    if choice <= 1:
        return rng.choice(DIHEDRAL)
    if choice == 2:
        k = random_scale(rng)
        return (k, 0, 0, k)
    if choice == 3:
        # unimodular, possibly huge entries: nearly degenerate pictures
        big = 1 << rng.choice((1, 2, 3, 8, 20, 30))
        k, m = rng.randint(-big, big), rng.randint(-3, 3)
        return ((1, k, m, 1 + k * m) if rng.random() < 0.5
                else (1 + k * m, k, m, 1))
    if choice == 4:
        return (random_scale(rng), 0, 0, random_scale(rng))
    while True:
        matrix = tuple(rng.randint(-9, 9) for _ in range(4))
        if matrix[0] * matrix[3] - matrix[1] * matrix[2]:
            return matrix


def random_scale(rng):
    choice = rng.randint(0, 5)
    if choice == 0:
        return Fraction(1, rng.choice((2, 3, 7, 10, 1 << 20)))
    if choice == 1:
        return Fraction(rng.randint(1, 100), rng.randint(1, 100))
    if choice == 2:
        return rng.choice((10 ** 6, 10 ** 18, 10 ** 40, 1 << 100))
    if choice == 3:
        return Fraction(1, 1 << rng.choice((30, 100, 500, 900)))
    return rng.randint(2, 12)


def random_offset(rng):
    choice = rng.randint(0, 5)
    if choice <= 1:
        return 0
    if choice == 2:
        return rng.randint(-30, 30)
    if choice == 3:
        return rng.choice((-1, 1)) * rng.choice((1 << 31, 1 << 53,
                                                 (1 << 53) + 1, 10 ** 15,
                                                 1 << 62, 10 ** 30))
    if choice == 4:
        return Fraction(rng.randint(-99, 99), rng.choice((2, 4, 8, 3, 7)))
    return -rng.randint(0, 12)


NUMBERS = ('int', 'float', 'fraction', 'cfraction', 'mixed', 'mixed')


def random_dressing(rng, plain=0.4):
    if rng.random() < plain:
        matrix, offset = (1, 0, 0, 1), (0, 0)
        if rng.random() < 0.5:
            # pictures are generated in the first quadrant
            offset = (-rng.randint(0, 6), -rng.randint(0, 6))
    else:
        matrix = random_linear(rng, 0)
        offset = (random_offset(rng), random_offset(rng))
    return {'matrix': matrix, 'offset': offset,
            'number': ('int' if rng.random() < plain
                       else rng.choice(NUMBERS)),
            'salt': rng.getrandbits(32)}


IDENTITY = {'matrix': (1, 0, 0, 1), 'offset': (0, 0), 'number': 'int',
            'salt': 0}


def simplify(value):
    if isinstance(value, Fraction) and value.denominator == 1:
        return value.numerator
    return value


def mapping(dressing):
    a, b, c, d = dressing['matrix']
    u, v = dressing['offset']
    return lambda p: (simplify(a * p[0] + b * p[1] + u),
                      simplify(c * p[0] + d * p[1] + v))


def apply(dressing, kind, geometry):
    return gen.transform(kind, geometry, mapping(dressing))


def as_float(value):
    """exactly representable float, else None"""
    try:
        result = float(value)
    except OverflowError:
        return None
    return result if Fraction(result) == value else None


def as_fraction(value):
    return Fraction(value)


def as_cfraction(value):
    value = Fraction(value)
    return CFraction(value.numerator, value.denominator)


def number_maker(dressing):
    """coordinate (int | Fraction) -> number of the chosen type"""
    import random
    kind = dressing['number']
    rng = random.Random(dressing['salt'])
    used = set()

    def make(value):
        chosen = kind
        if kind == 'mixed':
            chosen = rng.choice(('int', 'float', 'fraction', 'cfraction'))
        if chosen == 'int' and isinstance(value, int):
            used.add('int')
            return value
        if chosen == 'float':
            result = as_float(value)
            if result is not None:
                used.add('float')
                if not result and rng.random() < 0.3:
                    result = -0.0
                return result
        if chosen == 'cfraction' or isinstance(value, int) and (
                chosen == 'fraction' and rng.random() < 0.3):
            used.add('cfraction')
            return as_cfraction(value)
        if chosen == 'fraction' or not isinstance(value, int):
            used.add('fraction')
            return as_fraction(value)
        used.add('int')
        return value

    make.used = used
    return make
