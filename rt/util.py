"""Helpers shared by workloads and oracles (independent of the code under test)"""
import calendar
from decimal import Decimal
from fractions import Fraction

from attotime import attodatetime, attotimedelta

# sampling frequencies met in practice, low to high, round and not
FS_COMMON = [
    0.0125, 0.0333, 0.05, 0.1, 0.2, 0.25, 0.3, 0.3125, 0.5, 1, 1 / 3, 2, 3, 4, 5, 7.5, 8, 10,
    12.5, 15, 16, 20, 24, 25, 32, 40, 50, 60, 64, 75, 100, 120, 125, 128, 150, 200, 250, 256,
    300, 400, 500, 512, 600, 800, 1000, 1024, 1200, 2000, 2048, 2400, 2560, 4000, 4096, 4800,
    8192, 9600, 10000, 15000, 16384, 19200, 24000, 32768, 48000, 65536, 96000, 131072, 262144,
    524288,
]


def delta_fraction(delta) -> Fraction:
    """attotimedelta to exact seconds"""
    return (
        Fraction(delta.days) * 86400
        + Fraction(delta.seconds)
        + Fraction(delta.microseconds) / 10 ** 6
        + Fraction(Decimal(delta.nanoseconds)) / 10 ** 9
    )


def fraction_delta(seconds: Fraction) -> attotimedelta:
    """Exact seconds to attotimedelta, rounded to 10 attoseconds

    Times have 28 significant digits counted from year 1, so this is their resolution
    """
    atto = 10 * round(Fraction(seconds) * 10 ** 17)
    micro, rem = divmod(atto, 10 ** 12)
    secs, micro = divmod(micro, 10 ** 6)
    days, secs = divmod(secs, 86400)
    return attotimedelta(
        days=days, seconds=secs, microseconds=micro, nanoseconds=Decimal(rem) / 10 ** 9
    )


def diff_seconds(a, b) -> Fraction:
    """a - b in exact seconds"""
    return delta_fraction(a - b)


def make_time(rng, base_year=None, subns=True) -> attodatetime:
    """A random high resolution time"""
    year = base_year or rng.choice([1970, 1999, 2000, 2012, 2020, 2021, 2024, 2030, rng.choice([1903, 1969, 2000, 2099, 2150])])
    kind = rng.random()
    month = rng.randint(1, 12)
    day = rng.randint(1, 28) if rng.random() < 0.8 else calendar.monthrange(year, month)[1]
    if kind < 0.35:
        return attodatetime(year, month, day)
    if rng.random() < 0.1:
        # the last moments of a day
        clock = (23, 59, 59)
    else:
        clock = (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    if kind < 0.6:
        return attodatetime(year, month, day, *clock)
    nano = Decimal(0)
    if kind > 0.8:
        nano = Decimal(rng.choice([rng.randint(0, 999), rng.randint(0, 999), 999]))
        if subns and kind > 0.9:
            nano += Decimal(rng.randint(0, 10 ** 8 - 1)) / 10 ** 8
    micro = rng.choice([rng.randint(0, 999999)] * 4 + [999999, rng.randint(0, 99)])
    return attodatetime(year, month, day, *clock, micro, nano)


def pick_fs(rng):
    r = rng.random()
    if r < 0.75:
        return float(rng.choice(FS_COMMON))
    if r < 0.9:
        return round(10 ** rng.uniform(-2, 5), rng.randint(0, 3)) or 1.0
    return 10 ** rng.uniform(-2, 5)


def time_tolerance(n, fs) -> Fraction:
    """What n sample periods may accumulate: a small part of a sample, no less than the
    resolution of the period itself"""
    return (
        n * Fraction(12, 10 ** 14)
        + Fraction(1, 10 ** 12)
        + Fraction(1, 10 ** 6) / Fraction(float(fs))
    )
