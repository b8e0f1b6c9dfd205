"""Reference calendar, independent of pandas periods: only datetime arithmetic."""

import datetime as dt

from hypothesis import strategies as st

DAY = dt.timedelta(days=1)
WEEKDAYS = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def add_months(d, n):
    m = d.year * 12 + d.month - 1 + n
    return dt.datetime(m // 12, m % 12 + 1, 1)


def parse(s):
    return dt.datetime.fromisoformat(s)


@st.composite
def dates(draw, lo=1700, hi=2199):
    """ISO dates; half of them close to a year end or the end of February, many in century and leap years"""
    year = draw(st.one_of(st.integers(lo, hi), st.integers(1995, 2030),
                          st.sampled_from([y for y in (1700, 1800, 1896, 1900, 1904, 1999, 2000, 2001, 2003, 2004, 2096, 2100, 2104)
                                           if lo <= y <= hi])))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        d = dt.datetime(year, 1, 1) + DAY * draw(st.integers(-12, 12))
    elif kind == 1:
        d = dt.datetime(year, 3, 1) + DAY * draw(st.integers(-12, 12))
    else:
        d = dt.datetime(year, 1, 1) + DAY * draw(st.integers(0, 364))
    return d.strftime("%Y-%m-%d")


class Step:
    """A time-step length: kind D, h, W, M, Q, Y and a multiple."""

    def __init__(self, kind, n=1, anchor=None):
        self.kind, self.n, self.anchor = kind, n, anchor

    @property
    def freq(self):
        s = {"D": "D", "h": "h", "W": "W", "M": "M", "Q": "Q", "Y": "Y"}[self.kind]
        s = s if self.n == 1 else "%d%s" % (self.n, s)
        return s + ("-" + self.anchor if self.anchor else "")

    def base(self, d):
        """start of the base unit that contains d"""
        if self.kind == "h":
            return d.replace(minute=0, second=0, microsecond=0)
        d = dt.datetime(d.year, d.month, d.day)
        if self.kind == "D":
            return d
        if self.kind == "W":
            last = WEEKDAYS.index(self.anchor or "SUN")
            return d - DAY * ((d.weekday() - last - 1) % 7)
        if self.kind == "M":
            return dt.datetime(d.year, d.month, 1)
        if self.kind == "Q":
            last = MONTHS.index(self.anchor or "DEC")          # a quarter ends with this month
            return add_months(dt.datetime(d.year, d.month, 1), -((d.month - 1 - last - 1) % 3))
        return dt.datetime(d.year, 1, 1)

    def unit(self, d, n):
        if self.kind == "h":
            return d + dt.timedelta(hours=n)
        if self.kind == "D":
            return d + DAY * n
        if self.kind == "W":
            return d + DAY * 7 * n
        return add_months(d, n * {"M": 1, "Q": 3, "Y": 12}[self.kind])

    def periods(self, start, end, extra=0):
        """[(start, end)] of the time-steps between two dates"""
        cur, last, out = self.base(start), self.base(end), []
        while cur <= last or extra > 0:
            if cur > last:
                extra -= 1
            nxt = self.unit(cur, self.n)
            out.append((cur, nxt))
            cur = nxt
        return out

    def label(self, s):
        """the day pandas takes the fields of a period from: the last day of its first base unit"""
        if self.kind in ("D", "h"):
            return s
        return self.unit(s, 1) - DAY


def profile_day(d):
    """0-365; 29 February has slot 59"""
    i = d.timetuple().tm_yday - 1
    return i + 1 if not leap(d.year) and i > 58 else i


def week(d):
    return min(profile_day(d) // 7, 51)


def day_span(a, b, lo, hi):
    """days of [a, b) inside [lo, hi)"""
    s, e = max(a, lo), min(b, hi)
    return max((e - s).total_seconds(), 0.0) / 86400.0


@st.composite
def step_specs(draw, kinds="DDDDhWMQY"):
    k = draw(st.sampled_from(list(kinds)))
    if k == "D":
        form = draw(st.sampled_from(["int", "timedelta", "str"]))
        return {"kind": "D", "n": draw(st.one_of(st.just(1), st.integers(1, 40), st.sampled_from([7, 30, 365, 366, 400]))),
                "form": form, "anchor": None}
    n = draw(st.integers(1, 3))
    if k == "h":
        n = draw(st.sampled_from([1, 3, 6, 12, 24, 36]))
    anchor = None
    if k == "W":
        anchor = draw(st.sampled_from([None] + WEEKDAYS))
    if k == "Q":
        anchor = draw(st.sampled_from([None] + MONTHS))
    if k == "Y":
        n = 1
    return {"kind": k, "n": n, "form": "str", "anchor": anchor}


def make_step(s):
    step = Step(s["kind"], s["n"], s["anchor"])
    if s["form"] == "int":
        return step, s["n"]
    if s["form"] == "timedelta":
        return step, dt.timedelta(days=s["n"])
    return step, step.freq
