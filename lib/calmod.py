"""Calendar model: proleptic Gregorian, days from 2000-01-01."""
import calendar, datetime
E0 = datetime.date(2000, 1, 1).toordinal()


def mdays(y, m):
    return calendar.monthrange(y, m)[1]


def days(y, m, d):
    return datetime.date(y, m, d).toordinal() - E0


def ymd(n):
    x = datetime.date.fromordinal(n + E0)
    return x.year, x.month, x.day
