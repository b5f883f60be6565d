"""HTTP dates (RFC 9110, Section 5.6.7) and the clock-skew advice given for Date."""

DAY = "(Mon|Tue|Wed|Thu|Fri|Sat|Sun)"
LONG = "(Monday|Tuesday|Wednesday|Thursday|Friday|Saturday|Sunday)"
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
MON = "(" + "|".join(MONTHS) + ")"
TIME = "[0-9][0-9]:[0-9][0-9]:[0-9][0-9]"
IMF = f"^{DAY}, [0-9][0-9] {MON} [0-9][0-9][0-9][0-9] {TIME} GMT$"
RFC850 = f"^{LONG}, [0-9][0-9]-{MON}-[0-9][0-9] {TIME} GMT$"
ASCTIME = f"^{DAY} {MON} ([0-9][0-9]| [0-9]) {TIME} [0-9][0-9][0-9][0-9]$"


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_in(y, m):
    if m == 2:
        return 29 if leap(y) else 28
    return 30 if m == 4 or m == 6 or m == 9 or m == 11 else 31


def real(y, mo, d, h, mi, s):
    """whether these numbers are a date in the (proleptic) Gregorian calendar and a time of day"""
    if y < 1 or mo < 1 or mo > 12 or d < 1:
        return False
    return d <= days_in(y, mo) and h <= 23 and mi <= 59 and s <= 60


def year_of(y, two_digits):
    if not two_digits:
        return y
    return 1900 + y if y >= 69 else 2000 + y


def epoch(y, mo, d, h, mi, s):
    """seconds since 1970-01-01T00:00:00Z"""
    days = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
    for m in range(1, mo):
        days += days_in(y, m)
    return (days + d - 1 - 719162) * 86400 + h * 3600 + mi * 60 + s


def read(text):
    """(components with the full year, format) or (None, None); text is stripped"""
    import re
    if "\n" in text:
        return None, None
    for name, pat in (("imf", IMF), ("rfc850", RFC850), ("asctime", ASCTIME)):
        if re.match(pat, text):
            break
    else:
        return None, None
    w = text.replace("-", " ").replace(",", " ").split()
    if name == "asctime":
        mon, day, tm, year = w[1:5]
    else:
        day, mon, year, tm = w[1:5]
    h, mi, s = tm.split(":")
    c = (year_of(int(year), name == "rfc850"), MONTHS.index(mon) + 1, int(day), int(h), int(mi), int(s))
    return c, name


def parse(text):
    """(value or None, notes)"""
    c, name = read(text)
    if c is None or not real(*c):
        return None, ["BAD_DATE_SYNTAX"]
    return epoch(*c), [] if name == "imf" else ["DATE_OBSOLETE"]


def skew_note(value, response_time, age):
    """the clock note for a Date value; response_time in whole seconds, age the Age value or 0"""
    skew = value - response_time + age
    if age > 5 and value - response_time > -5:
        return "AGE_PENALTY"
    if skew > 5 or skew < -5:
        return "DATE_INCORRECT"
    return "DATE_CORRECT"
