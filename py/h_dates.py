"""fix_datetime: from a time of day to a full timestamp around midnight."""


def two(v): return f"{v:02d}"


def nearest(e):
    """when payload and receiver clocks agree within the rollover window, the timestamp is the one nearest to the receiver's clock"""
    m = e.mod("delegates")
    band = e.params["band"]
    lo, hi = {"early": (0, 3600), "late": (82800, 86400), "day": (3600, 82800)}[band]
    now = e.int("now", lo, hi - 1)
    day = e.int("day", 19000, 25000) if e.params.get("days") else 20000
    us = e.params.get("us", 0)
    local = None
    if e.params.get("given"):                                            # the receiver's time as text instead of the clock
        day = e.pick("date", [("2024-02-28", 19781), ("2024-02-29", 19782), ("2023-12-31", 19722), ("2024-01-01", 19723), ("2024-04-30", 19843), ("2024-03-01", 19783)])
        hh = now // 3600
        local, day = day[0] + "T" + two(hh) + ":" + two(now // 60 % 60) + ":" + two(now % 60) + "Z", day[1]
    else: e.now(day, now, us)
    h, mi, s = e.int("h", 0, 23), e.int("m", 0, 59), e.int("s", 0, 59)
    r = m.fix_datetime(two(h) + ":" + two(mi) + ":" + two(s), *([local] if local is not None else []))
    d, sec, micro = e.dt_parts(r)
    tod = h * 3600 + mi * 60 + s
    e.check(sec == tod, "the time of day is kept")
    diff = (d - day) * 86400 + sec - now
    # how far is the payload's time of day from ours, the short way round the clock?
    raw = tod - now
    short = e.ite(raw > 43200, raw - 86400, e.ite(raw < -43200, raw + 86400, raw))
    same_side = e.either(e.both(h == 23, now < 3600), e.both(h == 0, now >= 82800))
    e.check(e.implies(same_side, diff == short), "the date rolls over at midnight")
    e.check(e.implies(e.neg(same_side), d == day), "the date is today's")
    e.check(e.implies(e.both(short < 3600, short > -3600), diff == short), "the timestamp nearest to the receiver's clock")
    e.check(r.tzinfo is not None, "the timestamp has a time zone")
    e.cover("fixed")
