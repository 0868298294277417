"""P06: dates, their texts and milliseconds stand for the same instant, in every time zone."""
import itertools
import os
import time
from datetime import datetime, timedelta, timezone
from mc import core, looks, model, spaces, xesdoc
from mc.core import Family, same, expect

LEVEL = "model_checking"
ASSUMPTIONS = ["dates without a zone stand for UTC", "texts keep milliseconds"]
ZONES = ["UTC", core.ZONE, "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+14>-14", "<-11>11",
         "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45"]


def in_zones(zones, action):
    try:
        for zone in zones:
            os.environ["TZ"] = zone
            time.tzset()
            action(zone)
    finally:
        os.environ["TZ"] = core.ZONE
        time.tzset()


def attribute(value):
    from opyenxes.model.XAttributeTimestamp import XAttributeTimestamp
    return XAttributeTimestamp("d", value)


def text_of(value):
    y, mo, d, h, mi, s, us, offset = value
    zone = "Z" if not offset else "%s%02d:%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)
    return "%04d-%02d-%02dT%02d:%02d:%02d.%03d%s" % (y, mo, d, h, mi, s, us // 1000, zone)


def date_check(ctx, values, zones=ZONES[:1]):
    from opyenxes.utils.XsDateTimeConversion import parse_date_time

    def run(zone):
        for value in values:
            moment = model.model_datetime(value)
            canonical = model.canon_datetime(moment)
            ctx.state(repr(value))
            attr = attribute(moment)
            same(attr.get_value(), moment, "value of a timestamp (TZ=%s)" % zone)
            same(attr.get_value_millis(), canonical[0], "milliseconds of %s (TZ=%s)" % (moment, zone))
            same(str(attr), text_of(value), "text of %s (TZ=%s)" % (moment, zone))
            read = parse_date_time(str(attr))
            expect(read is not None and read.tzinfo is not None, "text of", moment, "was not read back")
            same(model.canon_datetime(read), canonical, "text %s read back (TZ=%s)" % (str(attr), zone))
            other = attribute(0)
            other.set_value(moment)
            same((other.get_value(), str(other)), (moment, str(attr)), "timestamp after set_value")
            same(model.canon_datetime(attr.clone().get_value()), canonical, "clone of a timestamp")
            ctx.step(6)
    in_zones(zones, run)


def summer_time(ctx, case):
    """A zone whose offset changes: the hour that is skipped and the hour that comes twice."""
    from opyenxes.extension.std.XTimeExtension import XTimeExtension
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.utils.XsDateTimeConversion import parse_date_time
    day, fold = case
    base = datetime(2020, 3, 29, 1, 30) if day == "spring" else datetime(2020, 10, 25, 1, 30)
    for minutes in range(0, 180):
        for micros in (0, 999000):
            moment = (base + timedelta(minutes=minutes, microseconds=micros)).replace(tzinfo=model.SUMMER_TIME, fold=fold)
            offset = moment.utcoffset() // timedelta(minutes=1)
            millis = model.microseconds(moment) // 1000
            text = text_of(moment.timetuple()[:6] + (micros, offset))
            event = XFactory.create_event()
            XTimeExtension().assign_timestamp(event, moment)
            assigned = event.get_attributes()["time:timestamp"]
            setter = attribute(0)
            setter.set_value(moment)
            for attr in (attribute(moment), attribute(moment).clone(), setter, assigned):
                same(attr.get_value_millis(), millis, "milliseconds of %s, fold %d" % (moment, fold))
                same(str(attr), text, "text of %s, fold %d" % (moment, fold))
                same(attr.get_value().utcoffset() // timedelta(minutes=1), offset, "offset of %s, fold %d" % (moment, fold))
            same(model.canon_datetime(parse_date_time(str(assigned))), (millis, offset), "text %s read back" % assigned)
            same(model.canon_datetime(XTimeExtension().extract_timestamp(event)), (millis, offset), "timestamp of the event")
            ctx.step(14)
            ctx.state(repr((text, fold)))


def millis_values(tier):
    low, high = -62135596800000, 253402300799999
    yield from range(-2500, 2501)
    for base in (10 ** 3, 60000, 3600000, 86400000):
        for k in range(-400, 401):
            for delta in (-1, 0, 1, 999):
                yield base * k + delta
    for k in range(0, 48):
        for delta in (-1, 0, 1):
            for sign in (1, -1):
                if low <= sign * (2 ** k) + delta <= high:
                    yield sign * (2 ** k) + delta
    for year in range(1, 10000):
        for month, day in spaces.days_of(year):
            if day == 1 and (tier != "quick" or month in (1, 3)):
                start = (datetime(year, month, day, tzinfo=timezone.utc) - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(milliseconds=1)
                yield from range(max(low, start - 1), start + 2)
    yield from (low, low + 1, high - 1, high)
    # a day around every change of summer time of the years 2015 and 2016
    for start in (1425798000000, 1446339600000, 1459036800000, 1477785600000, 1443279600000, 1428148800000):
        yield from range(start - 7200000, start + 7200001, 300000)


def zone_values():
    """Seconds around 1970, and every quarter of an hour of some days on which
    a zone changes its offset."""
    yield from range(-20, 21)
    for base in (1000, 60000, 3600000, 86400000):
        for k in (-400, -365, -100, -25, -24, -2, -1, 1, 2, 24, 25, 100, 365, 400):
            yield from range(base * k - 1, base * k + 2)
    yield from (-62135596800000, -1, 0, 253402300799999)
    for start in (1425798000000, 1446339600000, 1459036800000, 1477785600000, 1443279600000, 1428148800000):
        yield from range(start - 7200000, start + 7200001, 900000)


def zone_dates():
    for year in (1, 1969, 1970, 2015, 2016, 9999):
        for month, day in ((1, 1), (2, 28), (3, 8), (3, 29), (4, 5), (9, 27), (10, 25), (11, 1), (12, 31)):
            for hour, minute in ((0, 0), (1, 30), (2, 0), (2, 30), (3, 0), (23, 59)):
                for offset in (None, 0, 60, -300, 345):
                    yield [year, month, day, hour, minute, 0, 250000, offset]


def millis_check(ctx, values, zones=ZONES[:2]):
    from opyenxes.factory.XFactory import XFactory
    from opyenxes.extension.std.XTimeExtension import XTimeExtension

    def run(zone):
        epoch = datetime(1970, 1, 1, tzinfo=timezone.utc)
        for ms in values:
            moment = epoch + timedelta(milliseconds=ms)
            ctx.state("ms%d" % ms)
            one = attribute(ms)
            two = attribute(datetime(2000, 1, 1, tzinfo=timezone(timedelta(hours=3))))
            two.set_value_millis(ms)
            three = XFactory.create_attribute_timestamp("d", ms, None)
            event = XFactory.create_event()
            XTimeExtension().assign_timestamp(event, ms)
            four = event.get_attributes()["time:timestamp"]
            for attr in (one, two, three, four):
                same(attr.get_value_millis(), ms, "milliseconds read back (TZ=%s)" % zone)
                same((attr.get_value() - epoch) // timedelta(microseconds=1), ms * 1000, "instant of %d ms (TZ=%s)" % (ms, zone))
                same(model.canon_datetime(attr.get_value()), (ms, 0), "instant of %d ms (TZ=%s)" % (ms, zone))
                same(str(attr), text_of([moment.year, moment.month, moment.day, moment.hour, moment.minute, moment.second,
                                         moment.microsecond, 0]), "text of %d ms (TZ=%s)" % (ms, zone))
            same(XTimeExtension().extract_timestamp(event), moment, "extracted timestamp")
            ctx.step(13)
    in_zones(zones, run)


def text_cases():
    for base in ("2016-02-29T23:59:59", "1969-12-31T00:00:00", "0001-01-01T12:00:00", "9999-12-31T12:00:00", "2000-06-15T13:07:45"):
        for digits in range(0, 13):
            for fill in "0159":
                for zone in ("", "Z", "+00:00", "-00:00", "+14:00", "-14:00", "+05:45", "-03:30", "-00:01", "+00:59"):
                    yield base + ("." + (fill + "7" * digits)[:digits] if digits else "") + zone
    # the end of a day is the start of the next one
    for day in ("2016-02-28", "2016-02-29", "2015-02-28", "2016-12-31", "1969-12-31", "9999-12-30", "9999-12-31", "0001-01-01", "1900-02-28"):
        for fraction in ("", ".0", ".000", ".0000000000", ".", ".1", ".001", ".00x"):
            for zone in ("", "Z", "+14:00", "-03:30"):
                yield day + "T24:00:00" + fraction + zone
                yield day + "T24:00:01" + fraction + zone
                yield day + "T24:01:00" + fraction + zone
    # white space around a value is not part of it
    for before in ("", " ", "\t", "\n", "\r\n", " \t "):
        for after in ("", " ", "\t", "\n", "\r\n", " \t "):
            for text in ("2016-02-29T23:59:59Z", "2016-02-29T23:59:59.123", "2016-02-29T23:59:59.123456789-03:30", "2016-12-31T24:00:00+14:00",
                         "2016-02-29T23:59:59.5"):
                yield before + text + after
    for zone in range(-840, 841):
        yield "2015-03-29T02:30:00.250%s%02d:%02d" % ("-" if zone < 0 else "+", abs(zone) // 60, abs(zone) % 60)


BAD = ["", " ", "T", "Z", "x", "2016", "2016-01", "2016-01-01", "12:00:00", "2016-01-01T", "2016-01-01T00", "2016-01-01T00:00",
       "2016-00-01T00:00:00Z", "2016-13-01T00:00:00Z", "2016-01-32T00:00:00Z", "2015-02-29T00:00:00Z", "1900-02-29T00:00:00Z",
       "2016-04-31T00:00:00Z", "2016-01-01T25:00:00Z", "2016-01-01T00:60:00Z", "2016-01-01 00:00:00Z", "2016-01-01T00:00:00+x",
       "2016-01-01T00:00:00.Z", "2016-01-01T00:00:00.xZ", "2016-01-01T00:00:00 GMT", "None", "1451606400000", "01/02/2016",
       "2016-01-01T00:00:00+24:00", "2016-01-01T00:00:00-99:99", "2016-01-01T00:00:00+99999999999:00", "20160101T000000",
       "0000-01-01T00:00:00Z", "10000-01-01T00:00:00Z", "+", "-", ":", ".", "\u0662\u0660\u0661\u0666"]


def text_check(ctx, texts):
    from opyenxes.utils.XsDateTimeConversion import parse_date_time

    def run(zone):
        for text in texts:
            ctx.state(text)
            ctx.step()
            wanted = xesdoc.date_value(text)
            seen = parse_date_time(text)
            if wanted is None:
                same(seen, None, "reading %r" % text)
            else:
                expect(seen is not None, "text", text, "was not read")
                expect(seen.tzinfo is not None, "text", text, "was read without a zone")
                same(seen, model.model_datetime(wanted[:7] + [wanted[7] or 0]), "reading %r (TZ=%s)" % (text, zone))
                same(model.canon_datetime(seen), model.canon_datetime(model.model_datetime(wanted)), "reading %r" % text)
    in_zones(ZONES[:4], run)


def sub_minute(ctx, seconds):
    """XML Schema has no seconds in offsets; the instant must stay."""
    from opyenxes.utils.XsDateTimeConversion import parse_date_time
    for base in (datetime(1890, 5, 6, 7, 8, 9, 123000), datetime(2016, 2, 29, 23, 59, 59, 999000)):
        moment = base.replace(tzinfo=timezone(timedelta(seconds=seconds)))
        ctx.state(repr(moment))
        attr = attribute(moment)
        expect(xesdoc.DATE.match(str(attr)), "text of", moment, "is no xs:dateTime:", str(attr))
        same(parse_date_time(str(attr)), moment, "text %s read back" % attr)
        ctx.step(2)


def families(tier):
    quick = tier == "quick"
    return [
        looks.family("P06"),
        Family("dates", lambda _: spaces.chunked(spaces.dates(tier), 60), date_check),
        Family("dates-in-zones", lambda _: ([v] for v in (zone_dates() if quick else itertools.chain(zone_dates(), spaces.dates("quick")))),
               lambda ctx, c: date_check(ctx, c, ZONES[1:])),
        Family("milliseconds", lambda _: spaces.chunked(millis_values(tier), 50), millis_check),
        Family("milliseconds-in-zones", lambda _: spaces.chunked(zone_values(), 20),
               lambda ctx, c: millis_check(ctx, c, ZONES)),
        Family("texts", lambda _: spaces.chunked(text_cases(), 20), text_check),
        Family("unreadable-texts", lambda _: ([t] for t in BAD), text_check),
        Family("summer-time", lambda _: [[d, f] for d in ("spring", "autumn") for f in (0, 1)], summer_time),
        Family("offsets-with-seconds", lambda _: list(range(-3601, 3602)), sub_minute),
    ]
