"""VTIMEZONE components whose rules hold, unchanged, over the years the checks use, and the zoneinfo zone that says what they mean."""
import datetime as D
from zoneinfo import ZoneInfo


def _vtz(tzid, parts):
    out = ["BEGIN:VTIMEZONE", "TZID:" + tzid]
    for kind, start, off_from, off_to, name, rule in parts:
        out += ["BEGIN:" + kind, "DTSTART:" + start, "TZOFFSETFROM:" + off_from, "TZOFFSETTO:" + off_to, "TZNAME:" + name]
        if rule:
            out.append("RRULE:" + rule)
        out.append("END:" + kind)
    return out + ["END:VTIMEZONE"]


ZONES = {
    "America/New_York": _vtz("America/New_York", [
        ("DAYLIGHT", "20070311T020000", "-0500", "-0400", "EDT", "FREQ=YEARLY;BYDAY=2SU;BYMONTH=3"),
        ("STANDARD", "20071104T020000", "-0400", "-0500", "EST", "FREQ=YEARLY;BYDAY=1SU;BYMONTH=11")]),
    "Europe/London": _vtz("Europe/London", [
        ("DAYLIGHT", "19970330T010000", "+0000", "+0100", "BST", "FREQ=YEARLY;BYDAY=-1SU;BYMONTH=3"),
        ("STANDARD", "19961027T020000", "+0100", "+0000", "GMT", "FREQ=YEARLY;BYDAY=-1SU;BYMONTH=10")]),
    "Australia/Sydney": _vtz("Australia/Sydney", [
        ("DAYLIGHT", "20081005T020000", "+1000", "+1100", "AEDT", "FREQ=YEARLY;BYDAY=1SU;BYMONTH=10"),
        ("STANDARD", "20080406T030000", "+1100", "+1000", "AEST", "FREQ=YEARLY;BYDAY=1SU;BYMONTH=4")]),
    "Asia/Kolkata": _vtz("Asia/Kolkata", [("STANDARD", "19700101T000000", "+0530", "+0530", "IST", None)]),
    "America/St_Johns": _vtz("America/St_Johns", [
        ("DAYLIGHT", "20120311T020000", "-0330", "-0230", "NDT", "FREQ=YEARLY;BYDAY=2SU;BYMONTH=3"),
        ("STANDARD", "20111106T020000", "-0230", "-0330", "NST", "FREQ=YEARLY;BYDAY=1SU;BYMONTH=11")]),
}


def to_utc(wall, tzid):
    """wall clock time in a zone -> naive UTC datetime"""
    return wall.replace(tzinfo=ZoneInfo(tzid)).astimezone(D.timezone.utc).replace(tzinfo=None)


def from_utc(utc, tzid):
    return utc.replace(tzinfo=D.timezone.utc).astimezone(ZoneInfo(tzid)).replace(tzinfo=None)
