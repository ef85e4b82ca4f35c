NA = {}
BASE = "Randomised search with shrinking over generated cases, seeded by VERIF_SEED; it can show a violation but not absence. "
NOTES = {
    "C08": ("property-based testing of operation histories against a datetime model", BASE + "Oracle: Python's datetime (proleptic Gregorian). Years 1753-9998; date-only values carry no time of day."),
    "C11": ("property-based testing against an independent RFC 5545 rule expander", BASE + "Oracle: harness/rrule_model.py (own expander, cross-checked with dateutil). Rules whose meaning RFC 5545 leaves open are not generated."),
    "C12": ("property-based testing: round trips, equality/hash laws and rejection of malformed rules", BASE + "Oracle: the generated rule itself (fields known), and a set of malformed rules."),
    "C13": ("stateful property-based testing against a freshly built item", BASE + "Histories of up to about ten operations on one rule or recurrence set."),
    "C14": ("property-based testing against an independent model of calendar expansion", BASE + "Oracle: harness/rrule_model.py for rules, zoneinfo for zones. Years 2012-2030."),
    "C15": ("property-based testing against the derived component's specified content, plus a metamorphic check through expansion", BASE + "Only recurrence-ids that are instances (the documented precondition)."),
    "C16": ("stateful property-based testing of query histories against an independent onset list", BASE + "Onsets at least 40 hours apart; the answer before the first onset is the library's convention (0)."),
}
NOTES["C09"] = ("property-based testing against integer and datetime arithmetic", BASE + "Oracle: lengths computed from the generated spelling; half-open intervals on Python datetimes.")
NOTES["C10"] = ("property-based testing (pairs and operation histories) against zoneinfo", BASE + "Oracle: Python zoneinfo. Local times in a gap and second occurrences of repeated times are excluded: the library has no way to write them.")
NOTES["C01"] = ("property-based testing: generated calendars, independent reader as oracle, plus metamorphic layout changes", BASE + "Oracle: harness/ical.py and harness/icanon.py, which share no code with the library.")
NOTES["C02"] = ("property-based testing: objects built through the API from hostile texts, read back by the library and by an independent reader", BASE + "Oracle: the texts that were put in. One known finding (quoted parameter value ending in a backslash) is listed.")
NOTES["C03"] = ("property-based testing: octet-exact lengths around every fold boundary, exact expected logical lines, metamorphic input folding", BASE + "Oracle: the logical content lines the case was built from.")
NOTES["C04"] = ("property-based testing: generated calendars, independent RFC 7265 reader, and round trip through the library", BASE + "Oracle: the generated tree; harness/icanon.py reads the JSON without the library.")
NOTES["C05"] = ("property-based testing: generated calendars, independent RFC 6321 reader", BASE + "Oracle: the generated tree; harness/icanon.py reads the XML without the library.")
NOTES["C06"] = ("property-based testing: generated card streams and single edits, independent reader as oracle", BASE + "Oracle: harness/gen_vcard.py's own reading of the input and of the output.")
NOTES["C07"] = ("stateful property-based testing: copies edited on either side; pairs of objects one edit or reordering apart", BASE + "Oracle: text and getters of the untouched side before and after each edit; harness/icanon.py decides whether two calendars mean the same.")
NOTES["C17"] = ("stateful property-based testing of operation histories against a dictionary model; decoy files planted where hostile identifiers point", BASE + "Oracle: the model, and decoy definitions named exactly as the escaping identifier (finding one proves the escape). Database files hold the one zone they are named after.")
NOTES["C18"] = ("stateful property-based testing: histories of writing in all formats, stripping and adding, against a model of what the calendar holds", BASE + "Oracle: the model; outputs are read by harness/icanon.py, independent of the library.")
NOTES["C19"] = ("property-based testing: components broken by generated changes, a table of the rules as oracle", BASE + "Oracle: the table of rules in checks/c19.py, and the data as the table says it must be after fixing, read by harness/icanon.py.")
NOTES["C20"] = ("fuzzing by structured mutation of generated calendars, cards, jCal and single lines, with a structural oracle for what must be rejected and metamorphic write-read checks on what is accepted", BASE + "Oracle: an independent skeleton of the input (components, property names), the undamaged neighbours read by harness/icanon.py, and a model of each leniency setting.")
NOTES["C21"] = ("property-based testing: generated calendars, cards and filters; the check applies the filter to the unfiltered output", BASE + "Oracle: the filter's meaning applied, by the check, to the unfiltered text, jCal and xCal.")
NOTES["C22"] = ("stateful property-based testing of add, remove, change-UID, copy and look-up histories against a model", BASE + "Oracle: a list of the components held, with kind, UID and recurrence-id.")
NOTES["C23"] = ("stateful property-based testing of edit histories: a model of the written form, and the object against its written form read afresh", BASE + "Oracle: the model for what is written; the re-read object for getters, recurrence sets and expansion.")
NOTES["C25"] = ("property-based testing: free-busy against unions of intervals computed by the check; stateful testing of alarm histories under a set clock against a model", BASE + "Oracle: interval arithmetic on epoch seconds. January and February 2020 only; no offset changes.")
NOTES["C27"] = ("property-based testing under a set clock: month tables against Python's calendar, lists and orders against their definition, display forms against strftime", BASE + "Oracle: checks/c27.py, from the definitions in the statement.")
NOTES["C26"] = ("property-based testing: grammar-based card generation, differential against an independent jCard reader, and round trip through the library", BASE + "Oracle: from_jcard in checks/c26.py (RFC 7095) against harness/gen_vcard.py's meaning of the text.")
NOTES["C24"] = ("property-based testing: generated tz source, and the system's own, against an independent expander", BASE + "Oracle: harness/tzsource.py (a tz expander written from the tz compiler's description); for the system's zones also Python's zoneinfo. VTIMEZONEs are evaluated by harness/rrule_model.py.")
NOTES["C28"] = ("property-based testing: differential comparison of generated sets of time zones (explicit changes, yearly rules, tz source) with known differences", BASE + "Oracle: checks/c28.py; for tz source the reference expander harness/tzsource.py of C24.")
