#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


S = "src/pycalendar/"
I = "src/pycalendar/icalendar/"
V = "src/pycalendar/vcard/"

prop("C01", "iCalendar text survives parse and generate without loss or change",
     "Parsing any well-formed iCalendar object and writing it out again yields text with exactly the same components, nesting, properties, parameters and values (compared by an independent reader, up to property order, line folding, letter case of component names and the canonical spelling of values). Parsing that output gives an object equal to the first, and writing it again reproduces it octet for octet. The same holds however the input was folded, whether its lines end in CRLF or LF, and whatever the letter case of property and parameter names.",
     ["inputs"], "every well-formed VCALENDAR: any nesting of event, to-do, journal, free-busy, availability, poll, time zone, alarm and unknown components; any standard or X- property with any legal parameters and values of every value type, single and multi-valued; any folding and line ending (no backslash in URI values, which the reader documents as removed)",
     "The tests round-trip a few dozen fixed calendars; they contain few escapes, few parameters and few multi-valued properties, and compare the library's output with itself.",
     [I + "calendar.py", S + "containerbase.py", S + "componentbase.py", S + "property.py", S + "parameter.py", S + "multivalue.py", S + "utils.py", I + "property.py"],
     [("parse state machine", S + "containerbase.py:ContainerBase.parse"), ("property line parser", S + "property.py:PropertyBase.parseText"), ("property writer", S + "property.py:PropertyBase.generateValue"), ("component writer", S + "componentbase.py:ComponentBase.generate")])

prop("C02", "Text and parameter values set by the program read back exactly",
     "Any Unicode text stored in a text-valued property (single, list or structured), or in a parameter value, comes back character for character after the object is written and parsed again. However hostile the text (separators, quotes, backslashes, newlines, look-alike content lines), it can never end its line early, add or remove a property, parameter or list item, or change a neighbouring value.",
     ["inputs"], "all Unicode strings without control characters other than newline (and carriage return where the value is escaped; parameter values: also newline and double quote, which use caret encoding), of any length, in any text property, multi-valued list, structured value or parameter position of iCalendar and vCard objects; for values without escapes (X- properties, addresses, URIs) only that the text stays in its place, plus exactness when it holds no newline or backslash",
     "Tests check a handful of escapes one at a time; combinations such as a backslash just before a separator are never exercised, and there are infinitely many.",
     [S + "utils.py", S + "plaintextvalue.py", S + "multivalue.py", S + "property.py", S + "parameter.py", I + "requeststatusvalue.py", V + "n.py", V + "adr.py", V + "orgvalue.py"],
     [("text escaping and unescaping", S + "utils.py:writeTextValue, decodeTextValue"), ("list splitting", S + "utils.py:parseTextList, parseDoubleNestedList"), ("caret encoding", S + "utils.py:encodeParameterValue, decodeParameterValue"), ("parameter quoting", S + "parameter.py:Parameter.generate")])

prop("C03", "Written lines fold at 75 octets without splitting characters",
     "No physical line of any generated calendar or card is longer than 75 octets (not counting the line break), and no fold falls inside a multi-octet UTF-8 character. Removing each CRLF-plus-space sequence restores exactly the logical content lines, and reading a stream whose content lines were folded at any character positions gives the same object as reading it unfolded.",
     ["inputs"], "all property values, parameters and property names (calendar and card), of any length and any mix of 1- to 4-octet characters",
     "One test folds a single sentence; the fold position depends on the exact octet layout around every 75-octet boundary.",
     [S + "property.py", S + "utils.py", S + "stringutils.py"],
     [("folding writer", S + "property.py:PropertyBase.generateValue"), ("unfolding reader", S + "utils.py:readFoldedLine")])

prop("C04", "jCal output carries the same calendar as the text format",
     "Writing any calendar as jCal and parsing that JSON gives a calendar equal to the original, whose text form is identical to the original's. The JSON itself has the RFC 7265 shape (component and property names in lower case, a type identifier, dates, times, offsets, periods and rules in extended form), so an independent reader recovers the same components, parameters and values from it as from the text; and the JSON for a calendar parsed from jCal is the same JSON.",
     ["inputs"], "every well-formed VCALENDAR with any mix of components, properties, parameters (including multi-valued ones) and value types (BOOLEAN and TIME values may be carried as their text)",
     "The tests compare a few fixed calendars with stored JSON text; most value types, list parameters and unusual values never pass through both directions.",
     [S + "property.py", S + "componentbase.py", S + "containerbase.py", S + "value.py", S + "valueutils.py", S + "datetime.py", S + "duration.py", S + "period.py", I + "recurrence.py", S + "utcoffsetvalue.py", S + "geovalue.py", I + "requeststatusvalue.py"],
     [("JSON writers", S + "property.py:PropertyBase.writeJSON and */value classes"), ("JSON readers", S + "property.py:PropertyBase.parseJSON, " + S + "componentbase.py:ComponentBase.parseJSON")])

prop("C05", "xCal output carries the same calendar as the text format",
     "Writing any calendar as xCal produces well-formed XML, without raising, in which an independent RFC 6321 reader finds exactly the components, properties, parameters, value types and values of the calendar's text form. Nothing is dropped, duplicated, reordered within a value list, or attached to the wrong element, and writing it leaves the calendar as it was.",
     ["inputs"], "every well-formed VCALENDAR with any mix of components, properties, parameters and value types (parameter values are all carried as <text>; BOOLEAN, TIME and unknown types as their text)",
     "One fixed calendar is compared with stored XML; durations, periods, geo positions and most other value types are never written as XML by any test.",
     [S + "property.py", S + "componentbase.py", S + "parameter.py", S + "value.py", S + "valueutils.py", S + "datetime.py", S + "duration.py", S + "period.py", I + "recurrence.py", S + "utcoffsetvalue.py", S + "geovalue.py", I + "requeststatusvalue.py", S + "xmlutils.py"],
     [("XML writers", S + "property.py:PropertyBase.writeXML and the value classes' writeXML"), ("component XML", S + "componentbase.py:ComponentBase.writeXML")])

prop("C06", "vCard text survives parse and generate without loss or change",
     "Parsing any well-formed stream of one or more vCard 3.0 cards yields one card per BEGIN/END pair, in order, and writing each gives text with the same groups, properties, parameters and values as an independent reader finds in the input. Parsing that output gives an equal card, and writing again is octet-identical. Cards that differ in any property value, parameter or group do not compare equal.",
     ["inputs"], "every well-formed vCard 3.0 stream: grouped properties, structured names, addresses and organisations, lists, binary photos, dates and times with offsets (fractions of seconds are dropped), vCard 2.1 bare parameters, repeated parameters, X- properties, any folding and line ending",
     "The tests use about ten fixed cards.",
     [V + "card.py", V + "property.py", V + "n.py", V + "adr.py", V + "orgvalue.py", S + "containerbase.py", S + "property.py"],
     [("card parser", V + "card.py:Card.parse, parseMultiple"), ("vCard property reader and writer", V + "property.py:Property"), ("structured values", V + "n.py, adr.py, orgvalue.py")])

prop("C07", "Copies are equal and independent; equality and hash follow content",
     "A duplicate of any calendar, card, component, property or value is equal to its original and writes identically, and no later change to either one is visible in the other. Equality ignores the order of properties and sub-components and different spellings of the same value, and nothing else: changing, adding or removing any property, parameter, value or sub-component makes the objects unequal; equality is symmetric, and equal objects that can be hashed have equal hashes.",
     ["inputs", "histories"], "all objects built by parsing well-formed data, all single edits applied to the original or to the copy, and all permutations of properties and sub-components",
     "Tests duplicate one or two fixed objects and never mutate the copy afterwards.",
     [S + "componentbase.py", S + "property.py", S + "parameter.py", S + "multivalue.py", S + "datetime.py", S + "duration.py", S + "period.py", I + "recurrence.py", I + "recurrenceset.py", V + "property.py", V + "card.py", I + "calendar.py"],
     [("duplicate methods", S + "componentbase.py:ComponentBase.duplicate; property.py; value classes"), ("equality", "__eq__/__ne__/__hash__ of each class")])

prop("C08", "Date arithmetic follows the Gregorian calendar",
     "After any sequence of calendar operations on a date-time (setting or adding seconds, minutes, hours, days, weeks, months or years, adding or subtracting durations or other date-times, moving to a year day, month day, ISO week, or n-th or next weekday) the value and every figure derived from it (weekday, year day, week number, seconds since 1970, text forms) equal those of the proleptic Gregorian calendar. No earlier query changes a later result.",
     ["inputs", "histories"], "all dates and date-times from 1753 to 9999 (years for which the library promises Gregorian rules), all signed offsets that stay inside that range, and all sequences of operations and interleaved queries",
     "Tests probe a few dozen dates, all in recent years, and never mix queries with mutations, although the object caches derived values.",
     [S + "datetime.py", S + "utils.py"],
     [("normalisation and offsets", S + "datetime.py:DateTime.normalise, offset*"), ("cached seconds since 1970", S + "datetime.py:DateTime.getPosixTime, changed"), ("calendar tables", S + "utils.py:daysInMonth, daysUptoMonth, isLeapYear, leapDaysSince1970")])

prop("C09", "Durations, periods and UTC offsets keep their length and algebra",
     "Every duration, period and UTC offset writes a canonical text that reads back to an equal value with the same signed length, and any legal spelling of the same length gives an equal value. A period's start, end and duration always satisfy start + duration = end whichever two were given; inside, overlap, order and equality tests agree with half-open intervals on the time line.",
     ["inputs"], "all signed durations in any legal spelling up to many years; all periods given by start and end or by start and duration in UTC or floating time; all UTC offsets from -23:59:59 to +23:59:59; all pairs of these",
     "Tests list about ten spellings each and never compare mixed forms.",
     [S + "duration.py", S + "period.py", S + "utcoffsetvalue.py", S + "durationvalue.py", S + "periodvalue.py"],
     [("duration text and totals", S + "duration.py:Duration"), ("period algebra", S + "period.py:Period"), ("offset text", S + "utcoffsetvalue.py:UTCOffsetValue")])

prop("C10", "Date-times order, compare and convert by the instant they denote",
     "Two date-times with time zones (UTC, fixed offsets or named zones) compare before, equal or after exactly as their UTC instants do; comparison is a total order consistent with subtraction, seconds since 1970, sorting and hashing. Converting a date-time to UTC or to another zone keeps the instant, re-labelling it with a zone keeps the local fields, and no copy or cached answer is affected by a later change. Floating values compare by their local fields with anything, and date-only values compare by their date. The instant, offset and zone name of a floating value are those of its local time in the default time zone of the moment it is asked.",
     ["inputs", "histories", "configurations"], "all pairs and triples of date-times in any mix of UTC, fixed offsets, named zones with daylight rules, floating and date-only, at local times that exist, and all sequences of conversions, field changes and queries on one date-time",
     "Tests compare a few pairs, and convert between two zones at a few instants.",
     [S + "datetime.py", S + "timezone.py", I + "vtimezone.py", S + "timezonedb.py"],
     [("comparison", S + "datetime.py:DateTime.compareDateTime, __hash__"), ("conversion", S + "datetime.py:DateTime.adjustTimezone, adjustToUTC, getPosixTime"), ("zone identity", S + "timezone.py:Timezone.same"), ("default time zone", S + "timezone.py:Timezone.timeZoneSecondsOffset, timeZoneDescriptor; " + S + "manager.py:CalendarManager")])

prop("C11", "Recurrence rules expand to exactly the dates RFC 5545 defines",
     "For any recurrence rule and start that match, expansion over a range yields exactly the instances of the rule that fall in the range, in order and without duplicates: right frequency, interval, week start, every combination of BY-parts the rule's frequency allows, BYSETPOS, COUNT counted from the start, and UNTIL inclusive. The oracle is an independent recurrence implementation.",
     ["inputs"], "all rules made of FREQ YEARLY to SECONDLY, INTERVAL, WKST, any RFC 5545-permitted BY-parts with positive and negative ordinals, COUNT or UNTIL; all matching starts from 1970 to 2100, date-only or date-time; all ranges",
     "About 60 fixed examples are checked; the rule space is a product of ten independent parts, and bugs sit at their intersections and at year, month and week boundaries.",
     [I + "recurrence.py", S + "datetime.py"],
     [("expansion", I + "recurrence.py:Recurrence.simpleExpand, complexExpand, generate*Set, by*Expand, by*Limit")])

prop("C12", "Recurrence rules keep their meaning through text, JSON and setters",
     "Any recurrence rule, however its parts are ordered or spelled and whether read from text or jCal or assembled through setters, is written as text and as jCal that read back to an equal rule with the same parts. Rules with the same parts are equal and hash alike whatever the order of parts or list items, rules with a different part are unequal, and text that is not a legal rule is rejected rather than silently read as a different rule.",
     ["inputs"], "all rules with any subset of parts and any legal part values, in any part and list order, read from text, read from jCal or built with setters; all single-part mutations of a rule; malformed part values",
     "Tests round-trip about 25 fixed rules and compare a few hashes.",
     [I + "recurrence.py", I + "recurrencevalue.py"],
     [("reader and writer", I + "recurrence.py:Recurrence.parse, generate, parseJSON, writeJSON"), ("equality", I + "recurrence.py:Recurrence.__eq__, __hash__, equals")])

prop("C13", "Recurrence expansion does not depend on what was asked before",
     "Expanding a recurring item over a range gives the same instances whatever ranges were expanded before on that object, in whatever order, before or after copying it; a wider range always contains the instances of a narrower one and adjacent ranges partition their union. After the rule, start or exceptions are edited, the next expansion equals that of a freshly built item with the edited data.",
     ["histories"], "all sequences of range expansions, duplications and edits on one recurrence rule or recurrence set, with bounded or unbounded rules",
     "Every test expands each rule once, from a fresh object, so the incremental cache is never reused or invalidated.",
     [I + "recurrence.py", I + "recurrenceset.py", I + "componentrecur.py"],
     [("expansion cache", I + "recurrence.py:Recurrence.expand, clear, setters"), ("set expansion", I + "recurrenceset.py:RecurrenceSet.expand")],
     state=[{"name": "mRecurrences/mCacheUpto", "meaning": "instances already expanded and the date up to which they are complete", "where": I + "recurrence.py"}])

prop("C14", "Event expansion applies rules, extra dates, exceptions and overrides",
     "Expanding a calendar's events over a period yields one entry per instance of (start + rules + extra dates) minus (exception rules + exception dates) that falls in the period, each with the master's duration, in start order; an overridden instance appears once, with the override's own times and content, in place of the original. No instance is lost, duplicated or resurrected, whatever the order of the components in the file.",
     ["inputs"], "all calendars of recurring and single events with DTEND, DURATION or neither, date-only, floating, UTC or zoned, any number of RRULE, RDATE (date, date-time, period), EXRULE and EXDATE, any overrides, and any period",
     "Tests expand two or three fixed calendars.",
     [I + "calendar.py", I + "componentrecur.py", I + "componentexpanded.py", I + "recurrenceset.py"],
     [("calendar expansion", I + "calendar.py:Calendar.getVEvents"), ("component expansion", I + "componentrecur.py:ComponentRecur.expandPeriod"), ("set algebra", I + "recurrenceset.py:RecurrenceSet.expand"), ("instance times", I + "componentexpanded.py:ComponentExpanded.initFromOwner")])

prop("C15", "Deriving one instance of a recurring item gives that instance alone",
     "Deriving the component for an instance of a recurring event, to-do or journal gives one single, non-recurring component: the master's properties and alarms unchanged apart from the recurrence properties, the instance as its recurrence-id and start in the form (date, floating, UTC or zone) the master's start has, whatever form was asked with, and an end (DTEND, DUE or DURATION as the master has) that keeps the master's length. Put into the calendar it stands in for that instance and no other. A calendar without a master derives nothing, and asking never changes the calendar or later answers.",
     ["inputs"], "all recurring masters (rules, extra dates, exceptions; DTEND, DUE, DURATION or none; date-only, floating, UTC or zoned), all recurrence-ids that are instances, in any time zone",
     "Tests derive about ten fixed instances.",
     [I + "calendar.py", I + "componentrecur.py"],
     [("derivation", I + "calendar.py:Calendar.deriveComponent, masterComponent"), ("instance check", I + "componentrecur.py:ComponentRecur")])

prop("C16", "VTIMEZONE data yields the right UTC offset and name for every time",
     "For any time zone definition, the UTC offset and abbreviation in force for a local or a UTC date-time are those of the latest onset at or before it (before the first onset the offset is zero and there is no abbreviation), for all observances, rules, extra dates and UNTIL limits taken together. The answer never depends on which queries were made before, also when observances were added or removed in between, or on seconds-level neighbours of the query, and the list of transitions reported for a range is exactly the onsets in it.",
     ["inputs", "histories"], "all time zone definitions with any number of standard and daylight observances given by rule, dates or both, with any offsets; all local and UTC times around and between their onsets from 1970 to 2040; all query orders",
     "Tests query a few zones at fixed times from a fresh object; the lookup has two caches keyed by year and by date-time fields.",
     [I + "vtimezone.py", I + "vtimezoneelement.py", I + "vtimezonestandard.py", I + "vtimezonedaylight.py", S + "timezone.py"],
     [("offset lookup and caches", I + "vtimezone.py:VTimezone.getTimezoneOffsetSeconds, findTimezoneElement, expandAll"), ("onset expansion", I + "vtimezoneelement.py:VTimezoneElement.expandBelow, expandAll")])

prop("C17", "The time zone database answers consistently and stays in its directory",
     "Looking up a zone identifier gives the same definition on every call whatever was looked up before, preferring a definition added by the program (which is then not a standard one), then the one stored in the database directory, then the first one supplied with parsed data; what is handed out or handed in belongs to the caller and later changes to it do not show; clearing or re-creating the database forgets everything cached. However the directory's path is spelled, an identifier can never make the database read a file outside it, and unknown identifiers (also those that cannot be file names, or whose file is broken) are reported as unknown without raising and without affecting any other zone.",
     ["inputs", "histories"], "all sequences of creating, clearing, adding, merging, parsing calendars with their own definitions, and looking up any identifier, including hostile ones with path separators and dot segments",
     "Tests call each operation once or twice in one fixed order with one hostile identifier.",
     [S + "timezonedb.py", I + "calendar.py", S + "timezone.py"],
     [("lookup and caching", S + "timezonedb.py:TimezoneDatabase.getTimezone, _getTimezone, getTimezoneInCalendar"), ("containment", S + "timezonedb.py:TimezoneDatabase.cacheTimezone"), ("merging", S + "timezonedb.py:TimezoneDatabase.mergeTimezones, mergeTimezone, addTimezone")],
     state=[{"name": "tzcache / stdtzcache / notstdtzcache", "meaning": "zones already resolved", "where": S + "timezonedb.py"}])

prop("C18", "Calendars name the time zones they use when written",
     "Writing a calendar with all time zones requested includes the definition of every referenced zone the database knows, exactly once, and never alters one already present; with non-standard zones requested it adds only zones that are not standard, and with none it adds nothing. Removing standard zones removes exactly the definitions that are standard in the database, and everything else in the calendar is untouched.",
     ["inputs", "configurations"], "all calendars referencing any mix of zones known as standard, known as non-standard, supplied inline or unknown, from any property of any component at any depth; all inclusion modes; all output formats",
     "Tests use one event with one zone.",
     [I + "calendar.py", I + "component.py", S + "componentbase.py", S + "timezonedb.py"],
     [("inclusion", I + "calendar.py:Calendar.includeMissingTimezones, stripStandardTimezones"), ("reference collection", S + "componentbase.py:ComponentBase.getTimezones")])

prop("C19", "Validation reports exactly the broken rules and fixing is stable",
     "Validating a calendar or card reports a problem if and only if it breaks one of the library's declared constraints (required, at-most-one and one-or-more properties, allowed values, forbidden combinations and pairings for the component), naming the component and property. Without fixing the data is untouched. With fixing requested every problem is either fixed or reported as unfixed: the repairs are those documented (an end or duration in conflict with the other removed, UNTIL given the value type of DTSTART, an alarm's missing texts added empty, STATUS:CANCELLED winning), parts that broke no rule are left alone, validating again reports only what was unfixed and changes nothing more, and the start, end, status and recurrence rules the object reports are those of the data as fixed. Asked to raise, a ValidationError is raised exactly when a problem is left.",
     ["inputs"], "all calendars and cards with any multiset of properties in any component, with legal and illegal values, missing and duplicated properties, conflicting pairs and differing value types, with and without fixing",
     "The tests list fixed calendars with one planted problem each; combinations, and fixing one problem while another is present, are not covered.",
     [S + "componentbase.py", S + "validation.py", I + "validation.py", I + "vevent.py", I + "vtodo.py", I + "valarm.py", I + "componentrecur.py", I + "calendar.py", V + "card.py", V + "validation.py", S + "containerbase.py"],
     [("cardinality and value checks", S + "componentbase.py:ComponentBase.validate"), ("component-specific constraints", "validate() in each component class"), ("top level", S + "containerbase.py:ContainerBase.validate")])

prop("C20", "Malformed data is rejected cleanly, never crashes, hangs or half-parses",
     "Any byte string given to the calendar and card readers (text or jCal) either yields an object or fails with one of the library's documented parse errors; it never raises an internal error, never runs without end, and never yields an object that cannot then be written and re-read. Truncated input, missing version and unbalanced components are rejected, and what is accepted has exactly the components and properties of the input. Each leniency setting turns a defect of its kind into rejection or into the documented acceptance, dropping or fixing, and a damaged property leaves its well-formed neighbours intact.",
     ["inputs", "configurations"], "all byte strings, above all single and multiple mutations (deletions, insertions, truncation, swapped lines, damaged values) of well-formed calendars and cards; all combinations of the reader's leniency settings",
     "Tests list a few dozen broken inputs.",
     [S + "containerbase.py", S + "property.py", S + "utils.py", S + "parser.py", S + "exceptions.py", I + "calendar.py", V + "card.py", V + "property.py", S + "datetime.py", S + "duration.py", I + "recurrence.py"],
     [("parse state machine and errors", S + "containerbase.py:ContainerBase.parse"), ("property parse errors", S + "property.py:PropertyBase.parseText, setupValueParameter"), ("leniency", S + "parser.py:ParserContext")])

prop("C21", "Filtered output contains exactly what the filter admits",
     "Writing a calendar through an output filter yields exactly the components and properties the filter admits, at every level, with values present or suppressed as the filter says, in all three formats; everything admitted reads the same as in unfiltered output. A filter that admits everything gives the unfiltered output.",
     ["inputs", "configurations"], "all calendars and all filters built from any tree of allowed sub-components, allowed properties, all-properties, all-sub-components and no-value settings",
     "No test exercises filtered output beyond one or two shapes.",
     [S + "outputfilter.py", S + "componentbase.py", S + "property.py"],
     [("filter predicates", S + "outputfilter.py:OutputFilter"), ("filtered writers", S + "componentbase.py:ComponentBase.generateFiltered, writeXMLFiltered, writeJSONFiltered and property equivalents")])

prop("C22", "A calendar's component index always matches its contents",
     "After any sequence of adding, removing, duplicating and re-identifying components, looking up the master or the overridden instances for a UID gives exactly the components the calendar currently holds for that UID, and the written form lists each held component once. Removed components are found nowhere, and re-identifying an item moves the master and all its overrides together. UIDs the library makes up are all different, whatever the clock says.",
     ["histories"], "all sequences of parse, add, remove, change-UID, duplicate and lookup operations over masters and overrides of several UIDs in several component types",
     "Tests perform one or two operations on one fixed calendar.",
     [I + "calendar.py", S + "componentbase.py"],
     [("UID maps", I + "calendar.py:Calendar.addComponent, removeComponent, changeUID, masterComponent, getRecurrenceInstancesItems"), ("component list", S + "componentbase.py")],
     state=[{"name": "mMasterComponentsByTypeAndUID / mOverriddenComponentsByUID", "meaning": "index of components by UID", "where": I + "calendar.py"}])

prop("C23", "Edits through the API reach the written form and the cached values alike",
     "After any sequence of edits to an event, to-do or alarm (summary, details, timing, status, completion, recurrence, exceptions, trigger, repeats) the values the object reports are those its written form gives when read afresh. At most one of end, due and duration is left, no stale property survives, and expansion uses the edited timing.",
     ["histories"], "all sequences of edit operations on events, to-dos and alarms starting from any parsed component",
     "No test performs a sequence of edits or re-reads the result.",
     [I + "componentrecur.py", I + "vevent.py", I + "vtodo.py", I + "valarm.py", I + "recurrenceset.py"],
     [("edit methods", I + "componentrecur.py:edit*; vevent.py:editStatus; vtodo.py:editStatus, editCompleted; valarm.py:edit*"), ("cached values", I + "componentrecur.py:finalise; vtodo.py; valarm.py")])

prop("C24", "Compiled time zones agree with the tz source rules at every instant",
     "For any tz source zone and rules (zones of one or more eras; days, times, savings and UNTIL in any form tz source has), the compiler's list of transitions and the generated VTIMEZONE both give, for every instant in the compiled years, the UTC offset the tz rules define; the VTIMEZONE also gives the abbreviation (%s, %z and A/B formats) and whether it is daylight time, and goes on correctly after the last year where the rules do. Years asked for before do not matter. Rule and zone lines survive parse and generate; comments, layout and the order of lines do not matter. Compiling a set of files writes one file for each zone and link, with the right TZID, and nothing else.",
     ["inputs"], "all zones with one or more eras (fixed offset, fixed saving or named rules, UNTIL in wall, standard or universal time) and all rule sets in the supported day forms, for years 1800 to 2040; the system's own tz source is one member of this space",
     "Tests compile two zones against stored text.",
     ["src/zonal/rule.py", "src/zonal/zone.py", "src/zonal/utils.py", "src/zonal/tzconvert.py"],
     [("rule expansion", "src/zonal/rule.py:Rule.expand, datetimeForYear"), ("era expansion", "src/zonal/zone.py:Zone.expand, ZoneRule.expand"), ("VTIMEZONE generation", "src/zonal/zone.py:Zone.vtimezone; rule.py:Rule.vtimezone")])

prop("C25", "Free-busy and alarm times follow from the component data",
     "The busy time reported for a calendar over a range is, for each busy type, exactly the union of the times of that type within the range: the instances (as expansion over the range gives them) of its timed, not transparent, not cancelled events, tentative ones as tentative, and the periods of its free-busy components under their types (unknown types are busy, free ones not). Free-busy published from events has the same time, in sorted periods that do not touch. An alarm's first trigger is the absolute time, or the offset from the start or end of the item it belongs to; the later ones follow by whole repeat intervals up to the repeat count. The next trigger is the last one not after now (or the first), or the one after that if it has been triggered or is over a day old; with none left the alarm is completed. These hold after any edits, triggerings, copies and re-readings.",
     ["inputs", "histories"], "all sets of busy periods of any type, events and free-busy components, any range; all alarms with relative or absolute triggers, either relation and any repeat and interval",
     "No test covers free-busy merging or alarm triggering.",
     [I + "calendar.py", I + "freebusy.py", I + "vfreebusy.py", I + "valarm.py"],
     [("busy merging", I + "freebusy.py:FreeBusy.resolveOverlaps; calendar.py:getFreeBusy"), ("alarm triggers", I + "valarm.py:VAlarm.getFirstTrigger, initNextTrigger")])

prop("C26", "jCard output carries the same card as the text format",
     "Writing any card as jCard and parsing that JSON gives a card equal to the original, whose text form is identical to the original's, whether the cards are read one at a time or in a list. The JSON itself has the RFC 7095 shape (property, parameter and type names in lower case, the group as a parameter, structured values as arrays of their parts, dates and offsets in extended form), so an independent reader recovers the same properties, groups, parameters, types and values from it as from the text; and the JSON of a card read from jCard is the same JSON.",
     ["inputs"], "every well-formed VCARD stream with any standard or X- property, group, parameters and values (parameters given several times come back as one with all the values)",
     "No test writes or reads a card as JSON.",
     [S + "property.py", S + "parameter.py", S + "containerbase.py", S + "multivalue.py", V + "card.py", V + "property.py", V + "n.py", V + "nvalue.py", V + "adr.py", V + "adrvalue.py", V + "orgvalue.py", S + "datetime.py", S + "utcoffsetvalue.py"],
     [("JSON writer", S + "property.py:PropertyBase.writeJSON, generateValueJSON"), ("JSON reader", S + "property.py:PropertyBase.parseJSON; " + V + "card.py:Card.parseMultipleData"), ("structured values", V + "n.py:N.parseJSON, writeJSON; adr.py:Adr.parseJSON, writeJSON; orgvalue.py:OrgValue.parseJSONValue, writeJSONValue")])

prop("C27", "Lists and tables for display are complete, ordered, and follow data and clock",
     "Events listed for a period come in order: with all-day ones at the top, those by date and then the timed ones by start, later-ending first and then earlier-stamped first; otherwise by day and start, all-day ones first on their day. The to-do list has exactly the to-dos asked for: all; only those still due (neither cancelled nor completed over a day ago); only those due by a given time (those without a due time count as due today). A to-do's completion state and status text follow from its status (none means it needs action), its due time and today's date, and to-dos are ordered for display by status, then completed and cancelled ones latest first, others by due time (those without one between what is due by today and what is due later), priority and start; swapping two of them swaps their order. A month table has every day of the month in the column of its weekday for the chosen first day of the week, filled up with the marked days of the months beside it, and points at today. Dates, times and time zones are shown as what they are in every format.",
     ["inputs"], "all sets of events and to-dos (any timing, status, completion, due time, priority), any clock, filter and date; all months of the years 1800 to 2200 with any first day of the week; all dates and display formats",
     "No test lists events in order or to-dos at all, makes a month table or shows a date.",
     [I + "calendar.py", I + "componentexpanded.py", I + "vtodo.py", S + "utils.py", S + "datetime.py", S + "locale.py", S + "manager.py"],
     [("event order", I + "componentexpanded.py:ComponentExpanded.sort_by_dtstart_allday, sort_by_dtstart"), ("to-do list", I + "calendar.py:Calendar.getVToDos"), ("to-do states and order", I + "vtodo.py:VToDo.getCompletionState, getStatusText, sort_for_display"), ("month table", S + "utils.py:getMonthTable"), ("display forms", S + "datetime.py:DateTime.getLocaleDate, getTime")])

prop("C28", "Comparing time zone data reports exactly the differences",
     "Comparing two sets of time zones over a range of years reports, for each zone in both (or each of those asked for), exactly those changes of offset within the range that only the one has and those that only the other has, with their local and UTC times and offsets; zones without differences are said to match, zones that the second lacks are named, and how the zones are written (one part for each change or several in one, dates or rules, one file or many) is no difference, nor is a change from an offset to the same one. Each direction of the comparison reports the mirror image. Zones compiled from a tz source match that source, and differ from another by exactly what the sources differ. Dumping a zone lists its changes within the range in order.",
     ["inputs"], "all sets of zones with explicit changes and yearly rules, all ranges of years, all filters, levels of detail and layouts of files; compiled and source zones",
     "No test compares or dumps zones.",
     ["src/zonal/tzverify.py", "src/zonal/tzdump.py", "src/zonal/tzconvert.py", I + "vtimezone.py", I + "vtimezoneelement.py", S + "datetime.py"],
     [("comparison", "src/zonal/tzverify.py:compareCalendars, CalendarZonesWrapper.expandTransitions"), ("dump", "src/zonal/tzdump.py:getExpandedDates, formattedExpandedDates"), ("expansion", I + "vtimezone.py:VTimezone.expandAll")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
