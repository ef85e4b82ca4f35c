SEEDED = {
    "c07-set-periods": "missed at first; yes after recurrence sets were compared with each other (test sets)",
    "c16-turn-of-year": "missed at first; yes after onsets were put at the turn of the year, where the local and the UTC year differ",
    "c17-event-first": "missed at first; yes after events were allowed to stand before the definitions they use",
    "c03-empty-fold": "missed at first; yes after folds were allowed at the very end of a line",
    "c11-isdow": "missed at first; yes after the generator was given century years and negative yearly ordinals more often",
    "c13-horizon-day": "missed at first; yes after histories were given sub-daily rules and ranges that end on the same day",
    "c17-missing-negative": "missed at first; yes after histories were given lookups before and after a file appears",
    "c02-second-cr": "missed at first; yes after escaped texts were given carriage returns",
    "c10-default-cached": "missed at first (the default time zone never changed); yes since the test default",
    "c10-utc-cached": "missed at first; yes after histories were given setTimezoneUTC",
    "c15-exrule": "missed at first; yes after the masters were given EXRULEs (they had been removed, for no reason)",
    "c21-lower-name": "missed at first; yes after the data was given names in any case, as the assumptions always said",
    "c25-span-elif": "missed at first; yes after ranges were drawn next to the first and last busy times",
    "c26-offset-seconds": "missed at first; yes after offsets were given seconds",
    "c28-end": "missed at first; yes after changes were put at the turn of years, and ranges next to them",
}
D = {
    "C01": dict(how="Three relations: the library's output read by the independent reader means what the input tree means; the output re-read by the library is equal and is written the same again; the same tree in another layout (folds at any octet, line ends, case of names, quoting) gives an equal object and the same output. Extension parameters may be repeated (test properties).", why="value type x parameter x escape x layout combinations; every property of RFC 5545 and several of RFC 7986 with every value type it may have."),
    "C02": dict(how="Texts that look like syntax (line ends, BEGIN lines, escapes, quotes, carets) are put in through every constructor and setter; both readers must give back exactly the text, and the number of properties must not change.", why="no test sets hostile text through the API."),
    "C03": dict(how="Octet lengths of the output lines, UTF-8 validity of each physical line, and exact equality of the unfolded lines; input folded anywhere, also at the end of the line, must read the same.", why="every offset of a multi-octet character relative to the fold."),
    "C04": dict(how="The jCal is read by an independent reader against the tree; parse of the jCal gives an object equal to the one from text, and text written from it means the same. Repeated extension parameters are one member with all values (test repeats).", why="every value type in JSON."),
    "C05": dict(how="The xCal is read with an XML parser and an RFC 6321 reader against the tree. There is no XML reader in the library. Test repeats: repeated extension parameters.", why="every value type in XML."),
    "C06": dict(how="As C01 for streams of cards, plus: two cards one edit apart are unequal and written differently.", why="groups, structured names, vCard 2.1 leftovers."),
    "C07": dict(how="A copy is taken of anything that can be copied, either side is edited through setters, and the untouched side's text and getters must not move. Pairs: equality must agree with the independent canonical form, hashes with equality, whether they are taken first or last. Properties of several values are edited one value at a time, and free-busy components through the busy times they hand out. Recurrence sets are compared by what they hold, in any order.", why="aliasing shows only after particular edits."),
    "C08": dict(how="Each operation is mirrored on Python's datetime.", why="the whole Gregorian calendar rather than a few dates."),
    "C09": dict(why="pairs of spellings and touching periods; ends and hashes worked out before or after a change."),
    "C10": dict(how="Instants come from zoneinfo for the same zones. The test 'default' changes the process-wide default time zone between questions about floating and zoned values and compares every instant, offset and difference with zoneinfo for the zone that applies then.", why="offset changes between two compared times."),
    "C11": dict(how="The list over a half-open range must equal the brute-force model's, in order and without repeats.", why="the combinations of ten BY parts with five frequencies, INTERVAL, COUNT, UNTIL, WKST and ranges."),
    "C12": dict(why="every part in every order."),
    "C13": dict(how="Metamorphic: an object with a history must answer as a fresh one does.", why="caches go stale only in histories."),
    "C14": dict(how="A model of RFC 5545 recurrence sets (rules, dates, exceptions, overrides, RANGE) gives the list of (event, start, end).", why="interplay of all parts."),
    "C15": dict(how="The derived component must have exactly the master's properties minus the recurrence ones plus RECURRENCE-ID and shifted times; put into the calendar, expansion must not change.", why="time zones and date-only items."),
    "C16": dict(how="The onset list comes from the rule model; offset, name and transitions must follow from it whatever was asked before, and whichever observances were added to or taken from the zone since.", why="the cache of expanded onsets, years far apart."),
    "C17": dict(how="A model of which identifiers are known and from where; scratch directories only, with decoys where escaping identifiers point.", why="histories over process-wide state."),
    "C18": dict(how="A model of what zone definitions the calendar holds after each write, strip or add.", why="zones referenced at depth, by lists and periods, in every format."),
    "C19": dict(how="A table of the rules (cardinality, exclusivity, values) says which problems must be reported and how data look after fixing.", why="combinations of broken rules; fixing must be stable."),
    "C20": dict(how="`text`: one to three mutations of whole objects; the independent skeleton says what must be rejected and what the accepted object must hold; whatever is accepted must write, re-read to the same text and compare equal. `json`: mutations of jCal trees and of the raw JSON. `line`: one damaged property among sound ones, whose neighbours must be unchanged. `lines`: many single property lines. `options`: each known defect under each leniency setting against a model of the setting.", why="rejections and leniencies interact."),
    "C21": dict(how="The unfiltered output is taken apart, the filter is applied by the check, and the result must be the filtered output, per format; several filters used in turn on one object.", why="filter trees and the order of formats (caches)."),
    "C22": dict(how="A model list of components; after each operation masters, overrides and the written form are compared with it.", why="index mistakes show after particular histories."),
    "C23": dict(how="Each edit is applied to a model of the written lines; the written calendar must mean what the model's means, and getters, recurrence sets and expansions must equal those of the text read afresh. Arguments are changed by the caller afterwards.", why="edits leave stale caches or stale properties only in combination."),
    "C24": dict(how="Generated tz source (and the system's own) is compiled for several spans of years; the transitions and the VTIMEZONE, evaluated by the independent rule model, must agree with the reference expander one second before and at every change and between. `files` drives the file reader and writer in a scratch directory, with deletions and writes outside it refused and reported.", why="the forms of day and time move changes across days, months and years; eras cut rules at any moment."),
    "C25": dict(how="`busy`: unions of intervals per type. `alarms`: trigger arithmetic under a clock set by replacing time.time.", why="interplay of overrides, status and transparency; repeats against the clock."),
    "C28": dict(how="Two scratch directories of zones are generated with known changes; what the comparison prints, both ways, must be the set difference of the changes in the range, and the filters, matches and missing zones theirs. `source` compares compiled zones with the tz source they came from and with altered source.", why="no test runs these tools; comparison with tz source always failed, and a change at the start hid later no-changes (fixed)."),
    "C27": dict(how="`months`: tables against Python's calendar module. `events`: listed instances are complete and their keys ascend. `todos`: the filter, state, text and pairwise order of to-dos from their definitions. `dates`: every display form against strftime. All under a clock set by replacing time.time.", why="none of these functions is run by a test; month tables, to-do lists, to-do order and status text did not work at all (fixed)."),
    "C26": dict(how="`streams`: generated card streams written as jCard, read by an independent RFC 7095 reader and compared with the meaning of the text, then read back by the library alone and in a list. `properties`: one or two properties, dense in values.", why="no test writes or reads a card as JSON."),
}
