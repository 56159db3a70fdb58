#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Writing a feed and loading it again preserves every entity and value",
 "Writing a schedule and loading the written feed gives back the same agencies, stops, routes, calendars and exceptions, trips, stop times, frequencies, shapes, fares, fare rules, transfers and feed info, with every standard column value unchanged, and for agencies, stops, routes, trips, transfers and feed info every extra column too (shape points keep their order; their sequence numbers may be renumbered). Loading the written feed reports no kind of error that the original rows do not cause. This holds for every representable value (zeros, empty fields, non-ASCII text, quotes and commas, times past midnight), whether stop times are kept in memory or in a database file, and whether the feed is read from a directory or a zip archive. Writing the reloaded schedule produces the same tables again. It holds equally for schedules built or edited through the API.",
 ["inputs", "configurations"], "every valid feed content, both storage modes and both feed container forms",
 "The tests write and reload three or four fixed feeds and compare a few attributes; the value space (0 against empty, extra columns, quoting, 24h+ times) and the product of tables is not reachable by examples.",
 ["transitfeed/schedule.py", "transitfeed/gtfsobjectbase.py", "transitfeed/stoptime.py", "transitfeed/trip.py", "transitfeed/loader.py", "transitfeed/util.py"],
 [("WriteGoogleTransitFeed, GetFieldValuesTuple, CsvUnicodeWriter", "transitfeed/schedule.py, transitfeed/gtfsobjectbase.py, transitfeed/util.py"), ("Loader._ReadCSV/_ReadCsvDict", "transitfeed/loader.py")],
 [("schedule tables", "entities by id with their column values", "transitfeed/schedule.py")],
 ["Schedule.WriteGoogleTransitFeed output tables", "Loader.Load result"])

prop("C02", "Every loaded row is represented in the schedule or reported as a problem",
 "After a feed is loaded, each data row of each known table is either represented in the schedule by an entity that holds exactly the values of that row, or is named by at least one reported problem. Of several rows with the same identifier the first is kept and each later one is reported (of several exceptions of one calendar for one date the last counts, and each later one is reported), and a row that refers to a stop, route, trip, calendar, fare, or parent station that does not exist is reported. Nothing else is in the schedule: every entity and every link between entities stems from a row of the feed.",
 ["inputs"], "every combination of rows, missing or repeated ids, missing values and dangling references over all tables",
 "The tests load single broken files one defect at a time; combinations of defects over tables and rows after a defective one are not covered.",
 ["transitfeed/loader.py", "transitfeed/schedule.py", "transitfeed/trip.py", "transitfeed/route.py", "transitfeed/shape.py"],
 [("per-table load methods", "transitfeed/loader.py"), ("Add*Object duplicate detection", "transitfeed/schedule.py")],
 [("schedule tables", "entities by id", "transitfeed/schedule.py")],
 ["ProblemReporter/accumulator calls", "Schedule listing methods after Load"])

prop("C03", "A reported problem names the file, line, column and value at fault",
 "Every problem reported for a row while a feed is loaded carries that row's file name, its line number in the file, its column names and its values, and an invalid or missing value is reported with the column and the value at fault. A problem that does not stem from a row never carries the location of some unrelated row, also when an earlier row of the same or another table was defective. Rows that are not defective are never named as locations.",
 ["inputs", "fault_sequences"], "every sequence of defective and good rows in and across tables",
 "Tests assert the problem type and at most the column for one defect per feed; location staleness needs a defect followed by a different event.",
 ["transitfeed/loader.py", "transitfeed/problems.py", "transitfeed/schedule.py"],
 [("SetFileContext/ClearContext around each row", "transitfeed/loader.py"), ("ProblemReporter._Report context", "transitfeed/problems.py")],
 [("current context", "file, row, values, headings that new problems receive", "transitfeed/problems.py")],
 ["exceptions handed to the problem accumulator"])

prop("C04", "Any feed content ends in a problem report, never in a crash",
 "Loading and validating a feed directory or archive always completes normally, whatever bytes its tables hold: wrong or missing columns, short or long rows, blank lines, byte-order marks, invalid encodings, stray quotes or NULs, unparsable numbers, dates and times, and missing or empty tables. Every such defect leads to at least one reported problem, and the sound rows and tables around it are still loaded. (A stray quote may take in the rows after it, and an unknown column named like a member of a class may be left out; these only need to end normally.)",
 ["inputs", "fault_sequences"], "every placement and combination of byte- and cell-level corruptions in the tables of a feed",
 "Tests hold about thirty fixed broken feeds; crashes arise from combinations (a missing optional value plus a later rule that uses it).",
 ["transitfeed/loader.py", "transitfeed/util.py", "transitfeed/trip.py", "transitfeed/stop.py", "transitfeed/shape.py", "transitfeed/schedule.py"],
 [("_GetUtf8Contents, _ReadCsvDict, _DetermineFormat", "transitfeed/loader.py"), ("Parse*/Validate* helpers", "transitfeed/util.py")],
 [], ["return or exception of Loader.Load and Schedule.Validate", "accumulated problems"])

prop("C05", "The schedule's registries keep exactly one entity per identifier",
 "Under any sequence of additions to a schedule, each identifier keeps denoting the entity first added under it; a later addition with the same identifier is reported as a duplicate and changes nothing. Identifiers the schedule makes up are never already in use, and lookups, listings and default-agency and default-calendar answers always agree with the additions made so far. Entities that refer to a missing entity are reported and not linked.",
 ["histories"], "every sequence of additions, default look-ups and generated ids",
 "Tests add one or two objects; the id collision between explicit and generated ids and the effect of a rejected duplicate on the rest of the store need histories.",
 ["transitfeed/schedule.py", "transitfeed/util.py", "transitfeed/route.py", "transitfeed/trip.py", "transitfeed/stop.py"],
 [("AddTableColumn(s), Add*Object, Add*, NewDefault*", "transitfeed/schedule.py"), ("FindUniqueId", "transitfeed/util.py")],
 [("agencies, stops, routes, trips, service_periods, fares, shapes, fare_zones", "id to entity", "transitfeed/schedule.py")],
 ["Schedule.Get*/Get*List, accumulated problems"])

prop("C06", "A service period is active exactly on the dates its calendar and exceptions say",
 "A service period is active on a date exactly if an exception adds service on that date, or the date lies in its start-end range on one of its weekdays and no exception removes it. The single-date query, the list of active dates, and the first and last service date are mutually consistent with that rule after any sequence of edits, with the most recent exception for a date winning. The table rows it writes describe the same set of dates.",
 ["histories", "inputs"], "every sequence of start, end, weekday and exception edits followed by any date query",
 "Tests probe a handful of dates of fixed calendars; interactions of exceptions at and outside the range boundaries are not enumerated.",
 ["transitfeed/serviceperiod.py"],
 [("IsActiveOn, ActiveDates, GetDateRange, SetDateHasService, ResetDateToNormalService", "transitfeed/serviceperiod.py")],
 [("start_date, end_date, day_of_week, date_exceptions", "the calendar", "transitfeed/serviceperiod.py")],
 ["ServicePeriod query methods and field tuples"])

prop("C07", "Feed-wide service dates, expiry and service-gap warnings are exact",
 "The schedule's first and last service date are the earliest and latest service dates over all its calendars, replaced by the feed info's start and end date where those are given, and each is attributed to the table that determines it. The trips and departures reported for each date equal the trips whose calendar is active that day, with headway-based trips counted once per run. The warnings about a feed without service dates, service that ends within 60 days or starts in the future, a long feed without any calendar exceptions, and gaps without service are issued exactly when their documented date conditions hold relative to the validation date.",
 ["inputs"], "every set of calendars, exceptions, feed info dates, trips and validation dates",
 "Tests use a few calendars with one validation date each; boundaries (gap length, expiry day, origin of the limit) are data dependent.",
 ["transitfeed/schedule.py", "transitfeed/serviceperiod.py", "transitfeed/feedinfo.py"],
 [("GetDateRangeWithOrigins, GetServicePeriodsActiveEachDate, GenerateDateTripsDeparturesList, ValidateFeedStartAndExpirationDates, ValidateServiceGaps", "transitfeed/schedule.py")],
 [], ["Schedule query methods, accumulated warnings"])

prop("C08", "A trip's stop times stay ordered and complete under any edits",
 "After any sequence of adding, replacing and clearing stop times of a trip, the trip lists exactly the stop times that were added and not cleared, ordered by their sequence numbers, in memory and database storage alike. Adding a stop appends it after the last one, stop times loaded with a reused sequence number are reported, and the trip's start and end time, stop count, pattern and pattern id, and its appearance in each visited stop's trip list always correspond to the current stop times.",
 ["histories", "configurations"], "every sequence of stop time edits on several trips, with both storage modes",
 "Tests call each edit operation once or twice in fixed orders.",
 ["transitfeed/trip.py", "transitfeed/stoptime.py", "transitfeed/stop.py", "transitfeed/schedule.py"],
 [("AddStopTime, AddStopTimeObject, ReplaceStopTimeObject, ClearStopTimes, GetStopTimes, GetStartTime, GetEndTime, GetPattern", "transitfeed/trip.py")],
 [("stop_times rows", "per trip sequence of stop visits", "transitfeed/trip.py")],
 ["Trip.GetStopTimes and derived queries", "Stop.GetStopTimeTrips"])

prop("C09", "Interpolated stop times keep given times exactly and never run backwards",
 "The time-interpolated stop times of a trip list every stop once in order, keep every given time exactly and mark just the others as interpolated. Each interpolated time divides the interval between the enclosing timed stops in proportion to the straight-line distances between the stops, so times never decrease along the trip. A trip whose first or last stop has no time is rejected, as is no other.",
 ["inputs"], "every pattern of timed and untimed stops, distances and coinciding stops",
 "Tests interpolate one five-stop trip; runs of untimed stops of different length, coinciding points and missing distances are not enumerated.",
 ["transitfeed/trip.py", "transitfeed/util.py"],
 [("GetTimeInterpolatedStops, GetTimeStops", "transitfeed/trip.py"), ("ApproximateDistanceBetweenStops", "transitfeed/util.py")],
 [], ["Trip.GetTimeInterpolatedStops"])

prop("C10", "Headway-based trips run exactly at their headway steps",
 "A headway-based trip starts once at each time start, start+headway, start+2*headway, ... strictly before the end of each of its headway periods and at no other time, and each run repeats the trip's stop times shifted to begin at that start. Periods that overlap, have a non-positive headway, or do not end after they begin are reported, and no other period is. The counts of departures follow the same rule.",
 ["inputs", "histories"], "every list of headway periods and every stop-time pattern",
 "Tests use two fixed periods; boundary equality (end = start + k*headway), adjacent against overlapping periods and order of periods are input dependent.",
 ["transitfeed/trip.py", "transitfeed/frequency.py"],
 [("GetFrequencyStartTimes, GetFrequencyStopTimes, AddFrequency, _CheckFrequencies", "transitfeed/trip.py"), ("Frequency.Validate", "transitfeed/frequency.py")],
 [("headways", "list of periods", "transitfeed/trip.py")],
 ["Trip frequency queries, accumulated problems"])

prop("C11", "Overlapping trips of one vehicle block are reported exactly",
 "Two trips of one block are reported as overlapping exactly if their time spans intersect by more than an end point and their calendars are the same or share a day of service. Every such pair, adjacent in time or not, is reported once, whatever the order in which trips and calendars appear, and pairs that can never run on the same day, or trips without a known route, calendar, start or end time, are not.",
 ["inputs"], "every set of blocks, trip spans and calendar combinations",
 "Tests hold one feed with a few overlapping blocks; the pair relation over calendars and times is combinatorial.",
 ["transitfeed/schedule.py", "transitfeed/serviceperiod.py"],
 [("Validate block overlap section", "transitfeed/schedule.py"), ("HasDateExceptionOn and calendar day intersection", "transitfeed/serviceperiod.py")],
 [], ["accumulated OverlappingTripsInSameBlock problems"])

prop("C12", "Impossible or suspicious stop-time sequences are reported exactly",
 "Validating a trip reports exactly the defects its stop times have: too few stops, a missing first or last time, a departure before the arrival, time running backwards between stops, a reused sequence number, missing halves of a time pair, travelled distances that do not increase or exceed the shape, stops too far from the shape, several stops at one moment, and a speed above the limit for the route type between timed stops (times in whole minutes getting a minute's tolerance). Trips that run at the same moments over the same stops are reported as duplicates. A sequence without those defects draws no such report.",
 ["inputs"], "every sequence of stops, optional times, optional distances and route types",
 "Tests check each defect once in isolation; thresholds, equal times, gaps of untimed stops and combinations are input dependent.",
 ["transitfeed/trip.py", "transitfeed/stoptime.py", "transitfeed/route.py", "transitfeed/util.py"],
 [("Trip.Validate, ValidateChildren, ValidateTimesAndDistances..., CheckSpeed", "transitfeed/trip.py"), ("StopTime.__init__", "transitfeed/stoptime.py")],
 [], ["accumulated problems"])

prop("C13", "Validation is read-only, repeatable and independent of row order",
 "Validating a schedule changes nothing that can be observed through its listings or its written feed, and validating again reports the same problems. Permuting the rows of the tables of a feed does not change the set of entities loaded nor the set of kinds of problems reported, apart from which of two conflicting rows is blamed.",
 ["inputs", "histories"], "every feed and every permutation of its rows",
 "No test compares the state before and after validation or two orders of the same feed.",
 ["transitfeed/schedule.py", "transitfeed/trip.py", "transitfeed/stop.py", "transitfeed/serviceperiod.py", "transitfeed/shape.py", "transitfeed/loader.py"],
 [("Schedule.Validate and Validate* of the entities", "transitfeed/schedule.py")],
 [], ["schedule projection before and after Validate; accumulated problems"])

prop("C14", "Validator totals, kept problems and exit status account for every problem",
 "The validator counts every problem under its kind and level exactly once, except kinds the user asked to ignore; of each kind it keeps the most serious ones up to the limit, in order, and says how many were dropped. The exit status is success exactly if no error or warning was counted, and console and HTML summaries show the counted totals. An accumulator that should raise on errors raises every error and raises no warning or notice.",
 ["histories", "configurations"], "every sequence of reported problems, limit and ignore list",
 "Tests report short fixed lists with one limit.",
 ["feedvalidator.py", "transitfeed/problems.py", "transitfeed/util.py"],
 [("CountingConsoleProblemAccumulator, HTMLCountingProblemAccumulator, LimitPerTypeProblemAccumulator, BoundedProblemList, RunValidation...", "feedvalidator.py"), ("ProblemReporter._Report, ExceptionProblemAccumulator", "transitfeed/problems.py")],
 [("per-kind counters and bounded lists", "problems seen", "feedvalidator.py")],
 ["accumulator queries, console/HTML output, exit code of the command"])

prop("C15", "Merging two feeds loses nothing and keeps every link intact",
 "In the result of merging two well-formed feeds with every merge step every agency, stop, route, calendar, trip, fare and shape of either input is represented by exactly one entity with its values (under its own id unless the other feed has a different entity of that id), and each stop time, headway, fare rule and transfer follows. Each link (trip to route, calendar and shape, stop time to stop, route to agency, stop to parent station, fare rule to fare, route and zones) points to the representative of the entity it pointed to before (calendars are cut if a cut-off date is given), and every identifier in the result is unique. The inputs themselves are unchanged.",
 ["inputs", "configurations"], "every pair of feeds with disjoint, equal and colliding ids, and every subset of merge steps",
 "Tests exercise each merge step alone on one or two hand-made entities; links across renamed and merged entities need whole feeds.",
 ["merge.py"],
 [("DataSetMerger subclasses, FeedMerger.MergeSchedules", "merge.py")],
 [("a_merge_map, b_merge_map", "representative of each input entity", "merge.py")],
 ["merged Schedule tables, FeedMerger maps"])

prop("C16", "Merging unifies two entities only if they are the same by the documented rule",
 "Entities of two feeds are unified exactly if the documented rule for their kind says they are the same (equal id and compatible values, or matching name, location and the like), and unified values come from the newer feed, or from the older one where the newer has none and the rule allows it. Entities with equal ids that must not be unified both survive under distinct ids and the conflict is reported, and the reported counts of merged and not-merged entities equal what was done.",
 ["inputs"], "every pair of entities of each kind, with equal or different ids and each attribute equal, different or missing",
 "Tests check one conflicting attribute per kind.",
 ["merge.py"],
 [("_MergeEntities, _SchemedMerge, _Merge*, GetMergeStats", "merge.py")],
 [], ["merged Schedule tables, merge statistics, merge problems"])

prop("C17", "Merging feeds with calendars cut at a date moves no service to another day",
 "If the calendars of two feeds overlap in time the merge stops with a report unless a cut-off date is given; calendars count as overlapping exactly if they share a date in their ranges. With a cut-off date, the merged service of the first feed is its original service strictly before that date and that of the second is its original service from the date on, for every calendar and every date. Calendars not affected by the cut are unchanged.",
 ["inputs"], "every pair of calendar sets with exceptions, and every cut-off date",
 "Tests use one pair of calendars and one cut-off date.",
 ["merge.py", "transitfeed/serviceperiod.py"],
 [("ServicePeriodMerger.CheckDisjointCalendars, DisjoinCalendars, _SplitServicePeriod...", "merge.py")],
 [], ["merged service periods' active dates, merge problems"])

prop("C18", "Shapes keep their points in order and locate distances exactly",
 "A shape holds exactly the points added to it and not cleared, ordered by sequence number whatever the order of addition; points added without a number are appended. Points with an invalid id, sequence number, coordinate or distance are reported and left out, repeated sequence numbers and travelled distances out of order with a neighbouring point are reported, and nothing else is. The point at a given travelled distance is the linear interpolation between the two enclosing points, the first or last point outside the range of the shape, and absent if distances are missing.",
 ["histories", "inputs"], "every sequence of point additions and any distance query",
 "Tests add three or four points in one order.",
 ["transitfeed/shape.py", "transitfeed/shapepoint.py"],
 [("AddShapePointObjectUnsorted, AddPoint, GetPointWithDistanceTraveled, ClearPoints", "transitfeed/shape.py")],
 [("points, sequence, distance, max_distance", "the polyline", "transitfeed/shape.py")],
 ["Shape queries, accumulated problems"])

prop("C19", "Extension classes registered with the factory are the ones used everywhere",
 "After any sequence of registering, replacing and removing table classes in a factory, look-ups by class name and by file name, the list of known and required files and the loading order reflect exactly the current registrations, and invalid registrations are refused without effect. Loading a feed, and making entities through the loaded schedule, builds every one with the current factory's class, so an extension's classes, columns and tables are used throughout in loading order, and other factories are unaffected.",
 ["histories", "configurations"], "every sequence of registry edits on several factories and feeds loaded through them",
 "Tests make a couple of registry edits on one factory.",
 ["transitfeed/gtfsfactory.py", "transitfeed/gtfsfactoryuser.py", "transitfeed/loader.py", "extensions/googletransit/setup_extension.py"],
 [("AddMapping, UpdateMapping, RemoveMapping, AddClass, UpdateClass, RemoveClass, GetLoadingOrder", "transitfeed/gtfsfactory.py")],
 [("class and file mappings", "the registry", "transitfeed/gtfsfactory.py")],
 ["GtfsFactory queries, class of loaded entities"])

prop("C20", "The schedule viewer answers every query from the loaded schedule",
 "The viewer's answers to its data requests (routes, patterns of a route, trips, a trip's stops and shape, stops near a point, in a box or by name, next trips at a stop) contain exactly the entities of the loaded schedule that satisfy the request, in the documented order and up to the documented limit. Next trips at a stop are its five earliest visits at or after the requested time by trips that run on the requested date. The graph of a pattern has one line for each trip of the route with the same stops, through the times of its visits at the heights of their stops. Requests for unknown objects get an error or empty answer, requests with missing or malformed parameters an error answer, and the server runs on.",
 ["inputs"], "every schedule and every request with any parameters",
 "Tests request a few pages of one sample feed and mostly check that some text appears.",
 ["schedule_viewer.py", "transitfeed/schedule.py", "transitfeed/trip.py"],
 [("handle_json_GET_*", "schedule_viewer.py"), ("GetNearestStops, GetStopsInBoundingBox", "transitfeed/schedule.py")],
 [], ["JSON answers of the viewer's handlers"])

prop("C21", "The schedule viewer serves only files of its own directory",
 "A static file request to the viewer is answered with the exact bytes of the named file of its file directory and the type for its extension, if the path is spelled plainly and the file name is made of lower-case letters, digits, underscores and hyphens with one dot. Any request path that resolves outside that directory, or to no regular file, gets a not-found answer and never the content of another file.",
 ["inputs"], "every request path, with dot segments, repeated slashes, encoded characters and sibling directories",
 "Tests request existing files only.",
 ["schedule_viewer.py"],
 [("handle_static_file_GET, OpenFile path check", "schedule_viewer.py")],
 [], ["HTTP answers of the viewer's request handler"])

prop("C22", "The KML export shows exactly the feed's stops, routes, trips and shapes",
 "The KML file written for a schedule has a placemark for each stop and each shape, and under each route one for each shape used by its trips, one for each pattern (distinct sequence of stops) of its trips with their number and ids, and with the trips option one for each trip (with the date option: each trip active on that date), and none other, with the names, descriptions, styles and coordinates (longitude,latitude, and altitude when asked) of the schedule. They are in the documented folders: Stops (by kind and with the connections to the parents with the hierarchy option), Routes or, with the split option, one Routes folder for each type, and Shapes (with the points of each when asked), sorted by name, patterns and shapes of a route by use. The file is complete when the writer returns. Reading a KML file adds a stop for each placemark with one coordinate and a shape for each line, with their names and coordinates; a line whose name is taken by a different line is kept under a new id.",
 ["inputs", "configurations"], "every schedule and every combination of export options; every KML document of points and lines",
 "Tests build single folders and count elements.",
 ["kmlwriter.py", "kmlparser.py"],
 [("KMLWriter.Write and folder methods", "kmlwriter.py"), ("KmlParser.Parse", "kmlparser.py")],
 [], ["the KML document", "Schedule built by the KML parser"])

prop("C23", "Shape graph search returns real, shortest paths",
 "Searching a graph of polylines for a path between two of its points returns a connected chain of polylines of the graph from the start to the goal, of least total length among all such chains, and reports that there is none exactly when the points are not connected. Matching a sequence of points returns paths ordered by their fit and keeps the best ones up to the requested number.",
 ["inputs"], "every graph of polylines and every choice of end points, including ties and dead ends",
 "Tests search one four-node graph.",
 ["transitfeed/shapelib.py"],
 [("PolyGraph.ShortestPath, FindMatchingPolys, _AddPathToHeap", "transitfeed/shapelib.py"), ("Poly merging, GreedyPolyMerge", "transitfeed/shapelib.py")],
 [], ["returned Poly objects"])

prop("C24", "Upgrading translations keeps each text's translation in each language",
 "Converting a feed with the old translation table to the new one preserves, for every translated text and language, the translation a reader of the feed resolves for each record and field in which that text occurs, and the new table has no entry for anything else. The texts in the tables become the feed-language text; all other tables, columns, rows and values are unchanged. Feeds that are not in the old format, lack a usable feed language or a text in it, or would be overwritten, are refused with a reason and no output, and the source feed is never changed.",
 ["inputs"], "every old-format feed: identifiers shared between tables, identifiers equal to other texts, missing languages, byte order marks, missing identifying columns",
 "Tests convert a handful of tiny feeds.",
 ["upgrade_translations.py"],
 [("OldTranslations, TranslationsConverter", "upgrade_translations.py")],
 [], ["converted feed directory"])

prop("C25", "The pathways graph shows exactly the station's locations and connections",
 "The drawing made of a feed's stations has one box for each chosen station (and for each of its platforms that has boarding areas), one node for every other location of it, inside the box of its station or platform, and one arrow for each pathway, directed as the pathway is and labelled with its mode and signs. Locations and pathways that the options leave out, and only those, are absent, and names, signs and identifiers come through the drawing's text exactly, whatever characters they hold. Parents and pathway ends that no stop has, and unknown stations asked for, are refused with a message and no drawing.",
 ["inputs", "configurations"], "every set of stops, levels and pathways, and each option",
 "Tests compare the output for a few fixed feeds.",
 ["visualize_pathways.py"],
 [("gtfs_to_graph, GraphNode, GraphEdge, GraphCluster, main", "visualize_pathways.py")],
 [], ["graph object / Graphviz text"])

prop("C26", "The unusual-trip filter marks exactly the rare patterns",
 "For each route, a trip is marked unusual exactly if the share of the route's trips that use its stop pattern is below the threshold, and every other trip of a processed route is marked usual (left unmarked, which means usual, unless overriding is requested). Trips of routes outside the selected route type keep their mark, unless a trip already carries a mark and overriding is not requested, in which case it is kept too. Running the filter twice gives the same marks.",
 ["inputs", "configurations"], "every distribution of trips over patterns and routes, threshold, and option",
 "Tests use one sample feed with one threshold.",
 ["unusual_trip_filter.py"],
 [("UnusualTripFilter.filter, filter_line", "unusual_trip_filter.py")],
 [], ["trip_type of the trips"])

prop("C27", "Times, dates, numbers, colours, URLs and languages are accepted iff well formed",
 "A field value is accepted exactly if it is well formed for its kind (time HH:MM:SS with minutes and seconds below 60, calendar dates that exist, coordinates in range, six-digit colours with enough contrast, non-negative numbers, URLs, e-mail addresses, language tags, currencies, time zones, enumerations), and any other value is reported with its field and value. An accepted value denotes what its text says: conversions between text and internal value are inverse to each other.",
 ["inputs"], "every text in every validated field",
 "Tests try a few good and bad values for some fields.",
 ["transitfeed/util.py", "transitfeed/stop.py", "transitfeed/route.py", "transitfeed/agency.py", "transitfeed/feedinfo.py", "transitfeed/serviceperiod.py", "transitfeed/stoptime.py", "transitfeed/shapepoint.py"],
 [("TimeToSecondsSinceMidnight, FormatSecondsSinceMidnight, DateStringToDateObject, FloatStringToFloat, IsValidURL, ValidateLatitude, ...", "transitfeed/util.py")],
 [], ["conversion results, accumulated problems"])

prop("C28", "Fare and transfer rules are checked and linked exactly",
 "Each fare rule is linked to the fare it names and is reported exactly if it names no fare or a fare, route or zone that does not exist, and each zone is known exactly if some stop uses it. A fare is reported exactly if its price, currency, payment method, transfer count or transfer duration is invalid. A transfer is reported exactly if its stops do not exist, its type or minimum time is invalid, or its distance is too long or too fast to walk, and further transfers between the same two stops are reported as duplicates, to the reporter given.",
 ["inputs"], "every combination of fares, fare rules, zones, stops and transfers",
 "Tests check each rule once.",
 ["transitfeed/fareattribute.py", "transitfeed/farerule.py", "transitfeed/transfer.py", "transitfeed/schedule.py"],
 [("FareAttribute.Validate, AddFareRuleObject, Transfer.Validate*, AddTransferObject", "transitfeed/fareattribute.py, transitfeed/transfer.py, transitfeed/schedule.py")],
 [], ["accumulated problems, schedule fare and transfer lists"])

prop("C29", "Stop hierarchy and distance rules are checked exactly",
 "Validation reports exactly the stops that are too close to another stop or station, too far from their parent station, have a parent that does not exist or is not a station, are a station used in a trip, are a station with a parent, or are plain stops used by no trip. Missing names and descriptions that repeat the name, and children with a time zone of their own, are reported likewise, and no stop is reported that breaks none of these rules, whatever the order of the stops and also on the equator and the prime meridian.",
 ["inputs"], "every arrangement of stops, stations and parents at any distances",
 "Tests place a few stops at fixed distances.",
 ["transitfeed/stop.py", "transitfeed/schedule.py", "transitfeed/util.py"],
 [("Stop.Validate*, Schedule.ValidateStops, ValidateNearbyStops, ValidateStopsTooDifferent...", "transitfeed/stop.py, transitfeed/schedule.py")],
 [], ["accumulated problems"])

prop("C30", "Disagreements of agencies, routes, trips and shapes are reported exactly",
 "Validating a schedule reports, once each, exactly these disagreements: agencies in different time zones or in another language than the feed, an agency without an identifier beside others, a route of an unknown agency, routes that share both names, trips that repeat another trip's service, start and stops (if asked for), a stop served by both subway and bus, and a shape used by no trip. A route is reported exactly if it has no name or a too long short name, its long name repeats or begins with the short one, its description repeats a name, its type is unknown, or its text does not stand out from its colour. This holds after loading and after any edits, each report naming the entities concerned.",
 ["inputs", "histories"], "every combination of agencies, similar routes, similar trips and shapes, and every sequence of edits between validations",
 "Tests check each rule on one or two entities, once, right after loading.",
 ["transitfeed/schedule.py", "transitfeed/route.py", "transitfeed/agency.py"],
 [("ValidateAgenciesHaveSameAgencyTimezone, ValidateFeedInfoLangMatchesAgencyLang, ValidateRouteNames, ValidateTrips, ValidateShapes, ValidateStops..., ValidateRouteAgencyId", "transitfeed/schedule.py"), ("Route.Validate*", "transitfeed/route.py")],
 [], ["accumulated problems"])

prop("C31", "The Google extension checks language tags and its own fields exactly",
 "With the Google extension, an agency's language is accepted exactly if it is a valid BCP 47 tag: a malformed tag is reported as an error, and a well-formed one with unregistered or repeated parts as a warning, in any letter case and for any characters. Kinds of vehicles, entrances, emissions and agencies of fares are reported exactly if they break the extension's rules, each once, with the row, column and value at fault, and trips are too fast exactly if they exceed the limit of their kind of vehicle. The values loaded are kept when the feed is written and read again.",
 ["inputs", "histories"], "every sequence of subtags in any order and case; every combination of the extension's columns, and edits between validations",
 "Tests try some dozens of tags, mostly with one flaw in the first subtags, and each rule of the fields on one stop.",
 ["extensions/googletransit/pybcp47/bcp47languageparser.py", "extensions/googletransit/extension_util.py", "extensions/googletransit/agency.py", "extensions/googletransit/fareattribute.py", "extensions/googletransit/route.py", "extensions/googletransit/stop.py"],
 [("Bcp47LanguageParser", "extensions/googletransit/pybcp47/bcp47languageparser.py"), ("ValidateVehicleType, ValidateStopLocationType, ValidateCo2PerKm, ValidateAgencyId", "extensions/googletransit/stop.py, route.py, fareattribute.py")],
 [], ["accumulated problems, loaded and rewritten values"])

prop("C32", "The location editor moves and saves exactly the stop asked for",
 "A request to move a stop puts exactly that stop at the given place, shown by every later answer, and is answered with success; one for an unknown stop, or with a coordinate that is missing, malformed or not on earth, is refused and moves nothing. Saving writes the schedule over the feed: its stops are then where they were last put, everything else in it is as before, and only a save changes the feed. Ended and started again, the editor shows the saved feed, and no request stops it.",
 ["histories", "inputs"], "every sequence of moves, saves, restarts and other requests, with any parameters",
 "No test covers the editor.",
 ["location_editor.py", "schedule_viewer.py", "transitfeed/schedule.py"],
 [("handle_json_GET_setstoplocation, handle_json_GET_savedata", "location_editor.py"), ("WriteGoogleTransitFeed", "transitfeed/schedule.py")],
 [("stop_lat, stop_lon", "where each stop is shown", "transitfeed/stop.py"), ("feed_path", "the feed that is saved over", "location_editor.py")], ["HTTP answers", "the saved feed"])

prop("C33", "Imported shapes are put on exactly the trips they fit",
 "Importing lines into a feed gives every trip of a pattern, and only of patterns of two or more stops, one shape: of the lines from near its first stop to near its last the one that passes its stops closest, if none of them is further away than allowed; where no line runs all the way, the shortest path of lines past all the stops in turn. Trips that nothing fits keep what they had, the feed's own shapes and everything else in it are unchanged, no two shapes share an identifier, and the import ends with the new feed whatever names and trips the feed has.",
 ["inputs", "configurations"], "every network of lines, feed and option",
 "No test covers the importer, and its parts are tested on one small graph.",
 ["shape_importer.py", "transitfeed/shapelib.py", "transitfeed/route.py"],
 [("main, GetMatchingShape, AddShapefile, AddExtraShapes", "shape_importer.py"), ("FindMatchingPolys, FindShortestMultiPointPath, GreedyPolyMatchDist", "transitfeed/shapelib.py"), ("GetPatternIdTripDict", "transitfeed/route.py")],
 [], ["trips and shapes of the written feed"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
