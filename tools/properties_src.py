prop('C01', 'Clock times are read exactly and survive a round trip',
 'A time text is accepted exactly when it is one to three hour digits, a colon, two minute digits below 60, a colon and two second digits below 60, and its value is then 3600*hours + 60*minutes + seconds; any other text is rejected. Every whole number of seconds from 0 up to 999:59:59 is printed as HH:MM:SS (hours at least two digits) that reads back as the same number.',
 ['inputs'], 'every single-line text and every second count in 0..3599999',
 'Tests read about a dozen times; the accepted language and 3.6 million values cannot be listed.',
 [T+'util.py', T+'stoptime.py'], [('time parser', 'util.TimeToSecondsSinceMidnight'), ('time printer', 'util.FormatSecondsSinceMidnight')])
prop('C02', 'A date text is accepted exactly when it names a real calendar day',
 'A date text is accepted exactly when it is eight digits YYYYMMDD naming a real Gregorian day (leap years included), and it is then converted to that day. A calendar start date, end date or exception date that is blank, malformed, not a real day or has a year outside 1900-2100 is reported on validation, and a valid one is not.',
 ['inputs'], 'every text of eight or nearby characters',
 'Month-length and leap-year boundaries are sampled at a handful of dates only.',
 [T+'util.py', T+'serviceperiod.py'], [('date conversion', 'util.DateStringToDateObject'), ('service date validation', 'ServicePeriod.ValidateDate')])
prop('C03', 'A service runs on exactly the days its calendar and exceptions say',
 'A service is active on a day iff the day is an added exception, or is not a removed exception and lies within start..end (inclusive) on a weekday flagged as having service. The list of active dates is exactly those days in increasing order, each once, and the service date range spans start..end widened by added exceptions only.',
 ['inputs'], 'every weekday mask, start/end dates and set of added/removed exceptions, including missing start/end',
 'Tests use a few fixed calendars; interactions of range, weekday and exceptions are combinatorial.',
 [T+'serviceperiod.py'], [('activity test', 'ServicePeriod.IsActiveOn'), ('active dates', 'ServicePeriod.ActiveDates'), ('range', 'ServicePeriod.GetDateRange')])
prop('C04', 'The feed date range covers all services and honours feed-info dates',
 'The feed start (end) date is the earliest (latest) date over the ranges of all its services, replaced by the feed-info start (end) date when that is set; if no service has dates there is no range. The origin reported with each bound names the source that produced it: regular calendar, an added exception on that date of the service that supplies it, or feed info.',
 ['inputs'], 'every list of services with or without dates, added exceptions and feed-info bounds',
 'Tests cover one or two services; which service supplies the bound varies with order and missing dates.',
 [T+'schedule.py'], [('range and origin', 'Schedule.GetDateRangeWithOrigins')])
prop('C05', 'Per-day trip and departure totals count every run of every active service',
 'For each day of a requested half-open date range, in order, the reported services are exactly those active that day; the number of trips is the sum over trips of active services of their runs (one, or one per frequency start time), and departures is runs times (stop times - 1), for trips that have stop times.',
 ['inputs'], 'every small set of services, trips, frequencies and date ranges',
 'Totals are asserted for a couple of feeds; the counting over all mixes of services and frequencies is not.',
 [T+'schedule.py'], [('active services per day', 'Schedule.GetServicePeriodsActiveEachDate'), ('totals', 'Schedule.GenerateDateTripsDeparturesList')])
prop('C06', 'Service gaps are reported exactly when they are long enough',
 'Between the first service day (or, if later, gap-length-minus-one days before today) and, exclusive, the last service day (or the day 365 days after today if earlier), every maximal run of consecutive days without trips lasting at least the configured number of days is reported once with its first day, last day and length, and no shorter run is. Nothing is reported when no gap length is configured.',
 ['inputs'], 'every activity pattern over the range, gap length and position of today',
 'Gaps at range ends, back-to-back gaps and exact-length gaps are sampled in a few fixed calendars.',
 [T+'schedule.py'], [('gap scan', 'Schedule.ValidateServiceGaps'), ('window', 'Schedule.ValidateServiceRangeAndExceptions')])
prop('C07', 'Expiry, future-start, missing-exception and no-service warnings are exact',
 'Validation warns that a feed expires iff its last day is less than 60 days after today, that service starts in the future iff its first day is after today, that there are no service exceptions iff the feed spans at least 182 days and no service has an exception, and that there are no effective dates iff there is no date range.',
 ['inputs'], 'every today, first day, last day and exception layout',
 'Threshold days are sampled at one or two distances.',
 [T+'schedule.py'], [('expiry', 'Schedule.ValidateFeedStartAndExpirationDates'), ('exceptions', 'Schedule.ValidateServiceExceptions')])
prop('C08', 'Impossible stop times are detected and possible ones are not flagged',
 'For a trip, an error is reported iff a stop departs before it arrives, has only one of the two times or an unreadable time, arrives before the departure of the latest preceding accepted timed stop (one stored without departure gives no constraint), a sequence number is repeated, or, with two or more stop times, the first or last stop has no time; travelled distances are an error iff negative or below an earlier one and a warning iff equal to the previous maximum. A trip with consistent times, distances and sequence numbers gets none of these reports.',
 ['inputs'], 'every assignment of times, blanks, distances and sequence numbers to a short trip',
 'Each violation is tested on one hand-written trip; combinations with untimed stops are not.',
 [T+'trip.py', T+'stoptime.py'], [('order checks', 'Trip.ValidateStopTimesSequenceHasIncreasingTimeAndDistance'), ('per-stop checks', 'StopTime.__init__'), ('duplicate sequence', 'Trip.ValidateNoDuplicateStopSequences')])
prop('C09', 'Too-fast travel is reported exactly when the speed limit is exceeded',
 'Between a timed stop and the nearest earlier timed stop that did not itself go back in time, both located, the earlier having a departure, a too-fast warning is reported iff distance over elapsed time exceeds the maximum speed of the route type (that of a tram if the type is unknown); when no time elapses it is reported iff the departure is not on a whole minute or the distance could not be covered in one minute at that speed.',
 ['inputs'], 'every distance, time pair and route type',
 'The thresholds are sampled at a few speeds.',
 [T+'trip.py', T+'route.py'], [('speed check', 'Trip._CheckSpeed'), ('speed table', 'Route._ROUTE_TYPES')])
prop('C10', 'A trip returns its stops in visiting order with its true start and end',
 'However stop times were inserted, a trip lists exactly its own stop times ordered by sequence number with all fields as given, counts them, starts at the first one\'s arrival (else departure) and ends at the last one\'s departure (else arrival). Appending a stop time gives it the next sequence number (1 for an empty trip) and reports it iff its time is earlier than an already stored time or it is first and untimed. Replacing a stop time changes only that record and clearing removes only that trip\'s.',
 ['inputs', 'histories'], 'every insertion order, sequence numbering and time assignment over interleaved trips',
 'Tests insert mostly in order into one trip.',
 [T+'trip.py', T+'schedule.py'], [('storage and query', 'Trip.GetStopTimes, Trip.AddStopTimeObject, Trip.GetStartTime, Trip.GetEndTime'), ('replacement', 'Trip.ReplaceStopTimeObject')])
prop('C11', 'Interpolated times stay between timed stops and in order',
 'For a trip whose first and last stops are timed, every timed stop keeps its own time and is marked as a timepoint, every untimed stop gets a whole-second time proportional to distance between the surrounding timed stops, marked as not a timepoint, never before the preceding or after the following result when times are non-decreasing. If the first or last stop is untimed a value error is raised; an empty trip gives an empty list.',
 ['inputs'], 'every mix of timed and untimed stops, times and inter-stop distances',
 'Two or three fixed trips with real coordinates are tested.',
 [T+'trip.py'], [('interpolation', 'Trip.GetTimeInterpolatedStops')])
prop('C12', 'Frequency trips expand to the right start times and shifted stop times',
 'Each frequency window contributes start, start+headway, ... strictly before its end; the runs of a trip are listed by start time, and each run repeats the trip\'s stop pattern with every arrival and departure shifted by run start minus first arrival, untimed stops staying untimed and all other fields unchanged, for trips whose first stop is timed and other stops are fully timed or untimed.',
 ['inputs'], 'every window, headway, pattern of timed/untimed stops and several windows',
 'One or two windows with round numbers are tested.',
 [T+'trip.py'], [('start times', 'Trip.GetFrequencyStartTimes'), ('expansion', 'Trip.GetFrequencyStopTimes')])
prop('C13', 'Frequency input is validated and overlapping windows are all reported',
 'A frequency with blank, unreadable or negative start or end, blank, non-integer or non-positive headway is reported and not stored; an end not after the start, or an exact-times flag other than 0 or 1 (blank means 0), is reported. Every pair of a trip\'s windows whose end is after their start is reported as overlapping iff they share an instant, touching ends excluded. The deprecated headway-period methods behave the same.',
 ['inputs'], 'every start, end, headway and flag value, numeric or text; every set of windows',
 'Each rejection is tested with one value; overlap pairs are sampled.',
 [T+'trip.py', T+'frequency.py'], [('admission', 'Trip.AddFrequency'), ('overlap', 'Trip.ValidateFrequencies')])
prop('C14', 'Block overlaps are reported for exactly the conflicting trip pairs',
 'Two trips of the same block, each ending after it starts, are reported as overlapping iff the time one ends is after the time the other (starting no earlier) starts and they can run on a common day: same service, or two known services sharing an active date. Trips of different blocks, without a block, or merely touching in time are never reported, and every conflicting pair is reported once.',
 ['inputs'], 'every set of trips with times, blocks and services',
 'Tests use two or three trips; early termination and caching paths over more trips are unexercised.',
 [T+'schedule.py'], [('block check', 'Schedule.ValidateBlocks, Schedule.ValidateTrips')])
prop('C15', 'Long runs of identical stop times are reported exactly',
 'A trip is warned about once for each maximal run of more than five consecutive stop times sharing one instant (a stop followed by stops that both arrive and depart when it departs), where untimed stops between two such stops count toward the run and leading or trailing untimed stops do not; the reported count and time are those of the run.',
 ['inputs'], 'every sequence of timed and untimed stops',
 'A few fixed sequences are tested.',
 [T+'schedule.py'], [('run counter', 'Schedule.ValidateStopTimesForTrip')])
prop('C16', 'Shape points are kept in sequence order whatever the input order',
 'After adding points in any order a shape holds every accepted point exactly once, ordered by sequence number with positions, distances and numbers in step, and its maximum distance is the largest given. A repeated sequence number, and a distance that is larger than the next point\'s or smaller than the previous point\'s, are reported (neighbours without a distance are not compared); consistent input is not. Clearing the points removes everything about them.',
 ['inputs', 'histories'], 'every insertion order, sequence numbering and distance assignment',
 'Only a few insertion orders are tested.',
 [T+'shape.py', T+'shapepoint.py'], [('sorted insertion', 'Shape.AddShapePointObjectUnsorted')])
prop('C17', 'The point at a travelled distance lies on the right shape segment',
 'For a shape with non-decreasing distances, a query at or beyond an end gives that end point, any other query gives the point dividing, in proportion to distance, the segment whose end distances bracket it, labelled with the queried distance; no shape points means no answer.',
 ['inputs'], 'every shape with a few points and every query distance',
 'Five query distances on one shape are tested.',
 [T+'shape.py'], [('lookup and interpolation', 'Shape.GetPointWithDistanceTraveled')])
prop('C18', 'Identifiers stay unique: repeats are reported and the first one is kept',
 'Adding an agency, stop, route, trip, service, fare, or shape whose id already exists in the feed is reported as a duplicate and leaves the first object in place, while a new id is added without a duplicate report; a duplicate transfer is reported as a warning and kept. A generated id never equals one in use.',
 ['inputs', 'histories'], 'every sequence of additions over colliding and distinct ids',
 'One duplicate per kind is tested, mostly through loaded feeds.',
 [T+'schedule.py', T+'util.py'], [('admission', 'Schedule.Add*Object'), ('fresh ids', 'util.FindUniqueId')])
prop('C19', 'Dangling references between feed records are always reported',
 'A trip naming an unknown route, service or shape, a route naming an unknown agency, a fare rule naming an unknown fare, route or zone, a transfer naming an unknown stop, a stop naming an unknown or non-station parent, and a stop time naming an unknown trip or stop are each reported; when every reference resolves none of these is reported.',
 ['inputs'], 'every combination of present, absent and blank references',
 'Each dangling reference is tested once in isolation.',
 [T+'schedule.py', T+'trip.py', T+'transfer.py', T+'loader.py'], [('trip references', 'Trip.Validate'), ('route agency', 'Schedule.AddRouteObject'), ('fare rules', 'Schedule.AddFareRuleObject'), ('stop times', 'Loader._LoadStopTimes'), ('parents', 'Schedule.ValidateStops')])
prop('C20', 'Each CSV cell reaches the column its header names',
 'Reading a feed table yields for each non-empty row a record whose value for each known column is the stripped cell under that header name; cells missing at the row end are treated as absent or blank, extra cells are ignored, and both are warned about per row with its line number. Duplicate, unknown, missing required and deprecated header names are each reported, and nothing is reported for a clean table.',
 ['inputs'], 'every small table over known, unknown, blank and repeated headers and ragged rows',
 'A handful of malformed tables is tested.',
 [T+'loader.py'], [('dict reader', 'Loader._ReadCsvDict'), ('tuple reader', 'Loader._ReadCSV')])
prop('C21', 'Inconsistent or illegal line endings in feed files are reported',
 'Reading a file yields each line without its ending; a line ending other than LF or CR LF is reported for that line, and a file mixing LF and CR LF is reported once with the true number of each and the first five line numbers of each. A form feed, CR or Unicode line separator inside a line is reported once per kind and line. A file with only LF or only CR LF endings (last line ending optional) and none of these gets no report.',
 ['inputs'], 'every short text over letters, CR and LF',
 'A few fixed mixtures are tested.',
 [T+'util.py'], [('line checker', 'util.EndOfLineChecker')])
prop('C22', 'A written feed loads back with the same stop times, calendars and frequencies',
 'Rows written for stop times, calendars, calendar exceptions, frequencies, fares and fare rules, when read back by the loader, give objects with the same times, sequence numbers, types, distances, dates, weekday flags, exceptions and prices, zero values included. Columns are written in the order of the header row.',
 ['inputs'], 'every in-range field value, zero and blank included',
 'Round trips are tested on the sample feeds only, which hold no zero-valued fields.',
 [T+'stoptime.py', T+'serviceperiod.py', T+'trip.py', T+'fareattribute.py', T+'farerule.py'], [('stop time rows', 'StopTime.GetFieldValuesTuple'), ('calendar rows', 'ServicePeriod.GetCalendarFieldValuesTuple'), ('frequency rows', 'Trip.GetFrequencyOutputTuples'), ('fare rows', 'FareAttribute.GetFieldValuesTuple')])
prop('C23', 'Numeric field texts are classified correctly',
 'A non-negative integer text reads as its value and is flagged iff it has a sign, surrounding blanks or a superfluous leading zero, and is rejected iff it is not an integer or negative; a decimal text reads as its value and is flagged unless it is optional sign, digits and optional point with digits. A choice field returns its integer value, warns iff that is not an allowed choice, reports an error and uses the default iff it is not an integer, and uses the default silently iff blank is allowed and it is blank.',
 ['inputs'], 'every text up to a few characters over digits, signs, point, blanks and letters',
 'A couple of dozen texts are tested.',
 [T+'util.py'], [('integer', 'util.NonNegIntStringToInt'), ('decimal', 'util.FloatStringToFloat'), ('choice', 'util.ValidateAndReturnIntValue')])
prop('C24', 'URL, e-mail, colour, language and yes/no fields are judged by their format',
 'A URL is valid iff it starts with http:// or https://; a colour iff it is exactly six hex digits; an e-mail iff it begins with non-empty text without @, one @, then text without @ holding a dot with at least one character on each side; a language iff it is, ignoring case, a known two-letter code; a yes/no/unknown field iff it is 0, 1 or 2. Blank optional fields are valid, each invalid value is reported once under its column, and no valid value is.',
 ['inputs'], 'every short single-line text',
 'Each format is tested with two or three texts.',
 [T+'util.py', T+'agency.py'], [('format checks', 'util.ValidateURL, util.ValidateEmail, util.IsValidHexColor, util.ValidateLanguageCode, util.ValidateYesNoUnknown')])
prop('C25', 'Stop records are validated exactly',
 'A stop is reported for each missing required field, a latitude outside -90..90 or longitude outside -180..180 or not numeric, being within one degree of 0,0 in both coordinates (warning), a description equal to its name ignoring case and outer blanks (warning), a station with a parent, a time zone on a stop that has a parent (warning), an unreadable location type (error) or one outside 0-4 (warning); a stop with none of these is not reported.',
 ['inputs'], 'every latitude, longitude, location type, parent and text combination',
 'Boundaries are tested at one or two values.',
 [T+'stop.py'], [('validators', 'Stop.ValidateBeforeAdd')])
prop('C26', 'Transfer records are validated exactly',
 'A transfer is rejected iff it lacks a stop id, its type is not blank or 0-3, or its minimum time is neither blank nor an integer (a text must be a non-negative integer); it is reported for a minimum time with a type other than 2, a negative time or one of 24 h or more (error), one of 3 h up to 24 h (warning), a distance above 10 km (error) or above 2 km (warning), and when time plus 120 s is too short to walk the distance at 2 m/s. A transfer with none of these is not reported.',
 ['inputs'], 'every type, minimum time and distance',
 'Thresholds are tested one side at a time.',
 [T+'transfer.py'], [('validators', 'Transfer.ValidateBeforeAdd, Transfer.ValidateAfterAdd')])
prop('C27', 'Fare records are validated exactly',
 'A fare is reported iff its id or currency is blank, its price is blank, not a number or negative, its currency is not a known ISO 4217 code, its payment method is not 0 or 1, its transfers are not blank, 0, 1 or 2, or its transfer duration is not blank or a non-negative integer; a duration with no transfers allowed is not by itself an error.',
 ['inputs'], 'every combination of field values',
 'Each wrong field is tested once.',
 [T+'fareattribute.py'], [('validators', 'FareAttribute.Validate')])
prop('C28', 'Route records are validated exactly',
 'A route is reported iff its id or type is blank, both names are blank, the short name exceeds six characters, the long name equals the short name or starts with it followed by blank, ( or -, ignoring case and outer blanks, its description equals a name, its type is not a known integer type, a colour is not six hex digits, or text and background luminance differ by less than 510/7; two routes sharing both names ignoring case and outer blanks are reported once.',
 ['inputs'], 'every name, colour and type value',
 'Contrast and name rules are sampled at a few values.',
 [T+'route.py', T+'schedule.py', T+'util.py'], [('validators', 'Route.ValidateBeforeAdd'), ('name clash', 'Schedule.ValidateRouteNames'), ('luminance', 'util.ColorLuminance')])
prop('C29', 'Every problem is counted and the exit status tells whether there were any',
 'For any stream of reported problems, problems of ignored kinds excluded, the validator counts every error, warning and notice per kind, and its exit status is 1 iff at least one error or warning was reported and 0 otherwise.',
 ['histories', 'configurations'], 'every sequence of problems of mixed kinds and severities and every ignore list',
 'Tests validate a few feeds.',
 ['feedvalidator.py', T+'problems.py'], [('counting', 'feedvalidator.LimitPerTypeProblemAccumulator, BoundedProblemList'), ('routing', 'problems.ProblemReporter.AddToAccumulator')])
prop('C30', 'Limited problem lists keep the most significant problems',
 'With a limit of n problems per kind, the problems shown for a kind are the n most significant ones reported (all when fewer), in whatever order they arrive, the number dropped is exact, and kinds without a ranking keep the first n reported.',
 ['histories'], 'every arrival order and size of problems of one kind',
 'One arrival order per limit is tested.',
 ['feedvalidator.py', T+'problems.py'], [('bounded list', 'feedvalidator.BoundedProblemList.Add'), ('ranking', 'problems.*.__cmp__')])
prop('C31', 'Nearest-stop and bounding-box queries return the right stops',
 'The n nearest stops query returns min(n, number of stops) distinct stops ordered by squared coordinate distance such that no omitted stop is strictly nearer than a returned one. The bounding-box query returns only stops inside the closed box, distinct, and min(n, number inside) of them; the overall bounding box is the tight one.',
 ['inputs'], 'every set of stop positions, query point or box and n',
 'One layout is tested.',
 [T+'schedule.py'], [('queries', 'Schedule.GetNearestStops, Schedule.GetStopsInBoundingBox, Schedule.GetStopBoundingBox')])
prop('C32', 'Merging gives fresh ids that no input record uses',
 'An id generated while merging two feeds is never an id of any agency, stop, zone, route, trip, service, fare or shape of either feed, nor one generated before in that merge, and it starts with the original id when there is one.',
 ['inputs', 'histories'], 'every pair of feeds with ids over letters, digits and underscores',
 'Two or three ids are tested.',
 ['merge.py'], [('id generator', 'FeedMerger.GenerateId, FeedMerger._FindLargestIdPostfixNumber')])
prop('C33', 'Merging loses, duplicates and confuses no record',
 'After merging by id, every record of either feed maps to exactly one record of the merged feed; two records share one only if they have the same id and satisfy the merge rules for their kind; records kept apart get distinct ids, keeping the original id when it was used by only one feed; merged and not-merged counts add up; of transfers between the same two merged stops the new feed\'s is kept and no other is lost.',
 ['inputs'], 'every pair of small feeds with overlapping ids and equal or differing attributes',
 'Tests cover one pair of records per kind.',
 ['merge.py'], [('merge by id', 'DataSetMerger._MergeSameId'), ('rules', '*Merger._MergeEntities')])
prop('C34', 'References in a merged feed follow renamed records',
 'In the merged feed every trip refers to the route, service and shape its original referred to, every route to its agency, every child stop to its parent, every fare rule and stop zone to its fare, route and zone, and every trip keeps its stop times in order with the same times and types; blocks of different feeds stay different. Two stops of one feed share a zone in the merged feed iff they did before, and a stop without a zone has none.',
 ['inputs'], 'every pair of small feeds with colliding ids',
 'One collision at a time is tested.',
 ['merge.py'], [('trip migration', 'TripMerger._Migrate'), ('stops and zones', 'StopMerger.MergeDataSets'), ('fare rules', 'FareRuleMerger.MergeDataSets')])
prop('C35', 'Cutting calendars at a date makes old and new service disjoint and complete',
 'After cutting at a date, the old feed is active on exactly its former active days before that date and the new feed on exactly its former active days from that date on. The disjointness test answers yes iff no old service date range intersects a new one.',
 ['inputs'], 'every pair of calendars with exceptions and every cut date',
 'One cut is tested.',
 ['merge.py'], [('cut', 'ServicePeriodMerger.DisjoinCalendars'), ('test', 'ServicePeriodMerger.CheckDisjointCalendars')])
prop('C36', 'KML coordinates are longitude first and round trip to stops',
 'Coordinates are written as longitude,latitude with an altitude only when one is given, in the order of the points; a placemark read back becomes one stop with that name at that latitude and longitude, and anything that is not a point placemark yields no stop.',
 ['inputs'], 'every list of coordinates and altitudes',
 'One or two fixed documents are tested.',
 ['kmlwriter.py', 'kmlparser.py'], [('writer', 'KMLWriter._CreateLineString'), ('reader', 'KmlParser.ParseDom')])
prop('C37', 'Shortest-path search over a polyline graph finds a shortest path',
 'In a graph of polylines, the path found between two nodes is a chain of connected polylines from the first to the second whose total length is the least possible, and none is returned iff the second cannot be reached.',
 ['inputs'], 'every small graph and edge lengths consistent with straight-line distance',
 'Two fixed graphs are tested.',
 [T+'shapelib.py'], [('A* search', 'PolyGraph.ShortestPath')])
prop('C38', 'Joining, cutting and matching polylines keeps their points',
 'Merging polylines gives all their points in order, except that a first point within the tolerance of the point before it is dropped; cutting at the point nearest to a place splits the points in order there, with that nearest point opening the rest. The nearest point of a segment is the one straight across if there is one and else the closer end. Keeping the n best candidates keeps the n shortest whatever order they are offered in. A collection keeps every polyline added, variants of one name under distinct names, and matches exactly those with both ends inside the radius.',
 ['inputs', 'histories'], 'every end-point layout, distance and order of candidates',
 'Fixed polylines are tested.',
 [T+'shapelib.py'], [('merge and cut', 'Poly.MergePolys, Poly.CutAtClosestPoint, GetClosestPoint'), ('n best', 'PolyGraph._AddPathToHeap'), ('collection', 'PolyCollection.AddPoly, FindMatchingPolys')])
prop('C39', 'The viewer serves only plain files of its own directory',
 'For any request path, the viewer opens a local file only when the requested name is a single plain file name of letters, digits, underscore, hyphen and one inner dot, without a directory part, and sends exactly its content; any other file request is answered with not-found. A page or data request reaches only the handler of that name with the decoded query parameters, and an unknown one is answered with not-found.',
 ['inputs'], 'every request path text',
 'No test sends a hostile path.',
 ['schedule_viewer.py'], [('routing', 'ScheduleRequestHandler.do_GET, OpenFile, handle_static_file_GET, handle_GET_home')])
prop('C40', 'The viewer answers about stops, trips and patterns correctly',
 'The departures listed for a stop are the next five, by possibly interpolated time, at or after the asked time (from midnight when none is given) of trips that run on the asked date (any when none is given), earliest first, each with its trip id, route and latest headsign as name, service and timepoint mark. Route patterns group the trips that visit the same stops in the same order and that run on the date, with three sample trips by start time from the asked time on, or the last three. A trip is shown with all its stops, times and shape points in order; stop search finds exactly the stops with the text in id or name in any letter case; the editor moves only the named stop, none if it is unknown.',
 ['inputs'], 'every small timetable, query time and date',
 'One feed is queried, or none.',
 ['schedule_viewer.py', 'location_editor.py', T+'stop.py', T+'route.py', T+'trip.py'], [('stop trips', 'handle_json_GET_stoptrips'), ('patterns', 'handle_json_GET_routepatterns, Route.GetPatternIdTripDict, SortListOfTripByTime'), ('trip', 'handle_json_GET_tripstoptimes, handle_json_GET_tripshape')])
prop('C41', 'The string-line graph places stations and trips consistently',
 'Stations on the string-line graph are placed in travel order within the graph, in proportion to the distance between stops, or to the travel time when the stops are all at one place; every timed stop of every trip is drawn at the height of its station, one pixel per minute after the first hour shown; highlights lie on the station or trip named and can be taken off again; five to thirty whole hours are shown, starting an hour before the first departure, labelled with the hour of the day, and the zoom stays between 0 and 5 exclusive.',
 ['inputs'], 'every list of distances, times and settings',
 'A couple of drawings are compared.',
 ['gtfsscheduleviewer/marey_graph.py'], [('stations', 'MareyGraph._BuildStations, _CalculateYLines, _TravelTimes'), ('trips', 'MareyGraph._DrawTrips'), ('settings', 'MareyGraph.SetSpan, ChangeScaleFactor')])
prop('C42', 'Unusual trips are exactly those with rare stop patterns',
 'For each route (or only those of a requested type), a trip is marked unusual iff the share of the route\'s trips having its stop pattern is below the threshold, and marks are only ever changed on such trips.',
 ['inputs'], 'every distribution of trips over patterns and every threshold',
 'One feed and threshold is tested.',
 ['unusual_trip_filter.py'], [('marking', 'UnusualTripFilter.filter_line')])
prop('C43', 'Upgrading translations keeps every translation and drops none',
 'Upgrading old-format translations gives, for every feed text that has old translations, a row per table field, text and language with the same translation, none for texts not in the feed, none twice, and the feed default language chosen consistently.',
 ['inputs'], 'every small set of texts, languages and translations',
 'One or two feeds are tested.',
 ['upgrade_translations.py'], [('upgrade', 'OldTranslations, TranslationsConverter')])
prop('C44', 'Pathway graphs contain every stop and pathway with safe identifiers',
 'The generated graph text has a cluster for each chosen station and each platform with boarding areas, a node for each other chosen stop within its station or platform, and one edge per pathway between chosen stops with the right ends, direction and label; without a choice every station with a pathway is chosen. Any id is left plain only when it is a plain identifier that is no word of the language, and otherwise quoted so that it reads back as the same id.',
 ['inputs'], 'every short id text and small pathway set',
 'A few ids are tested.',
 ['visualize_pathways.py'], [('escaping', 'escape_graphviz_id'), ('graph', 'gtfs_to_graphviz')])
prop('C45', 'Language tags are accepted exactly when they follow BCP 47',
 'A language tag is well formed iff it follows the BCP 47 grammar for language, script, region, variants, extensions and private use, and valid iff additionally each subtag is registered, ignoring case.',
 ['inputs'], 'every tag up to a bounded number of characters',
 'A list of sample tags is tested.',
 ['extensions/googletransit/pybcp47/bcp47languageparser.py'], [('parser', 'Bcp47LanguageParser.ParseLanguage')])
prop('C46', 'Version comparison is numeric by component',
 'A newer-version report is given iff the offered version (given, or the first dotted one after version= on the project page) is greater than the running one component by component as integers, and names it; a page that cannot be reached or understood gives one notice and never a crash.',
 ['inputs'], 'every pair of dotted versions',
 'Two versions are tested.',
 [T+'util.py'], [('maximum', 'util._MaxVersion, util.CheckVersion')])
prop('C47', 'Problem text wrapping and date listing lose nothing',
 'Wrapping a problem text to a width breaks only at blanks, exactly where the next word does not fit, keeps every word in order, and no line with more than one word exceeds the width; a date list names the first three dates in order and states how many there are in total; a problem count names errors and warnings with the right plurals.',
 ['inputs'], 'every short text and width, every list of dates',
 'A few texts are tested.',
 [T+'problems.py', 'feedvalidator.py'], [('wrapping', 'ExceptionWithContext._LineWrap'), ('dates', 'feedvalidator.FormatDateList')])
prop('C48', 'Feed records compare equal exactly when all their fields agree',
 'Two feed records are equal iff every field has the same text in both, a missing field counting as blank (fares: and the same rules in any order; service periods: the same calendar and exception rows; shapes: the same points); equality is reflexive and symmetric, inequality is its negation, nothing equals no record, and reading a field by name gives its text or blank.',
 ['inputs'], 'every pair of records over a few fields, present, blank or missing',
 'A few pairs are compared.',
 [T+'gtfsobjectbase.py', T+'serviceperiod.py'], [('equality', 'GtfsObjectBase.__eq__, ServicePeriod.__eq__')])
prop('C49', 'Stops that are too close or too far from their station are reported',
 'Every pair of located stops less than two metres apart is reported once, as two stops, two stations or a stop and a station that is not its parent according to their location types, and no pair farther apart is; a stop is reported as too far from its parent station iff the distance exceeds the warning (100 m) or error (1000 m) limit; unused stops and used stations are reported exactly; a stop is reported as too far from its place on the shape iff more than 1000 m away. Coordinates of exactly zero count as located.',
 ['inputs'], 'every arrangement of a few stops, types, parents and distances',
 'Three arrangements are tested.',
 [T+'schedule.py'], [('nearby', 'Schedule.ValidateNearbyStops'), ('parents and use', 'Schedule.ValidateStops')])
prop('C50', 'Extensions change only the parts they declare',
 'After registering, replacing or removing file mappings and classes in an extended factory, a lookup gives the last registered class for that name and file, every mapped file with an order is loaded exactly once in the declared order, required ones are missed when absent, and other factories are unaffected.',
 ['histories'], 'every short sequence of mapping operations',
 'Each operation is tested once.',
 [T+'gtfsfactory.py'], [('mapping table', 'GtfsFactory.AddMapping, UpdateMapping, RemoveMapping, AddClass, UpdateClass')])
prop('C51', 'Agency and feed-information records are judged exactly',
 'A feed-information record is reported for each blank required field (publisher name, publisher URL, language), an invalid language or URL, a start or end date that is no real day, and an end date before the start date; one date alone, or none, is not reported. Agencies that state different time zones are reported once, each agency stating a language other than the feed language is reported, and with several agencies each one without an id is reported; otherwise none of these is reported.',
 ['inputs'], 'every pair of dates, every short text, every combination of up to three agencies',
 'A handful of records is tested.',
 [T+'feedinfo.py', T+'schedule.py'], [('feed info', 'FeedInfo.ValidateBeforeAdd, FeedInfo.ValidateDates'), ('agencies', 'Schedule.ValidateAgenciesHaveSameAgencyTimezone, ValidateFeedInfoLangMatchesAgencyLang, ValidateIdlessAgency')])
prop('C52', 'Short and repeated trips, mixed stops and unused shapes are reported exactly',
 'A trip with no stop time or only one is warned about, one whose first or last stop has no time is an error, and frequencies given for a trip without stop times are an error. When asked for, each trip that repeats an earlier trip\'s service, stop sequence and first arrival is reported once against that first trip, and nothing is reported otherwise. A stop served by subway and bus trips is reported once, naming a subway and a bus route serving it. Shapes used by no trip are named in one warning.',
 ['inputs'], 'every arrangement of a few trips, stop patterns, services, start times and shapes',
 'One or two arrangements of each kind are tested.',
 [T+'schedule.py'], [('trips', 'Schedule.ValidateTrips, Schedule.ValidateTripStopTimes'), ('shapes', 'Schedule.ValidateUnusedShapes')])
prop('C53', 'Missing, empty, unknown and unreadable feed files are reported',
 'Each required file that is absent, and a calendar when both calendar files are absent, is reported missing; each empty file is reported empty; each file of an unknown name not starting with a dot is warned about; a file holding a null byte is reported with its place and not used; UTF-16 is reported yet read, and a UTF-8 mark is skipped; each cell that is not UTF-8 is reported under its column and line. A path that does not exist, or is neither a directory nor a readable zip file, is reported and nothing is loaded; a directory and an archive of the same files load alike.',
 ['inputs', 'faults'], 'every pair of missing or empty files, every short file name, null position and encoding',
 'One file of each kind is tested.',
 [T+'loader.py'], [('files', 'Loader._DetermineFormat, Loader._CheckFileNames, Loader._FileContents, Loader._GetUtf8Contents, Loader._HasFile, Loader._LoadFeed, Loader.Load')])
prop('C54', 'Each problem names the file and line it is about, and no other',
 'A problem found in a record of a feed file is reported with that file and the line of that record, wherever in the file it is and whatever records come before or after; a problem about the feed or about a file as a whole never carries the line of some record read earlier.',
 ['inputs', 'histories'], 'every kind of bad row of every table at every position, alone and in pairs',
 'Few tests look at the place of a report.',
 [T+'loader.py', T+'problems.py'], [('context', 'Loader._LoadFeed, Loader._LoadStopTimes, Loader._LoadShapes, Loader._LoadCalendar'), ('reporter', 'ProblemReporter.SetFileContext, ExceptionWithContext.ContextTupleToDict')])
prop('C55', 'Optional stop-time fields and trip fields are judged exactly',
 'A stop time is reported for a pickup or drop-off type that is not blank or 0 to 3 and a timepoint flag that is not blank, 0 or 1 (a warning if numeric, else an error), a distance that is no number, and (a warning) for letting nobody on or off while telling no time. A sequence number that is no number or below zero is an error; repeated ones of a trip are reported once per number; a last distance beyond the end of the trip\'s shape is warned about. A trip is reported for a blank route, service or trip id, a direction other than 0 or 1, and bicycle or wheelchair fields other than 0 to 2. Valid and blank optional fields are not reported.',
 ['inputs'], 'every short text of every field, every arrangement of sequence numbers and distances',
 'A few values are tested.',
 [T+'stoptime.py', T+'trip.py'], [('stop times', 'StopTime.__init__'), ('trips', 'Trip.Validate, ValidateDirectionId, ValidateBikesAllowed, ValidateWheelchairAccessible, ValidateNoDuplicateStopSequences, ValidateShapeDistTraveledSmallerThanMaxShapeDistance')])
prop('C56', 'Trips are grouped by the stop pattern they have now',
 'Two trips of a route are in the same pattern group exactly when they visit the same stops in the same order, after any sequence of adding stops, clearing a trip and asking for the groups; the order is that of the sequence numbers.',
 ['histories'], 'every short sequence of edits and queries on a few trips',
 'Tests group trips once, after building them.',
 [T+'route.py', T+'trip.py'], [('grouping', 'Route.GetPatternIdTripDict, Trip.GetPattern, Trip.__getattr__, Trip.ClearStopTimes')])
prop('C57', 'Calendar files together define each service once',
 'After loading, there is one service per service id found in calendar.txt or calendar_dates.txt; it runs on a day iff its last exception row for that day adds the day, or no exception row removes it and its first calendar row includes the day. Repeated calendar rows (an error), repeated exceptions (a warning), unknown exception types, day flags that are not 0 or 1, backwards ranges and services without any day are each reported once with their value, and nothing else is.',
 ['inputs'], 'every arrangement of a few rows of both files, every short flag, type and date',
 'Tests load a few fixed calendars.',
 [T+'loader.py', T+'serviceperiod.py'], [('merging the files', 'Loader._LoadCalendar'), ('records', 'ServicePeriod.__init__, SetDateHasService, ValidateDaysOfWeek')])
prop('C58', 'The report states the feed\'s true totals and upcoming service',
 'The validation page names every agency, the numbers of routes, stops, trips and shapes and the effective dates of the feed. Its outlook covers each day from today or the later start of the feed up to, and not including, the end of the feed or the sixtieth day from today, with the true average, largest and smallest number of trips and the dates having them; it is absent when no such day exists. Each problem is shown with its file, line and row, the offending cell marked.',
 ['inputs', 'schedules'], 'every short sequence of daily trip numbers, every kind of feed range against today',
 'One feed range is tested.',
 ['feedvalidator.py'], [('outlook', 'CalendarSummary'), ('page', 'HTMLCountingProblemAccumulator.WriteOutput, FormatException')])
prop('C59', 'The map file lists everything once, in its folder, under its name',
 'The KML of a feed holds each stop once, in the folder of its kind when the hierarchy is shown, with its description and a connection to its parent; each route once, under its type when routes are split, with its name, description, width and colour; per route each stop pattern and each used shape once with exactly its trips, busiest first; each trip running on the chosen day when trips are shown; and each shape. Indentation changes no text.',
 ['inputs'], 'every arrangement of a few stops, routes, trips, patterns and shapes with all options',
 'A few fixed feeds are tested.',
 ['kmlwriter.py'], [('stops', 'KMLWriter._CreateStopsFolder, _CreateStopPlacemark'), ('routes', 'KMLWriter._CreateRoutesFolder, _CreateRoutePatternsFolder, _CreateRouteShapesFolder, _CreateRouteTripsFolder'), ('layout', 'KMLWriter._SetIndentation')])
prop('C60', 'No content of a feed makes loading or validation crash',
 'Loading and validating a feed made of readable files, and writing its report, ends normally whatever text stands in a cell, whichever column is left out, whichever file is missing, empty or reduced to its header, and whether rows are short, long, blank or repeated; what is wrong is reported instead.',
 ['inputs', 'faults'], 'every short text and many odd texts in every cell of every table, every column and file left out',
 'A few malformed feeds are loaded.',
 [T+'loader.py', T+'schedule.py', 'feedvalidator.py'], [('loading', 'Loader.Load'), ('validation', 'Schedule.Validate'), ('report', 'HTMLCountingProblemAccumulator.WriteOutput')])
prop('C61', 'The Google extension judges its additional fields exactly',
 'Under the Google extension a stop is reported, once each and with the offending value, for a location type that is not blank or 0 to 2 (a warning if numeric), for being an entrance (2) without a parent, for a blank name unless it is an entrance, for a vehicle type that is not blank or a listed type (a warning if numeric), and for having any vehicle type as an entrance (error) or as another stop with a parent (warning). A route takes the extended list of types, each with its speed limit, and its emissions are blank or a number. A fare names an agency of the feed, or none if there is only one. Nothing else is reported, and the standard classes are unchanged.',
 ['inputs'], 'every combination of location type, parent, name and vehicle type, every number as a type',
 'About fifteen records are tested.',
 ['extensions/googletransit/stop.py', 'extensions/googletransit/route.py', 'extensions/googletransit/fareattribute.py'], [('stops', 'Stop.ValidateVehicleType, ValidateStopLocationType, _ReportMissingRequiredField'), ('routes', 'Route._ROUTE_TYPES, Route.ValidateCo2PerKm'), ('fares', 'FareAttribute.ValidateAgencyId')])
prop('C62', 'Feed text never acts as markup in an HTML report',
 'In the reports of the validator and of the merger every text taken from a feed or the command line (values, reasons, names, ids, file names, cells, headers, agency names and addresses, paths) is shown as it is: the page differs from that of a harmless text only there, and the text decodes to itself, leaving no tag, entity or attribute of its own.',
 ['inputs'], 'every short text over the characters having a meaning in HTML, in every place',
 'No test reports such a text.',
 ['feedvalidator.py', 'merge.py'], [('validator', 'HTMLCountingProblemAccumulator.FormatException, WriteOutput'), ('merger', 'merge.HTMLProblemAccumulator._Report, _GenerateNotices, WriteOutput')])
prop('C63', 'Every command-line tool does exactly what its options ask',
 'The validator, the merger, the KML writer and reader, the unusual trip filter, the pathways graph, the translations upgrade and the schedule viewer each read the named feed (or the one asked for), apply each option given on the command line with its documented default otherwise, write exactly the named (or default) output, show it only on demand, and end with the status that tells success, problems found, a bad feed or wrong arguments; wrong arguments and bad feeds write nothing.',
 ['inputs', 'faults'], 'every combination of options, arguments and kinds of feed, in both spellings of an option',
 'Most tools are run with one or two combinations.',
 ['feedvalidator.py', 'merge.py', 'kmlwriter.py', 'kmlparser.py', 'unusual_trip_filter.py', 'visualize_pathways.py', 'upgrade_translations.py', 'schedule_viewer.py'], [('validator', 'feedvalidator.main, RunValidation, RunValidationOutputToFilename'), ('merger', 'merge.main'), ('others', 'main of each tool')])
prop('C64', 'The shape importer gives each stop pattern its best shape',
 'Every feature of each shape file, and every extra shape, becomes one polyline of all its points, named by the key columns or else by file and number. Each stop pattern of at least two stops gets the closest polyline running from its first to its last stop, or else the joined path along its stops, if it lies within the maximum distance: a new shape with its points, under an id the feed does not use yet, given to exactly the trips of the pattern. Other trips and shapes keep what they had. The shape loader reads just the shapes of an archive or a directory.',
 ['inputs'], 'every short list of candidates with every distances and limit, every choice of patterns and lines, every combination of options',
 'No test runs the importer.',
 ['shape_importer.py', T+'shapeloader.py'], [('choice', 'GetMatchingShape'), ('reading', 'AddShapefile, AddExtraShapes, ShapeToPoly'), ('assignment', 'main'), ('shapes alone', 'ShapeLoader.Load')])
prop('C65', 'A feed that loads without errors works in every tool',
 'When loading a feed reports no error, then, whatever oddities its cells hold, it can be drawn as a map with any options, every page of the viewer answers for each of its records and fills in its templates, its unusual trips can be marked, and what is saved from it loads again without errors and with as many records of each kind. When it also validates without errors, it merges with the same feed of another period.',
 ['inputs'], 'every short text and many odd texts in every cell of every table of a feed using all tables',
 'Tests run the tools on well-behaved feeds.',
 ['kmlwriter.py', 'schedule_viewer.py', 'merge.py', 'unusual_trip_filter.py', T+'schedule.py'], [('map', 'KMLWriter.Write'), ('viewer', 'ScheduleRequestHandler.handle_json_wrapper_GET, handle_GET_home, handle_GET_ttablegraph'), ('merge', 'FeedMerger.MergeSchedules'), ('filter', 'UnusualTripFilter.filter'), ('saving', 'Schedule.WriteGoogleTransitFeed')])
