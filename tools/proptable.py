AST_WHY = ("The existing tests never run the catalogue checker against a shared cache directory at all; a test of one or two "
           "invocations samples one schedule out of an astronomically large number.")
prop("P01", "Parallel asteroid-check runs give the same answers as a lone run",
     "Any number of instances of the asteroid/comet match program, started at any moments and sharing one data directory, each "
     "succeed and print exactly the matches that the same command prints when it runs alone in a clean directory.  This holds "
     "whatever day caches already exist and however the instances' file accesses interleave, and every instance finishes within bounded time.",
     ["schedules", "configurations"],
     "every interleaving of the instances' file operations, every start offset, every mix of commands and existing caches",
     AST_WHY, ["astcheck.cpp"],
     [("day-data cache lookup and creation", "astcheck.cpp get_cached_day_data"),
      ("per-process temporary names", "astcheck.cpp make_fake_file, get_cached_day_data"),
      ("wait-for-other-writer loop", "astcheck.cpp get_cached_day_data")],
     observe=["standard output", "exit status", "YYYYMMDD.chk files"],
     note="Seeded search over schedules of 2-5 concurrent real astcheck programs per wave, compared with a lone run; not exhaustive.")
prop("P02", "A crash or I/O fault never wedges or poisons later asteroid checks",
     "After any sequence of crashes, failed or partial reads and writes, full disks, failed allocations and loss of unsynced file tails in earlier instances of "
     "the match program, once faults stop every new instance finishes in bounded time, succeeds, and prints exactly what it would print "
     "in a clean directory.  Nothing an interrupted or failed instance leaves behind needs to be cleaned up by hand.",
     ["crash_points", "fault_sequences", "schedules"],
     "every crash point and fault sequence during earlier (possibly parallel) runs, followed by fault-free runs",
     AST_WHY + "  Crash points and torn cache files are not exercised.", ["astcheck.cpp"],
     [("cache header and length validation", "astcheck.cpp get_cached_day_data"),
      ("temporary file plus rename", "astcheck.cpp get_cached_day_data"),
      ("complete-catalogue check", "astcheck.cpp compute_day_data")],
     observe=["standard output", "exit status", "simulated time to completion"],
     note="Seeded search over kills at any system call and I/O/allocation faults in waves of real astcheck programs, then a fault-free phase.")
prop("P03", "An asteroid-check run that reports success printed the right matches",
     "If an instance of the match program ends with a success status, its matches are exactly those of an undisturbed run on the same "
     "catalogue and observations, whatever read, write, open, close, rename or allocation failures it met.  The only exception is the "
     "announced one: it states that observatory locations were unavailable and parallax was left out.",
     ["fault_sequences", "schedules"],
     "every sequence of failing, short or partial I/O operations and failing allocations, with or without concurrent instances",
     "No existing test injects a fault or observes the exit status of the match program.", ["astcheck.cpp", "ades2mpc.cpp", "sof.cpp"],
     [("error exits", "astcheck.cpp main, compute_day_data, get_sof_file")],
     observe=["standard output", "exit status"],
     note="Seeded search over fault sequences; each process with exit status 0 is compared line by line with a fault-free run. Failures of "
          "standard output itself are out of scope (the program never checks printf).")
prop("P04", "Cached day positions are never used for a different catalogue or day",
     "Across any history of match runs, for observations on any dates, interleaved with replacements of the orbit catalogue (regenerated at another epoch, objects "
     "appended, inserted or dropped, first or last orbit changed, an older catalogue restored), every run prints exactly what a run in a "
     "clean directory with the current catalogue prints (the old or the new one, if the catalogue is replaced, by renaming a complete file, while the run is in progress).",
     ["histories", "schedules"],
     "every sequence of observation dates, catalogue replacements and match runs in one directory; replacements change the object count or "
     "touch the beginning or end of the catalogue or every record",
     "Tests never change the catalogue between runs; only histories of at least two steps can show a stale cache.", ["astcheck.cpp"],
     [("catalogue checksum and object count in cache header", "astcheck.cpp get_sof_file, get_cached_day_data")],
     observe=["standard output", "YYYYMMDD.chk headers"],
     note="Seeded search over histories of 2-6 waves with catalogue replacements; compared with clean-directory runs.")

prop("P05", "Earth orientation data are loaded completely or not at all",
     "Loading an Earth orientation file either returns the day number of its last usable line, after which every query inside the table gives "
     "the value interpolated from that file and the reported date ranges are the file's, or returns a negative error, after which no data are loaded and "
     "queries give the documented defaults.  This holds for every sequence of loads, reloads and releases and whatever open, read or "
     "allocation failures occur; nothing of an earlier or partly read file is ever used, and no file or memory is leaked.",
     ["histories", "fault_sequences"], "every sequence of loads, reloads, releases and queries with any sequence of I/O and allocation faults",
     "Tests load no orientation file, and never with a failing disk or a second file.", ["eop_prec.cpp", "delta_t.cpp"],
     [("loader", "eop_prec.cpp load_earth_orientation_params"), ("interpolated query", "eop_prec.cpp get_earth_orientation_params"),
      ("Delta-T hook", "delta_t.cpp td_minus_ut")],
     observe=["return values", "interpolated values", "Delta-T"],
     note="Seeded search over load/query histories and fault sequences against an independent table model.")
prop("P06", "Concurrent Earth-orientation and time-scale queries do not disturb each other",
     "With an Earth orientation table loaded (or none), any number of threads querying orientation parameters, Delta-T, TD-UTC, TDB-TDT and the table's "
     "date range at the same time each get exactly the answers they get when running alone.",
     ["schedules"], "every interleaving of the threads' queries",
     "Interleavings inside a query of a few hundred instructions are not reachable by running threads in a test.", ["eop_prec.cpp", "delta_t.cpp"],
     [("query reads only the shared table", "eop_prec.cpp get_earth_orientation_params")],
     observe=["return values"],
     note="Seeded search over basic-block-level preemption schedules of 2-4 threads; answers must be bit-identical to lone calls.")
prop("P07", "Body orientation answers depend only on the data currently loaded",
     "Rotation matrix, rotation rate and radii of any body are those a fresh process gives with the currently loaded orientation file, after any "
     "sequence of loads, releases, replacements of the default file and earlier queries.  If opening, reading or allocation fails, the load or query "
     "reports failure; it never returns values from partly read or superseded data, never crashes, never leaks, and works again once the fault is gone.",
     ["histories", "fault_sequences"], "every sequence of loads, releases, file replacements and queries with any sequence of I/O and allocation faults",
     "Tests use one file in one order without faults.", ["cospar.cpp"],
     [("file reader and text cache", "cospar.cpp get_cospar_data_from_text_file"), ("last-answer caches", "cospar.cpp calc_planet_orientation, planet_rotation_rate"),
      ("loader", "cospar.cpp load_cospar_file")],
     observe=["return values", "matrices, rates and radii"],
     note="Seeded search over histories and fault sequences; answers compared with fresh processes (1e-9 relative).")

prop("P08", "Ephemeris files give right positions or an error, never something else",
     "Evaluating a planet or the Moon from the PS-1996, VSOP87 or ELP82 data files either succeeds with the position the complete file defines, or "
     "reports failure.  This holds whatever open, read and allocation failures, short reads, truncated or missing files occur; a failed call "
     "leaves no open file, memory or cached state behind, and the next call with intact data succeeds with the right values.",
     ["fault_sequences", "histories"], "every sequence of load and evaluate calls, with every sequence of faults and file states",
     "Tests have no such files, and a test with intact files cannot show what a short read does.", ["de_plan.cpp", "big_vsop.cpp", "elp82dat.cpp"],
     [("PS-1996 loader", "de_plan.cpp load_ps1996_series"), ("VSOP header cache", "big_vsop.cpp calc_big_vsop_loc"), ("chunked series reader", "elp82dat.cpp add_in_series")],
     observe=["return values", "positions and velocities", "open files and allocated blocks"],
     note="Seeded search over call histories, file states and fault sequences; successes compared with an independent evaluation of the synthetic data.")

prop("P09", "Library answers do not depend on earlier calls",
     "The answer of a library function depends only on its arguments and on the configuration in force (Earth orientation data, Delta-T string, "
     "month and day names, body orientation file), never on which calls were made before, in which order, or with which arguments: every "
     "answer equals that of a fresh process with the same configuration.",
     ["histories"], "every sequence of library calls and configuration changes",
     "A cache keyed on too little only shows when one particular call precedes another; tests call each function in one fixed order.",
     ["precess.cpp", "obliquit.cpp", "cospar.cpp", "eop_prec.cpp", "alt_az.cpp", "delta_t.cpp", "date.cpp", "moid.cpp", "gust86.cpp"],
     [("last-matrix cache", "precess.cpp setup_ecliptic_precession"), ("obliquity cache", "obliquit.cpp mean_obliquity"), ("orientation caches", "cospar.cpp calc_planet_orientation"),
      ("EOP-dependent precession", "eop_prec.cpp setup_precession_with_nutation_eops"), ("Delta-T string", "delta_t.cpp reset_td_minus_dt_string")],
     observe=["return values and outputs of the functions"],
     note="Seeded search over call histories of 2-15 calls of 78 kinds; answers compared with fresh processes (1e-9 relative, strings exactly).")
prop("P10", "Library functions without documented state can be called from any thread",
     "Formatting, parsing, calendar, time-scale, orbit, designation and observation-record functions give exactly the answer they give alone when called from several "
     "threads at once, whatever the interleaving.  (The obliquity, precession, planet-orientation and Chinese-calendar functions, and those that call them, keep a "
     "last-answer cache and are excluded, as are the functions that change the configuration.)",
     ["schedules"], "every interleaving of calls from several threads, down to single memory accesses",
     "A test on real threads hits a particular interleaving only by luck.", ["miscell.cpp", "date.cpp", "get_time.cpp", "delta_t.cpp", "astfuncs.cpp", "classel.cpp", "moid.cpp", "mpc_fmt.cpp", "mpc_fmt2.cpp", "unpack.cpp", "ades2mpc.cpp", "sof.cpp", "showelem.cpp"],
     [("no static scratch buffers", "whole library")],
     observe=["return values and outputs of the functions"],
     note="Seeded search over interleavings at basic-block and memory-access granularity of 2-4 threads; bit-identical comparison with the same calls made alone.")

prop("P11", "Form fields reach CGI programs exactly as sent, or an error is reported",
     "Reading a form submission (GET, urlencoded POST or multipart POST) delivers exactly the sent fields, in order, names and values unaltered, "
     "however the data arrive.  If the submission is cut off, malformed or too large for the buffers given, its CGI variables are missing or impossible, or reading or "
     "allocation fails, an error is returned at that point; no partial value is passed off as complete, nothing is written outside the buffers, and nothing crashes or leaks.",
     ["fault_sequences", "inputs"], "every submission, every chunking of its delivery, every point of connection loss, read error or failed allocation",
     "There are no tests of form reading; delivery chunks, lost connections and allocation failures cannot be sampled by hand.", ["cgi_func.cpp"],
     [("start of reading", "cgi_func.cpp initialize_cgi_reading"), ("multipart reader", "cgi_func.cpp get_multipart_form_data"), ("URL decoding", "cgi_func.cpp get_urlencoded_piece")],
     observe=["return values", "field, value and filename buffers"],
     note="Seeded search over submissions, delivery chunks and faults; fields compared with those sent, buffers guarded.")
prop("P12", "Simultaneous web requests are each answered from their own observations",
     "Each request to the web version of the asteroid-match program gets the page it would get if it were the only request ever made in a clean "
     "directory, whatever other requests run at the same time, ran before, or were killed; its matches are those the command-line program finds for the same "
     "observations and radius, whatever choices on the form accompany them; a request without observations, or whose observations can't be stored, is told so.",
     ["schedules", "crash_points", "histories"], "every interleaving of several requests' file operations, every kill point, every earlier history in the directory",
     "Tests never run the web version, let alone twice at once.", ["cgicheck.cpp", "astcheck.cpp", "cgi_func.cpp"],
     [("observation file", "cgicheck.cpp main"), ("day caches", "astcheck.cpp get_cached_day_data")],
     observe=["the HTML page", "exit status"],
     note="Seeded search over schedules of up to 4 simultaneous real cgicheck programs; pages compared with a lone request.")

prop("P13", "Spacecraft positions come from the position service, or are reported missing",
     "Adding spacecraft positions to a file of observations gives every observation the position and velocity the service reported for that spacecraft and "
     "time, or leaves the observation (with any position it already had) as it was and counts it as failed; asked for, the differences from the positions it had are those of the same observation; nothing is invented and no input line is lost.  This holds for any number "
     "of instances at once and whatever requests fail or are answered partly, wrongly, late or not at all; if reading, writing or allocation "
     "fails so that the output is incomplete, the exit status says so.",
     ["schedules", "fault_sequences", "inputs"], "every set of simultaneous instances, every failure of the service, the disk or memory, 80-column and ADES files",
     "The program talks to a remote service; no test exists, and failures and parallel runs cannot be sampled on demand.", ["add_off.c"],
     [("request and answer", "add_off.c set_offsets"), ("merging into the output", "add_off.c process_file")],
     observe=["output file", "summary line", "exit status"],
     note="Seeded search over schedules of up to 3 simultaneous real add_off programs and faults of a simulated Horizons service and the file system.")
prop("P14", "Simultaneous on-line position requests are each answered from their own data",
     "Each request to the web version of the spacecraft-position program gets a complete page made from its own observations and the service's answers "
     "to its own queries, or is told that it could not be read, stored or processed, whatever other requests run at the same time, ran before, or were killed, and whatever reads, writes, opens, allocations or queries fail; a request without observations shows nobody else's.",
     ["schedules", "fault_sequences", "crash_points", "histories"], "every interleaving of several requests' file operations, every failure and kill point, every earlier history in the directory",
     "Tests never run the web version.", ["add_off.c", "cgi_func.cpp"],
     [("observation file", "add_off.c main (ON_LINE_VERSION)"), ("answer file", "add_off.c set_offsets")],
     observe=["the HTML page", "exit status"],
     note="Seeded search over schedules of up to 4 simultaneous real on-line add_off programs.")

prop("P15", "Clock-dependent times follow the clock, other times ignore it",
     "Whenever the wall clock is read, forward or backward jumps notwithstanding, current times, 'now' with offsets, times of day, weekdays and lunar phases, and "
     "the century of two-digit years (60 years back to 40 ahead) are those of the clock at that moment; every other date or time string means the same "
     "whatever the clock says.  A failed clock read gives the documented value 1970 Jan 1.",
     ["histories", "fault_sequences"], "every clock value from 1970 to 2260, every sequence of clock steps, every supported clock-dependent string",
     "A test runs at one instant and cannot set the clock.", ["nanosecs.cpp", "get_time.cpp", "jd.cpp"],
     [("clock", "nanosecs.cpp nanoseconds_since_1970, current_jd"), ("'now'", "get_time.cpp get_time_from_stringl"), ("two-digit years", "get_time.cpp get_time_from_stringl")],
     observe=["returned times", "printed Julian day"],
     note="Seeded search over clock values, clock steps and queries against an independent calendar model.")
prop("P16", "The element catalogue is only ever replaced by a complete, correct one",
     "Updating the catalogue of orbital elements leaves, at every moment and whatever fails or is killed, either the old catalogue or a complete new one "
     "in which every day's elements are the ones last given and its header tells its true range; success is reported only if the update was made.  Several updates "
     "at once do not mix their data.",
     ["crash_points", "fault_sequences", "schedules"], "every kill point, I/O fault, full disk and interleaving of updates, every sequence of element sets",
     "There is no test of the program, and a test cannot stop it between two writes.", ["them_cat.c"],
     [("merge and replacement", "them_cat.c main")],
     observe=["the catalogue file after every system call", "exit status"],
     note="Seeded search over histories of updates with kills, faults and simultaneous instances; loss of unsynced data at power failure is not claimed.")
prop("P17", "A converted orbit catalogue is complete, or the conversion reports failure",
     "Converting the asteroid and comet orbit files to the catalogue format either writes one correct record per orbit, with its own elements, magnitudes and circumstances, and reports success, or reports "
     "failure, whatever files are missing and whatever read, write, open, close or allocation failures occur; it never crashes, writes outside its memory or loses records silently.",
     ["fault_sequences", "inputs"], "every combination of input files, every I/O or allocation fault",
     "There is no test of the program.", ["mpc2sof.cpp", "mpcorb.cpp"], [("reading and output", "mpc2sof.cpp main")],
     observe=["the catalogue written", "exit status"],
     note="Seeded search over inputs and fault sequences; successes compared with a record-by-record oracle.")
prop("P18", "File converters that report success have converted everything",
     "The Gaia, MMS, THEMIS and JPL ephemeris converters either write the complete converted data and report success, or report failure, whatever read, write, "
     "open, close or allocation failures or full disks occur.  Complete means:  every record the input gives within the range asked for, once, in order, with its own values, "
     "under a header whose start, step and count are those of the data.",
     ["fault_sequences", "inputs"], "every I/O or allocation fault at every point of the conversion",
     "There are no tests of the converters, and none injects faults.", ["csv2ades.c", "mms.cpp", "themis.cpp", "jpl2b32.cpp"],
     [("conversion loops", "csv2ades.c, mms.cpp, themis.cpp, jpl2b32.cpp main")],
     observe=["output file or standard output", "exit status"],
     note="Seeded search over inputs and fault sequences; successful outputs compared with a model of the conversion.")

prop("P19", "Each observation read from a stream yields its own lines, whatever surrounds it",
     "Reading astrometry (80-column records, records with Tholen sigmas, ADES in PSV or XML form, in any mixture) yields for each observation exactly the lines its own "
     "fields call for, in file order and with the same record from PSV and XML: nothing is carried over from earlier observations, from other streams read at the same time, or from other "
     "threads, one field never overwrites another, and the line endings, the way the data are split into reads and the layout of tags do not matter.  A file cut short at any byte or a failed read gives the lines of "
     "the observations before that point and then ends: no record is made up from an incomplete observation, reading terminates, nothing crashes or leaks, and failed allocations are reported.",
     ["histories", "fault_sequences", "schedules", "inputs"], "every mixture and order of observations, every split into reads, every truncation point, read error and failed allocation, every interleaving of several streams",
     "The existing tests never read an ADES stream; leaks from one observation into the next depend on which fields are absent after which.", ["ades2mpc.cpp"],
     [("stream reader", "ades2mpc.cpp fgets_with_ades_xlation"), ("translation context", "ades2mpc.cpp setup_observation, get_a_line, process_ades_tag"), ("PSV reader", "ades2mpc.cpp check_for_psv_header, process_psv_line")],
     observe=["lines returned by fgets_with_ades_xlation", "its return value", "memory in use"],
     note="Seeded search over streams, interleavings, chunking, truncations and faults; lines compared with an independent model of the 80-column record.")

prop("P20", "Each object in a batch of observations is matched as if it were alone",
     "When a file of observations of several objects is checked, what is reported about each object (its matches, their count, motion and differences, and remarks such as an "
     "unknown station) is what is reported when a file with only that object's observations is checked with the same options, whatever the other objects are, on whatever "
     "days and from whatever stations they were observed, in whatever order the objects' lines are mixed, and whatever other runs go on in the directory.",
     ["histories", "schedules", "inputs"], "every set of objects, order of lines, option and concurrent run",
     "Tests never check a file with several objects; what leaks from one into the next depends on the sequence of stations, days and designations.",
     ["astcheck.cpp", "sof.cpp", "mpc_fmt.cpp"],
     [("grouping of observations into objects", "astcheck.cpp main"), ("per-day positions reused from object to object", "astcheck.cpp get_cached_day_data"), ("station look-up", "astcheck.cpp get_mpc_station")],
     observe=["standard output"],
     note="Seeded search over batch files and concurrent runs; each object's part of the output compared with a run on that object alone.")

prop("P23", "A match search shows every catalogued object within its limits and no other",
     "For each observed object, a match run shows exactly those catalogued objects (further than 0.1 AU away and not within ten degrees of a celestial pole) whose position at the time of the first "
     "observation, seen from its station, lies within the search radius, which are brighter than the magnitude limit and, if further observations from the same station give a motion, move like it within the motion "
     "tolerance: nearest first, the nearest ones if there are more than asked for, each with its own separation, magnitude and motion, and with the columns asked for of its own line in the MPC's orbit file.  "
     "Positions and magnitudes are those which the catalogued orbit, the station's parallax and the magnitude law for asteroids or comets give.  This holds anywhere on the sky, at any time of day, "
     "whichever day caches exist already, and whatever other runs with other limits share the directory.",
     ["inputs", "histories", "schedules"], "every catalogue, set of observations and limits, state of the caches and concurrent run",
     "Tests check two fixed lists; the positions precomputed for a day decide which objects are looked at, so that one may be missed for some times and places only.",
     ["astcheck.cpp", "sof.cpp", "mpc_fmt.cpp", "mpc_code.cpp"],
     [("preselection by day positions", "astcheck.cpp is_between, compute_day_data, get_cached_day_data"), ("limits and order of the results", "astcheck.cpp main"), ("observed motion", "astcheck.cpp compute_motion")],
     observe=["standard output"],
     note="Seeded search over catalogues, observations, limits and concurrent runs; each line shown compared with positions listed without limits or caches, and those with independently computed two-body positions, parallaxes and magnitudes.")

prop("P24", "List, ephemeris and designation output is right and complete, or fails openly",
     "The observatory lister (plain, with map links, as KML), the converter to roving-observer form, the asteroid ephemeris program and the on-line designation program show, for each record, observation, date or "
     "form field in turn, what its own data call for (with the clock's date where none is given), whatever comes before or after it.  Places, parallax constants and regions agree with the listed ones; positions, distances, "
     "magnitudes and elongations with the catalogued orbit; an asteroid which isn't in the file is reported as such.  If an input file is missing or can't be read to its end, memory runs out or the output can't be "
     "written, failure is reported: a part of the output is never passed off as all of it, and nothing crashes.",
     ["inputs", "fault_sequences"], "every list, catalogue, set of observations, form and option, every failing read, write, open or allocation",
     "Tests run none of these programs; a field left over from the line before, or output cut short by a failing disk, shows for some sequences of records and some faults only.",
     ["mpc_code.cpp", "xxx2rov.c", "astephem.cpp", "mpcorb.cpp", "desigcgi.c", "unpack.cpp", "cgi_func.c"],
     [("station lister", "mpc_code.cpp main, extract_region_data_for_lat_lon, get_mpc_code_info"), ("roving observers", "xxx2rov.c main"), ("ephemeris", "astephem.cpp main, find_astorb_rec"), ("designations", "desigcgi.c main, unpack_unaligned_mpc_desig")],
     observe=["standard output", "exit status"],
     note="Seeded search over input files, forms, options and I/O faults; each line shown compared with an independent model.")

prop("P25", "Moon-phase and Chinese-calendar tables and wall calendars are right and whole",
     "The table of lunar phases (as text, log and data file) has each phase from the first new moon to the end date once, in order, at its time, and with -c the new moons and the Sun's principal terms with their Beijing days, months and years. "
     "The Chinese calendar table made from that log (sorted) follows the rules: months from new moon to new moon, the solstice in month 11, a leap month where a year of thirteen has one without a principal term, the right lengths and new year. "
     "A wall calendar shows each day, each event of the event files, each phase of the phase table and the small months in their places, nothing twice and nothing missing. Whatever fails (an input that can't be read, an output that can't be opened or written, "
     "memory), or if the program is killed, a part is never passed off as a success, and doing it again gives the right result; a phase table that is incomplete or just being rewritten never gives wrong phases.",
     ["inputs", "fault_sequences", "crash_points", "schedules"], "every range of dates, set of events and options, every failing or interrupted read, write, open or allocation, every moment of the phase table's replacement",
     "Tests run none of these programs; a lost write or a partially read table shows only under faults, a wrong month only in some years.",
     ["phases.cpp", "chinese.cpp", "calendar.cpp", "date.cpp", "delta_t.cpp", "lunar2.cpp"],
     [("phases and principal terms", "phases.cpp main"), ("Chinese calendar rules", "chinese.cpp dump_data, main"), ("calendar pages", "calendar.cpp calendar, grab_dates, show_small_month, get_phase_data")],
     observe=["standard output", "phase log and data file", "chinese.dat", "exit status"],
     note="Seeded search over dates, events, options, faults and kills; compared with independent phases, calendar rules and page layout.")

prop("P26", "Moon-transit, rise/set and Jovian-satellite tables list the right events",
     "The Moon's transit times (lun_tran) give, for a place in the list of postal codes, each day's upper and lower transit to the minute in local (and, where kept, US daylight) time, or dashes on days without one, with the place's coordinates, zone and name. "
     "The list of events of Jupiter's satellites shows each start and end of an occultation, transit, eclipse or shadow of the satellites asked for within the days asked for, at its time (within minutes), in order, once, and leaves out those which can't be seen because the satellite "
     "is behind Jupiter or in its shadow; the screen, the text file and the data records agree, and records are appended to what was there. The almanac of a month or year shows for each day the Sun's and the Moon's rising and setting to the minute (or dashes for none), the Sundays, and the days of lunar phases, equinoxes and solstices (an equinox or solstice takes the place of a phase on the same day). Whatever fails (the planetary data missing, cut short or unreadable, an unknown place, an output that can't be opened or written, memory), a part "
     "or an empty table is never passed off as a success, and doing it again gives the right result.",
     ["inputs", "fault_sequences", "crash_points", "histories"], "every place, date, number of days, set of satellites and options, every failing or interrupted read, write, open or allocation, every sequence of runs that add to one file",
     "Tests run none of these programs; missing data or a lost write shows only under faults, wrong events only for some dates and places.",
     ["jevent.cpp", "lun_tran.cpp", "tables.cpp", "riseset3.cpp", "lunar2.cpp", "vsopson.cpp"],
     [("events of Jupiter's satellites", "jevent.cpp find_events, _mark_hidden_events, main"), ("Moon transits", "lun_tran.cpp get_lunar_transit_time, look_for_transit_time, is_dst"), ("loading of data", "riseset3.cpp load_file_into_memory; lun_tran.cpp get_zip_code_data")],
     observe=["standard output", "file of events", "data records", "exit status"],
     note="Seeded search over dates, places, options, run sequences, faults and kills; compared with independently found events and transits.")

prop("P21", "A web request which uses up its processor time is ended and told so",
     "Every web program asks for a finite limit on its processor time before it looks at the request.  When the time is used up, at whatever point of the work, the request ends "
     "with a page saying that it ran out of time instead of running on, and neither requests running at the same time nor later ones are affected.",
     ["schedules", "fault_sequences", "histories"], "every request, every point at which the time is used up, every set of simultaneous and later requests",
     "Tests never run the web programs, and never let one run out of time.", ["cgi_func.cpp", "cgicheck.cpp", "add_off.c", "parallax.cpp", "desigcgi.c"],
     [("limit and signal handler", "cgi_func.cpp avoid_runaway_process, sighandler"), ("its use", "main of cgicheck.cpp, add_off.c, parallax.cpp, desigcgi.c")],
     observe=["setrlimit and sigaction calls", "the HTML page", "end of the process"],
     note="Seeded search over requests and the basic block at which the processor time is used up; SIGXCPU is delivered by the simulator.")

prop("P22", "Observatory look-ups show the listed position or none",
     "Looking up an observatory code, from the command line or on the web, shows the longitude, parallax constants and name given by the first readable record for that code (rovers before "
     "the observatory list), with the latitude and altitude that fit them, and for two codes the distance and bearing between them; the same goes for a place given by coordinates, and the region named, if any, is the first listed one around it.  For a code which is not listed or not readable, or when "
     "a list cannot be read completely or memory runs out, it shows no position.  Line ends, missing files, a missing home directory, simultaneous look-ups and earlier ones do not matter, and nothing crashes.",
     ["inputs", "fault_sequences", "schedules"], "every pair of lists, code, missing or unreadable file, failed allocation and simultaneous look-up",
     "Tests have no observatory lists other than one intact file.", ["parallax.cpp", "mpc_code.cpp"],
     [("look-up", "parallax.cpp get_mpc_obscode_data"), ("record reader", "mpc_code.cpp get_mpc_code_info, point_to_ellipse, lat_alt_to_parallax")],
     observe=["standard output", "the HTML page", "exit status"],
     note="Seeded search over lists, codes and faults; printed positions compared with an independent model.")

PURE = ("Pure computation: the result depends only on the arguments, with no concurrency, clock, I/O, crash or other nondeterminism for a "
        "simulator to control, so deterministic simulation with fault injection has nothing to decide here. ")
prop("N01", "Calendar day number and date conversions are inverses in every calendar",
     "For every supported calendar, converting a day number to a date and back gives the same day number, and consecutive day numbers "
     "give consecutive dates.",
     ["inputs"], "every day number and calendar", "Tests sample some dates.", ["date.cpp", "chinese.cpp"],
     [("calendar conversions", "date.cpp dmy_to_day, day_to_dmy")], na=PURE)
prop("N02", "Formatting a time and reading it back gives the same instant",
     "For every time and output format, the formatted text parses back to the same instant within the printed precision.",
     ["inputs"], "every time, format and precision", "Tests sample a few formats.", ["date.cpp", "get_time.cpp", "miscell.cpp"],
     [("formatting", "miscell.cpp full_ctime"), ("parsing", "get_time.cpp get_time_from_string")],
     na=PURE + "(The clock-dependent part of time parsing is property P15.)")
prop("N03", "Orbital elements and state vectors convert back and forth without loss",
     "For every bound or unbound orbit, Kepler's equation is solved to the documented tolerance, and elements to state vector and back "
     "reproduces the orbit.",
     ["inputs"], "every orbit and time", "Tests sample orbits.", ["astfuncs.cpp", "classel.cpp"],
     [("Kepler solver", "astfuncs.cpp kepler")], na=PURE)
prop("N04", "Coordinate rotations and precession matrices are orthonormal and invertible",
     "Every rotation, precession and nutation matrix is orthonormal, and forward and inverse transforms cancel.",
     ["inputs"], "every epoch and direction", "Tests sample epochs.", ["precess.cpp", "nutation.cpp", "alt_az.cpp", "dist_pa.cpp"],
     [("matrices", "precess.cpp setup_precession")],
     na=PURE + "(The cached state behind the matrices is covered by P09.)")
prop("N05", "Packed and unpacked minor-planet designations round-trip",
     "Every valid packed designation unpacks to a readable one which packs back to the same twelve characters.",
     ["inputs"], "every valid designation", "Tests sample designations.", ["unpack.cpp", "mpc_fmt2.cpp"],
     [("pack/unpack", "unpack.cpp unpack_mpc_desig")], na=PURE)
prop("N06", "Minimum orbit distance is symmetric and below every sampled distance",
     "The minimum distance between two orbits is the same whichever orbit is named first and never exceeds the distance between any two "
     "points on the orbits.",
     ["inputs"], "every pair of orbits", "Tests sample pairs.", ["moid.cpp"], [("search", "moid.cpp find_moid_full")],
     na=PURE + "(Its dependence on earlier calls is covered by P09.)")
prop("N07", "Time-scale offsets are consistent with the leap-second and delta-T tables",
     "TAI-UTC is a step function with the published steps, and conversions between UTC, TAI and TT are mutually consistent at every instant.",
     ["inputs"], "every instant", "Tests sample instants.", ["delta_t.cpp"], [("tables", "delta_t.cpp td_minus_ut, td_minus_utc")], na=PURE)
prop("N08", "Planetary, lunar and satellite positions stay within the published accuracy",
     "Computed positions of Sun, Moon, planets and satellites agree with the underlying theories over their validity range.",
     ["inputs"], "every body and date", "Tests sample bodies and dates.", ["vsopson.cpp", "lunar2.cpp", "elp82dat.cpp", "jsats.cpp", "ssats.cpp"],
     [("series evaluation", "vsopson.cpp, lunar2.cpp")], na=PURE + "(Behaviour of the loaders under I/O faults is P08.)")
