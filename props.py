"""Per-property configuration of the simulator runs."""
STDREAL = ["glibc stdio (buffering, fgets/fread/fseek on top of the simulated system calls)"]
STDSTUB = ["file system, clocks, sleep, pid, process exit/kill, heap allocator, environment (simulated in-process)"]

PROPS = {
    "P01": dict(
        targets=["astcheck"], sources=["s_astcheck.cpp"], runs=(30000, 400000),
        rule="Each run: random small catalogue and observation files, 2-10 astcheck processes in one or two waves sharing one "
             "directory (optionally with caches left by an older catalogue), random stdio buffer/write chunk size and preemption "
             "rate, seeded scheduler choosing the running process at every system call.",
        real=["astcheck (whole program, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P02": dict(
        targets=["astcheck"], sources=["s_astcheck.cpp"], runs=(30000, 400000),
        rule="Each run: waves of astcheck processes with kills at arbitrary system calls, failed/short/torn reads and writes, "
             "full disk, failed open/close/rename/allocation, power loss cutting the tail off cache files; then faults stop and further instances must finish correctly.",
        real=["astcheck (whole program, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P03": dict(
        targets=["astcheck"], sources=["s_astcheck.cpp"], runs=(30000, 400000),
        rule="Each run: waves of astcheck processes with I/O and allocation faults; every process that exits 0 is compared with "
             "a fault-free lone run.",
        real=["astcheck (whole program, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P04": dict(
        targets=["astcheck"], sources=["s_astcheck.cpp"], runs=(18000, 200000),
        rule="Each run: a history of 2-6 astcheck waves with catalogue replacements (new epoch, object added, dropped, inserted, "
             "first/last orbit changed, older catalogue restored) between them or while they run, and observations on easily confused dates (same day in another year, swapped month and day, ...).",
        real=["astcheck (whole program, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P05": dict(
        targets=["lib"], sources=["s_eop.cpp"], runs=(12000, 60000),
        rule="Each run: a client process loads, reloads, releases and queries Earth orientation files (17 synthetic variants: good, short, "
             "damaged, empty, missing) with open/read/allocation faults and short reads; every query is compared with a host-side table and interpolation.",
        real=["load_earth_orientation_params, get_earth_orientation_params, td_minus_ut (liblunar)"] + STDREAL, stub=STDSTUB),
    "P06": dict(
        targets=["libt", "lib"], sources=["s_eop.cpp"], runs=(400000, 2000000),
        rule="Each run: 2-4 threads sharing one loaded table issue 1-6 queries each; the scheduler preempts between basic blocks and before accesses to shared memory, at a random mean gap.",
        real=["get_earth_orientation_params, td_minus_ut, td_minus_utc, tdb_minus_tdt (liblunar)"], stub=STDSTUB + ["threads (coroutines sharing one copy of the library's globals)"]),
    "P07": dict(
        targets=["lib"], sources=["s_cospar.cpp"], runs=(100000, 1000000),
        rule="Each run: a client process loads, reloads, releases and queries body orientation data (5 file variants and a missing file, default file "
             "appearing, changing and vanishing) with open/read/allocation faults; every answer is compared with that of a fresh, undisturbed process.",
        real=["load_cospar_file, calc_planet_orientation, planet_rotation_rate, planet_radii (liblunar)"] + STDREAL, stub=STDSTUB),
    "P08": dict(
        targets=["lib"], sources=["s_ephem.cpp"], runs=(120000, 1500000),
        rule="Each run: a client process loads and evaluates PS-1996, VSOP87 and ELP82 files (synthetic, 4 data sets), with its own file pointer or the default "
             "file name, files cut short, removed and restored between calls, and open/read/allocation faults; every success is compared with an independent evaluation of the data.",
        real=["load_ps1996_series, get_ps1996_position, calc_big_vsop_loc, compute_elp_xyz (liblunar)"] + STDREAL, stub=STDSTUB),
    "P09": dict(
        targets=["gust", "gustz"], sources=["s_calls.cpp"], runs=(100000, 1000000),
        rule="Each run: one client process makes 2-15 library calls (78 kinds, arguments drawn from small pools so that calls share some of them), with changes of the "
             "configuration (Delta-T string, Earth orientation data, month and day names) in between; every answer is compared with that of a fresh process.",
        real=["liblunar", "gust86"] + STDREAL, stub=STDSTUB),
    "P10": dict(
        targets=["libt"], sources=["s_calls.cpp"], runs=(300000, 4000000),
        rule="Each run: 2-4 threads make 1-4 library calls each (about 55 kinds, functions without caches); the scheduler preempts between basic blocks and before "
             "accesses to shared memory, at a random mean gap; every answer is compared with the same call made alone.",
        real=["liblunar"], stub=STDSTUB + ["threads (coroutines sharing one copy of the library's globals)"]),
    "P11": dict(
        targets=["lib"], sources=["s_cgi.cpp"], runs=(1000000, 4000000),
        rule="Each run: one form submission (GET, urlencoded POST or multipart POST; 1-5 fields, random bytes, sizes up to the last one which fits, encodings and boundary) delivered in random chunks, "
             "with malformed escapes, connections lost, read errors, failed allocations, missing or impossible CGI variables and oversized names or values; fields read are compared with those sent.",
        real=["initialize_cgi_reading, get_cgi_data, get_multipart_form_data, get_urlencoded_form_data, free_cgi_data (liblunar)"] + STDREAL, stub=STDSTUB),
    "P12": dict(
        targets=["cgicheck", "astcheck"], sources=["s_astcheck.cpp"], runs=(50000, 400000),
        rule="Each run: 1-3 waves of 1-4 web requests (with text, file, both or no observations) served at once from one directory, with requests killed at any system call, "
             "chunked input, short writes and reused process ids; every page is compared with that of a lone request in a clean directory, and its matches with those of the command-line program.",
        real=["cgicheck (whole program)", "liblunar"] + STDREAL, stub=STDSTUB + ["the web server (CGI environment and standard input)"]),
    "P13": dict(
        targets=["add_off"], sources=["s_addoff.cpp"], runs=(100000, 1500000),
        rule="Each run: 1-3 waves of 1-3 add_off processes on random 80-column or ADES files (1-8 observations of 7 spacecraft and ground stations; sometimes 400-700), with failing, partial, "
             "wrong or missing answers of the service, I/O and allocation faults, kills and reused process ids; every output is compared line by line with the input and what the service answered.",
        real=["add_off (whole program)", "liblunar"] + STDREAL, stub=STDSTUB + ["curl and the JPL Horizons service"]),
    "P14": dict(
        targets=["add_off_cgi"], sources=["s_addoff.cpp"], runs=(200000, 2000000),
        rule="Each run: 1-3 waves of 1-4 web requests served at once, with requests killed at any system call, chunked input, short writes, failing reads, writes, opens, allocations and queries, full disks and reused process ids; every page is compared with the "
             "request's own observations and the answers its own queries got, or says what failed.",
        real=["add_off (whole program, on-line version)", "liblunar"] + STDREAL, stub=STDSTUB + ["curl and the JPL Horizons service", "the web server (CGI environment and standard input)"]),
    "P15": dict(
        targets=["lib", "jd"], sources=["s_clock.cpp"], runs=(800000, 5000000),
        rule="Each run: a client makes 2-13 queries that read the clock or must not (9 kinds), or the jd program runs, while another process sets the wall clock 0-4 times "
             "(forward, back, to any instant of 1970-2260, around midnights and year ends) at any system call, sometimes with failing clock reads.",
        real=["nanoseconds_since_1970, current_jd, get_time_from_stringl (liblunar)", "jd (whole program)"] + STDREAL, stub=STDSTUB),
    "P16": dict(
        targets=["them_cat"], sources=["s_convert.cpp"], runs=(240000, 2000000),
        rule="Each run: a history of them_cat updates (1-3 instances at once) of one catalogue with random element sets, I/O faults, full disks, kills at any system call and "
             "reused process ids; the catalogue is examined after every system call and compared with the merge of the sets given.",
        real=["them_cat (whole program)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P17": dict(
        targets=["mpc2sof"], sources=["s_convert.cpp"], runs=(200000, 2000000),
        rule="Each run: mpc2sof processes convert random asteroid and comet files (0-120 records with varied epochs, designations, magnitudes and uncertainties; damaged lines, missing files) with I/O and allocation faults, full disk and "
             "kills; each successful output is compared with a record-by-record oracle.",
        real=["mpc2sof, mpcorb (whole program)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P18": dict(
        targets=["csv2ades", "mms", "themis", "jpl2b32"], sources=["s_convert.cpp"], runs=(240000, 2000000),
        rule="Each run: one of the four converters on random input with failing, short and torn reads and writes, full disk, failed opens, closes and allocations and kills; "
             "each output of a successful run is compared whole (header, every record, every value) with that of an independent model.",
        real=["csv2ades, mms, themis, jpl2b32 (whole programs)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P19": dict(
        targets=["lib", "libt"], sources=["s_ades.cpp"], runs=(100000, 3000000),
        rule="Each run: 1-3 astrometry streams (80-column, Tholen sigmas, PSV tables with random columns, XML blocks in several layouts; LF, CRLF or CR) read through contexts of their own, interleaved at line level or "
             "on 2-3 threads, with short reads, truncation at any byte, read errors and failed allocations; every line compared with an independent model.",
        real=["ades2mpc (fgets_with_ades_xlation and all below it)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P20": dict(
        targets=["astcheck"], sources=["s_astcheck.cpp"], runs=(80000, 1000000),
        rule="Each run: a file with 2-7 objects (1-4 observations each; shared and different stations, rovers, unknown stations, adjacent and distant days, days changing "
             "between observations, confusable designations), lines mixed up and remarks in between, checked by one or two concurrent astcheck runs with random options; "
             "what each run says about each object is compared with a lone run on that object's observations only.",
        real=["astcheck (whole program, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P23": dict(
        targets=["astcheck"], sources=["s_astcheck.cpp"], runs=(40000, 500000),
        rule="Each run: a random catalogue (some orbits turned so that their object crosses RA 0 or 180 within the day, some at high declinations), 1-3 observed objects placed at chosen "
             "separations and motions from a catalogued one, searched in one or two rounds by 1-3 concurrent astcheck runs with different radii, magnitude, motion and number limits over the shared "
             "day caches; every line shown is compared with positions listed one by one, without caches or limits, for the same instants and station.",
        real=["astcheck (whole program, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P24": dict(
        targets=["mpc_code", "xxx2rov", "astephem", "desigcgi"], sources=["s_list.cpp"], runs=(400000, 4000000),
        rule="Each run: one of the list-making programs over random input — observatory and rover lists (two formats, base-60 places, comments, missing line ends) with region boxes and a page header; observations with "
             "and without places for code XXX; asteroid catalogues of numbered and unnumbered objects searched by number or designation with start dates, steps and counts; Web forms of packed and unpacked designations — "
             "with read, write, open and allocation faults; each line shown is compared with an independent model (geodesy, two-body orbit with light time and magnitude law, packing rules, each form field alone).",
        real=["mpc_code (lister), xxx2rov, astephem, desigcgi (whole programs, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
    "P25": dict(
        targets=["phases", "chinese", "calendar"], sources=["s_calendar.cpp"], runs=(60000, 1000000),
        rule="Each run: one or two phases runs (times, Beijing days and principal terms, binary table; random dates from -2500 to 3500 and options), or chinese over a sorted log of 4-16 years, or calendar (all options) over "
             "random event files and a table of phases which may be missing, left over from a killed run or just being rewritten; read, write, open, close and allocation faults, full disks, kills, and a clock that ticks at any point; "
             "repeated until done; everything is compared with independently computed phases, solar terms, calendar rules and page layout.",
        real=["phases, chinese, calendar (whole programs)", "liblunar"] + STDREAL, stub=STDSTUB + ["vsop.bin (a smaller one, made from published terms)"]),
    "P26": dict(
        targets=["jevent", "lun_test", "tables"], sources=["s_events.cpp"], runs=(20000, 400000),
        rule="Each run: one to three jevent runs one after the other (random dates, days, satellites and options; sometimes two at once) that append to one data file, or the table of Moon transits (lun_tran) for a random place, year and month, or tables for a random month or year; missing, cut and unreadable vsop.bin, "
             "lists without the place, read, write, open, close and allocation faults, full disks and kills; repeated until done; everything is compared with independently found events, transits, risings and settings.",
        real=["jevent, tables with riseset3 (whole programs)", "lun_tran with riseset3", "liblunar (calc_jsat_loc and td_minus_ut are used by the oracle too)"] + STDREAL, stub=STDSTUB + ["vsop.bin (a smaller one, made from published terms)", "main program around lun_tran (lun_test.cpp with its failures reported)"]),
    "P21": dict(
        targets=["cgicheck", "add_off_cgi", "parallax_cgi", "desigcgi"], sources=["s_limits.cpp"], runs=(100000, 1000000),
        rule="Each run: one or two rounds of 1-3 simultaneous requests to the four web programs; the processor time of some is used up at a random basic block "
             "and the kernel's reaction (SIGXCPU, hard limit) is simulated; pages of the others and of later requests are compared with lone runs.",
        real=["cgicheck + astcheck, add_off (on-line), parallax (on-line), desigcgi (whole programs, unmodified)", "avoid_runaway_process and its signal handler", "liblunar"] + STDREAL,
        stub=STDSTUB + ["processor time accounting and SIGXCPU delivery", "position service (always unavailable)"]),
    "P22": dict(
        targets=["parallax", "parallax_cgi"], sources=["s_limits.cpp"], runs=(200000, 2000000),
        rule="Each run: random rover and observatory lists (two formats, duplicates, unreadable records, missing line ends, base-60 positions, poles, four-character codes, missing files, no HOME) and region "
             "lists, 1-3 simultaneous look-ups (codes, or places given as latitude and altitude, parallax constants or rectangular coordinates) by command line and web form with read/open/allocation faults; "
             "every number shown is compared with the list by independent geodesy and with the others.",
        real=["parallax (command-line and on-line, whole programs, unmodified)", "liblunar"] + STDREAL, stub=STDSTUB),
}
