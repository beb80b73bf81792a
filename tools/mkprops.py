#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because JSONL is awkward to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

NOTEST = "No registered test reads a file at all: the three stable tests only construct antennas, observation codes and observables; the reader programs under test/ need real data files and only print. "

prop("C01", "Observation RINEX: every epoch is delivered exactly once, in order, exact",
 "Reading a valid RINEX 3 observation file to its end returns status 0 once per observation epoch, in file order, then -1 (and -1 again on every further call); special-event epochs (epoch flag greater than 1) are passed over together with their records (one that redefines the observation types may end the reading with a positive status instead), and each epoch carries exactly its date, seconds of day, and satellite list, and for each satellite and each requested observable exactly the value the file records, the documented linear combination of the recorded values, or the missing-value marker where a needed value is absent. Systems that are not requested are left out; a request for an observable the file does not have is left out too or, where that is not allowed, refused as a whole, as is one that mixes systems; the header facts (approximate position, first epoch, maximum number of observables) are the recorded ones. This holds no matter how the operating system splits, delays or interrupts the reads, and no matter what earlier unrelated calls left in errno or on the stack.",
 ["inputs", "schedules", "histories", "fault_sequences"],
 "every valid version 3.02-3.05 observation file (1-80 satellites per epoch, any number of observables per system incl. continuation header lines, single and combined observables, values with or without LLI/SSI), every split of its bytes into reads, every EINTR pattern and every ambient errno",
 NOTEST + "What a read() returns per call, EINTR, stale errno and stack contents are never varied.",
 ["src/obsrnx.cpp", "src/obsrnx.hpp", "src/gnssobsrv.hpp", "src/gnssobs.hpp"],
 [("header parsing and per-system observable tables", "ObservationRnx::read_header, __resolve_obstypes_304__"),
  ("epoch and satellite-line parsing", "ObservationRnx::read_next_epoch, collect_epoch, sat_epoch_collect, __resolve_epoch_304__"),
  ("observable map", "ObservationRnx::set_read_map")],
 ["return values and out-parameters of read_next_epoch", "x/y/z_approx, time_of_first_obs, max_obs"],
 [("__buf", "raw satellite line buffer", "src/obsrnx.hpp"), ("__obstmap", "observables per system, header order", "src/obsrnx.hpp")])

prop("C02", "Observation RINEX: damage is contained",
 "If an observation file is cut off at any byte, is torn inside an epoch and continued with that or a later epoch (a receiver that crashed and was restarted), a read fails with an I/O error at any byte, or stored bytes are flipped, then every epoch that lies before the damaged place is still delivered, exact, an I/O error, cut or tear inside an epoch never yields status 0 for that epoch with values or satellites the file does not contain, also for a caller that goes on reading after a tear, and an I/O error is reported as an error, not as a normal end of file; an epoch with a mandatory field that cannot be read (a date, count, satellite or requested observation holding no number) is reported with a positive status, not delivered. Reading always terminates: within a number of calls bounded by the file length a caller that stops at the first non-zero status gets one. No read ever touches memory outside the reader's and the caller's buffers.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation offset, every I/O error offset and duration, every small set of byte flips, over valid files; callers that loop until a non-zero status",
 NOTEST + "No test ever sees a failing, short or corrupted stream.",
 ["src/obsrnx.cpp", "src/obsrnx.hpp"],
 [("status checks on every getline", "ObservationRnx::read_next_epoch, collect_epoch"),
  ("epoch-line validation", "ObservationRnx::__resolve_epoch_304__")],
 ["status and out-parameters of read_next_epoch", "AddressSanitizer/UBSan on the real code", "step budget"])

prop("C03", "Observation RINEX: sessions restart cleanly",
 "After any history of calls on an open observation reader (partial reads, reading to the end, a read that failed because of a transient I/O error, a change of the requested observables) a successful rewind() makes the following reads deliver the same epochs, from the first, as a freshly opened reader with the currently requested observables. If the device cannot seek, rewind does not make later reads deliver anything but true records in file order.",
 ["histories", "fault_sequences"],
 "every sequence of set_read_map / read_next_epoch / rewind calls, with transient read errors and failed seeks at any point",
 NOTEST + "Sequences of rewind after EOF or after an error are not exercised.",
 ["src/obsrnx.cpp", "src/obsrnx.hpp"],
 [("rewind to end of header", "ObservationRnx::rewind")],
 ["read_next_epoch after rewind"])

prop("C04", "Navigation RINEX: records are exact and the cursor behaves like a list",
 "On a valid RINEX 3 navigation file, read, peek, ignore, find-next and rewind behave as a cursor over the list of records the file contains: reads return every record once, in order, with its system, PRN, clock epoch and every broadcast value exact (GLONASS kilometre fields in metres, blank values as 0); peeking never moves the cursor, ignoring moves it by exactly one record, find-next returns the next record of the given system and PRN and skips only others, rewind(pos) returns to a position obtained earlier, and the end of the list is reported as -1. This holds for every sequence of these calls, whatever the read sizes, EINTRs and ambient errno.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every valid mixed or single-system file (G, R, E, C, J, S, I records), every call sequence, every read chunking/EINTR pattern",
 NOTEST + "Call histories and read splitting are never varied.",
 ["src/navrnx.cpp", "src/navrnx.hpp"],
 [("record parsing", "NavDataFrame::set_from_rnx3"), ("cursor", "NavigationRnx::read_next_record, peak_satsys, ignore_next_block, find_next, rewind")],
 ["NavDataFrame system/prn/toc/data", "return values"])

prop("C05", "Navigation RINEX: the right message is selected for every instant",
 "For GPS, Galileo, BeiDou and GLONASS, find_next_valid(t, system, prn) returns, starting at the cursor, the first healthy record of that system and satellite (any satellite when prn is -1) whose validity interval contains t - from the clock epoch up to but excluding clock epoch plus fit interval for GPS, Galileo and BeiDou, within plus/minus 15 minutes of the time of ephemeris (upper end excluded) for GLONASS - and reports failure (-1) once a matching record starts more than 4 hours after t or the file ends. For other systems, whose health and validity are not defined, it never succeeds. A receiver that walks simulated time forward and re-queries when its message expires therefore never uses an expired, not yet valid, unhealthy, or wrong satellite's message while a valid one lies ahead.",
 ["inputs", "histories", "schedules"],
 "every time-ordered file, every forward walk of simulated time with arbitrary steps and jumps across day and GPS-week boundaries, every cursor position",
 NOTEST + "Selection by time is only exercised by hand against real files; boundaries and clock jumps are not.",
 ["src/navrnx.hpp", "src/navrnx.cpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/bdsnav.cpp", "src/glonav.cpp"],
 [("selection loop", "NavigationRnx::find_next_valid"), ("fit interval and health", "NavDataFrame::fit_interval, sv_health")],
 ["returned status and frame"])

prop("C06", "Navigation RINEX: damage is contained",
 "If a navigation file is cut off at any byte, is torn inside a record and continued with that or a later record (a receiver that crashed and was restarted), a read fails with an I/O error at any byte, or stored bytes are flipped, every record that lies before the damage is still delivered, exact, a record that the cut, the tear or the I/O error hits, or with a satellite, date or value that cannot be read, is never delivered with status 0 (nor passed over with status 0 if lines of it are missing), and an I/O error is reported as an error rather than as end of file. After a transient I/O error a rewind restores the session. Every navigation call terminates within a bounded number of steps, never crashes the process, and never touches memory outside its buffers.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation offset, I/O error offset and small set of byte flips over valid files and every call that reads records (read, ignore, find-next, find-next-valid, peek)",
 NOTEST + "No test ever sees a failing, short or corrupted stream.",
 ["src/navrnx.cpp", "src/navrnx.hpp"],
 [("status checks", "NavDataFrame::set_from_rnx3, NavigationRnx::clear_stream")],
 ["status and frames", "sanitizers", "step budget"])

prop("C07", "SP3: every epoch is delivered exactly once, with exact values and flags",
 "Iterating a valid SP3-c/d file delivers every epoch once, in order, with its time and, for every satellite line, its system, number, position, clock and the bad/missing, clock event, clock prediction, maneuver and orbit-prediction flags exactly as recorded; the last epoch is delivered together with status -1. Rewinding after any history - including the end of the file or a transient I/O error - restarts the iteration from the first epoch, and none of this depends on read chunking, EINTR, or ambient errno.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every valid SP3-c/d file with P/V/EP/EV lines, any number of header satellite lines, every call sequence of get_next_epoch/rewind, every read chunking/EINTR pattern",
 NOTEST + "The SP3 program only prints values.",
 ["src/sp3c.cpp", "src/sp3c.hpp"],
 [("header", "Sp3c::read_header"), ("iteration", "Sp3c::get_next_epoch, get_next_position, rewind"), ("flags", "Sp3Flag")],
 ["get_next_epoch out-parameters", "num_sats, num_epochs, interval"])

prop("C08", "SP3: damage is contained",
 "If an SP3 file is cut off at any byte, a read fails with an I/O error at any byte, or stored bytes are flipped, every epoch that lies before the damage is still delivered, exact, an epoch hit by the cut or error, or with a date, satellite, coordinate or clock that is blank or cannot be read, is never delivered as if complete, and a failing read is not reported as a regular end of the orbit. Iteration terminates within a bounded number of steps and never writes past the vector the caller allocated.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation offset, I/O error offset and small set of byte flips over valid files, callers that loop until a non-zero status",
 NOTEST + "No test ever sees a failing, short or corrupted stream.",
 ["src/sp3c.cpp", "src/sp3c.hpp"],
 [("status checks", "Sp3c::get_next_epoch, get_next_position")],
 ["status and epoch vectors", "sanitizers", "step budget"])

prop("C09", "ANTEX: the satellite antenna valid at the asked instant is found",
 "Looking up a satellite antenna by system, PRN and instant returns 0 exactly when the file has an entry for that satellite whose validity interval contains the instant (both ends included, open-ended when no end is given), and then reports that entry's antenna type, SVN and COSPAR identifier and its phase centre offsets per frequency; otherwise it reports not-found with a non-zero status. The answer depends only on the file and the arguments, not on earlier queries, their failures, or on how reads were split.",
 ["inputs", "histories", "schedules"],
 "every valid file of satellite and receiver blocks, any number of validity generations per PRN, every query sequence along simulated time incl. the interval ends",
 NOTEST + "Lookups are only made against a downloaded file, one at a time.",
 ["src/antex.cpp", "src/antex.hpp", "src/antenna.cpp", "src/antenna_pcv.hpp"],
 [("satellite search", "Antex::find_satellite_antenna, check_time_interval"), ("offset collection", "Antex::collect_pco")],
 ["status, SatelliteAntenna, Satellite, AntennaPcoList"])

prop("C10", "ANTEX: the best receiver antenna match wins, whatever the query history",
 "Looking up a receiver antenna returns (status 0) the calibration with the same model, radome and serial when the file has it, otherwise the model-and-radome calibration without serial, otherwise not-found (positive status); when a serial match is demanded, only the exact serial is accepted and anything else is an error. On success the phase centre offsets per frequency are exactly that entry's, and the answer depends only on the file and the arguments, not on earlier queries or on how reads were split.",
 ["inputs", "histories", "schedules"],
 "every valid file with any order of serial-specific and generic entries, FREQ RMS blocks and non-azimuth/azimuth patterns, every query sequence",
 NOTEST + "Only the antenna comparison itself is printed by testAntenna; order of entries and history are not varied.",
 ["src/antex.cpp", "src/antex.hpp", "src/antenna.cpp"],
 [("closest match search", "Antex::find_closest_antenna_match"), ("offset collection", "Antex::collect_pco, get_antenna_pco")],
 ["status, ReceiverAntenna, AntennaPcoList"])

prop("C11", "ANTEX: damage is contained and the reader recovers",
 "If an ANTEX file is cut off, has flipped bytes, or a read fails with an I/O error, every lookup terminates within a bounded number of steps without crashing, and a lookup that reports success reports the data of the true entry as far as the bytes it read were undamaged - never an entry whose satellite, validity, frequency or offset fields it needs and cannot read. A lookup that failed because of a transient I/O error does not spoil the reader: the next lookup answers as if nothing had happened.",
 ["fault_sequences", "crash_points", "histories"],
 "every truncation offset, I/O error offset/duration and small set of byte flips, at any point of a query sequence",
 NOTEST + "No test ever sees a failing, short or corrupted stream.",
 ["src/antex.cpp", "src/antex.hpp"],
 [("stream status handling", "Antex::find_closest_antenna_match, find_satellite_antenna, collect_pco, skip_rest_of_antenna")],
 ["status and results per query", "sanitizers", "step budget"])

prop("C12", "Bernese satellite file: the record valid at the asked instant is found",
 "Looking up the GLONASS frequency channel of a satellite vehicle number at an instant returns the PRN and channel of the record that lists this vehicle with a microwave entry whose interval contains the instant (start included, end excluded, open-ended when no end is given), and -1 when there is none. The answer depends only on the file and the arguments - not on earlier queries, on read splitting, or on transient I/O errors of earlier queries - and an I/O error during the query, or a field of the record that cannot be read, is reported as an error, never as a wrong channel or satellite.",
 ["inputs", "histories", "fault_sequences"],
 "every valid file, every query sequence along simulated time incl. interval ends, every I/O error offset/duration, truncation and read chunking",
 NOTEST + "The Bernese program prints a single query.",
 ["src/bern_utils.cpp", "src/bern_utils.hpp"],
 [("record scan", "BernSatellit::get_frequency_channel")],
 ["status, channel and PRN"])

prop("C13", "Opening a reader is all or nothing",
 "Constructing any of the file readers (observation, navigation, SP3, ANTEX, Bernese satellite) either succeeds with the header facts of the file, or throws a standard exception - when the file cannot be opened, a read fails, or the header is cut off or damaged - and in that case leaks neither a file descriptor nor memory. It never crashes, never hangs, never succeeds on a header whose end marker was not read, and a successful construction does not depend on what the stack, the heap or errno held before.",
 ["fault_sequences", "crash_points", "inputs", "histories"],
 "every open failure, every truncation or I/O error offset within the header, small sets of byte flips in the header, every earlier use of the process (another file of the same kind read just before)",
 NOTEST + "No test opens a missing, failing or truncated file.",
 ["src/obsrnx.cpp", "src/navrnx.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp"],
 [("constructors check read_header status", "the five reader constructors")],
 ["exception or reader", "open descriptors of the simulated file system", "sanitizers, step budget"])

prop("C14", "Readers can be handed over mid-session",
 "Moving a reader (move construction or, where offered, move assignment) at any point of a session hands over the whole session: the new owner continues exactly where the old one was, nothing is freed twice or leaked, and the moved-from object can be destroyed or, where assignment is offered, assigned to again.",
 ["histories", "schedules"],
 "every session of every reader type, moves at every point, chains of moves through containers, with read chunking",
 NOTEST + "No test moves a reader.",
 ["src/obsrnx.hpp", "src/navrnx.hpp", "src/sp3c.hpp", "src/antex.hpp", "src/bern_utils.hpp"],
 [("defaulted or written move operations", "reader classes")],
 ["results after the move equal those of an unmoved session", "AddressSanitizer"])

prop("C15", "Independent readers do not disturb each other",
 "Any number of readers, of the same or different types and on the same or different files, used alternately or by different threads (each reader by one thread) give each caller exactly what it would get alone.",
 ["schedules", "histories"],
 "every interleaving of the sessions of two to four readers, preempted at any basic block of the library code",
 NOTEST + "No test uses two readers or two threads.",
 ["src/obsrnx.cpp", "src/navrnx.cpp", "src/sp3c.cpp", "src/antex.cpp", "src/bern_utils.cpp", "src/antenna.cpp"],
 [("no mutable state shared between instances", "all readers")],
 ["per-task results compared with the results of the task run alone"])

prop("C16", "Kepler messages: position and clock are right and continuous over time",
 "For a GPS, Galileo or BeiDou (MEO, IGSO or geostationary) message and any instant within half a day of its ephemeris - on the same day or across a day, GPS-week or year boundary - the computed Earth-fixed position agrees with the interface-control-document model to better than a centimetre and the clock correction (polynomial about the clock epoch plus the relativistic term) to better than 0.1 ns. The result depends only on the message and the instant, not on the type used to express the instant or on evaluations made before.",
 ["inputs", "histories", "schedules"],
 "every broadcast parameter set of realistic range (eccentricity up to 0.1), every walk of simulated time with steps and jumps across day/week boundaries",
 NOTEST + "Orbit evaluation is in no registered test; the programs compare by hand against SP3 files.",
 ["src/navrnx.hpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/bdsnav.cpp"],
 [("Kepler propagation", "NavDataFrame::kepler2state"), ("clock", "NavDataFrame::sv_clock"), ("reference-day handling", "ref2toe, ref2toc, toe2date")],
 ["stateNclock outputs along a simulated clock"])

prop("C17", "GLONASS messages: position and clock are right and continuous over time",
 "For a GLONASS message and any instant within 15 minutes of its ephemeris, on the same day or across midnight or a week boundary, the computed PZ-90 position agrees with integrating the interface-control-document equations of motion (GM, J2, Earth rotation, luni-solar acceleration) from the broadcast state to that instant to better than a centimetre, and the clock correction is the recorded bias plus drift; instants further away are flagged by a non-zero status. In particular the integration reaches exactly the asked instant, whatever its distance from the ephemeris epoch, forwards and backwards.",
 ["inputs", "histories", "schedules"],
 "every realistic broadcast state, every walk of simulated time (any sub-second to 15 min offset, both signs) across day boundaries",
 NOTEST + "testGloNavJ12 is not registered and uses one fixed state and offset.",
 ["src/glonav.cpp", "src/navrnx.hpp"],
 [("Runge-Kutta integration", "NavDataFrame::glo_ecef"), ("clock", "NavDataFrame::glo_clock"), ("ephemeris date", "glo_toe2date")],
 ["stateNclock outputs along a simulated clock"])

prop("C18", "The Kalman filter follows the measurement history",
 "After any sequence of measurement epochs - each with any set of pseudoranges, or of observables that are a constant multiple of a pseudorange, weighted or not, and any time step since the previous one - the filter's state and reported standard deviations equal those of the textbook extended Kalman filter for position, clock offset and clock drift with the same initial covariance, process noise and measurement variances, to numerical accuracy. Fed with measurements consistent with a fixed truth it converges to that truth within a bounded number of epochs, also after epochs or satellites were lost, duplicated or delayed. The order of the satellites inside an epoch does not matter, and neither does it matter whether the filter was copied or moved in between.",
 ["histories", "schedules", "inputs"],
 "every sequence of epochs (1-70 satellites, with or without non-negative weights, any constant scale factor, steps of up to eight minutes forwards and backwards) delivered by a lossy, duplicating, delaying channel on a simulated clock",
 NOTEST + "gauss_newton.hpp is only parsed by the build; nothing instantiates the filter.",
 ["src/gauss_newton.hpp"],
 [("time and measurement update", "Kalman::update")],
 ["state and standard deviations as printed by print_state after every epoch"])

prop("C22", "Positioning from files: the program ends where the true data leads",
 "A program that reads pseudoranges (single or linearly combined, whatever the coefficients add up to) epoch by epoch from a valid observation file, keeps for each satellite the broadcast message selected from a valid navigation file until it expires, and feeds satellite states and pseudoranges to the filter, gets at every epoch the recorded pseudoranges, the first healthy message covering the instant, the satellite state that message defines, and so the filter state a reference computes from the same history: within measurement accuracy of the true receiver position as the geometry allows. This holds for every split of the reads, after transient I/O errors answered by a rewind, across outages, lost satellites and missing, unhealthy or superseded messages, when readers are moved on the way, and whatever other such program runs at the same time.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "every world (receiver, satellites of four systems, messages, outages, reception losses), every history of read errors and moves, every interleaving with a second program",
 NOTEST + "pp_rnx.cpp does this by hand for one station and prints; it is built but not registered.",
 ["src/obsrnx.cpp", "src/navrnx.hpp", "src/navrnx.cpp", "src/gpsnav.cpp", "src/galnav.cpp", "src/bdsnav.cpp", "src/glonav.cpp", "src/gauss_newton.hpp"],
 [("epochs", "ObservationRnx::read_next_epoch"), ("selection", "NavigationRnx::find_next_valid"), ("satellite state", "NavDataFrame::stateNclock"), ("filter", "Kalman::update")],
 ["epochs, messages, satellite states and filter states along the whole history"])

prop("C19", "Observation codes, systems and observables round-trip",
 "Every observation code, observation attribute, observable type and satellite system converts to its characters and back without change, and invalid characters are rejected with an exception.",
 ["inputs"],
 "every character combination",
 "testObsCode prints a handful of codes; the quantifier is over all characters.",
 ["src/gnssobs.cpp", "src/gnssobs.hpp", "src/satsys.cpp", "src/satsys.hpp"],
 [("conversion tables", "ObservationCode, char_to_satsys, char_to_observabletype")],
 ["to_string, constructors"])

prop("C20", "Observable equality, identity and frequency algebra",
 "Two observables compare equal exactly when they are the same linear combination of the same raw observables, and the frequency and wavelength of a (combined) observable are those of its parts.",
 ["inputs"],
 "all combinations of raw observables and coefficients",
 "testObsType prints a handful of observables.",
 ["src/gnssobsrv.cpp", "src/gnssobsrv.hpp", "src/satsys.hpp"],
 [("comparison and frequency", "GnssObservable, GnssRawObservable")],
 ["operator==, frequency"])

prop("C21", "Antenna names compare by the documented rules",
 "Receiver and satellite antenna comparison follows the documented rules for model, radome (missing radome means NONE) and serial number, for every padding of the input strings.",
 ["inputs"],
 "all antenna name strings of up to 40 characters",
 "testAntenna prints a handful of comparisons.",
 ["src/antenna.cpp", "src/antenna.hpp"],
 [("comparison", "ReceiverAntenna::is_same, compare; SatelliteAntenna::is_same")],
 ["is_same, compare, operator=="])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
