#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOT = "The only existing tests exercise HEALPix pixel arithmetic; "
SM, SV = "src/sat_skymap.c", "src/sat_visibility.c"

prop("S01", "Every query ends in one complete, truthful JSON report",
 "Whatever the request, the catalogue bytes, the list file and the faults met (files that cannot be opened or read, memory that cannot be had, element sets that cannot be decoded), sat_skymap and sat_visibility terminate and, unless they print the usage text, write exactly one syntactically valid, complete JSON object that carries status, errmsg and the satellite counters. "
 "The process exit code is zero exactly when the reported status is zero (a call without any argument, which reports status 1 as a help text, excepted). "
 "A status of zero leaves errmsg empty (except to say that a requested satellite is not there), and every failure is described in errmsg, naming the file concerned when a file could not be opened or read.",
 ["inputs", "fault_sequences"], "all command lines, catalogue and list contents, and all sequences of open, read and allocation faults at every point of the scan",
 NOT + "none runs a query tool, and no finite set of sample queries visits every error path after every amount of output already produced.",
 [SM, SV], [("close_stat_json on every exit path", SM), ("open_json/close_stat_json", SV)], ["stdout of sat_skymap and sat_visibility", "exit status"])

prop("S02", "Success is never reported for an incomplete scan",
 "When sat_skymap or sat_visibility reports status 0 (or that a satellite is not in the catalogues), it has read every named catalogue and the list file to their ends, or stopped early only because the satellite asked for was found or the maximum number was reached. "
 "If a catalogue or the list cannot be opened or read to its end, the reported status and the exit code are non-zero, the records already reported stay exactly those of the part that was read, and nothing after the failing point is invented.",
 ["fault_sequences", "inputs"], "every position of an open or read failure (I/O error, interrupted read, descriptor exhaustion, vanished file) in every catalogue of every list, under every read chunking",
 NOT + "no test injects a storage fault, and a read error that looks like an end of file cannot be provoked from the command line.",
 [SM, SV], [("fgets loops over the list and each catalogue", SM), ("fgets loops", SV)], ["status and exit code against the set of satellites reported"])

prop("S03", "Lost output is never reported as success",
 "If any byte that sat_skymap, sat_visibility or mjdnow should have written to standard output could not be written (full device, I/O error, closed pipe reported as an error, descriptor closed), the process exits with a non-zero code. "
 "What was written before the failure is a prefix of the complete output, and short writes that can be completed lose nothing.",
 ["fault_sequences", "inputs"], "every output byte position at which the output device starts failing, every buffering mode and every short-write pattern, for every request",
 NOT + "tests write to a healthy device; the failing byte position and buffer size form an unbounded space.",
 [SM, SV, "src/mjdnow.c"], [("printf output, return from main", "src/*.c")], ["bytes accepted by the output device", "exit status"])

prop("S04", "A report depends only on the request and the catalogue bytes",
 "Running sat_skymap or sat_visibility with the same command line on the same file contents gives byte-for-byte the same report: the result does not depend on residual memory contents, memory layout, how reads are split, other processes replacing a catalogue after it was opened, the current date and time, the environment or working locale, or on what else is stored beside the named files. "
 "The tools never create, change or remove any file.",
 ["schedules", "inputs", "fault_sequences"], "all fillings of uninitialised memory, allocator layouts, read chunkings, clock values and jumps, environments, and interleavings with a catalogue updater",
 NOT + "a test process sees one memory image, one clock and one chunking; dependence on residual memory only shows under others.",
 [SM, SV, "src/get_el.c", "src/sdp4.c"], [("sat_name/line buffers", SM), ("position vector filled by SGP4/SDP4", "src/sgp4.c, src/sdp4.c")], ["stdout across runs of one scenario"])

prop("S05", "Damaged element sets never yield data and never affect others",
 "Only an element set whose two lines directly follow each other, carry correct checksums and the same catalogue number yields a record; a set that was torn, truncated, bit-flipped, or lost one of its lines is skipped. "
 "Every intact set in the same catalogue is still processed and gives exactly the record (name, designator, number and values) it would give in a catalogue containing it alone; in particular an orphaned half is never combined with a half of another satellite and no satellite is reported under another one's name.",
 ["fault_sequences", "inputs"], "every combination of torn writes, truncation, lost, duplicated or reordered lines, flipped and overwritten bytes in any catalogue, with LF or CRLF line ends",
 NOT + "the damage space (positions x kinds x neighbours) cannot be sampled by hand and no catalogue parsing is tested at all.",
 [SM, SV, "src/get_el.c"], [("tle_checksum / parse_elements acceptance", "src/get_el.c"), ("sliding two-line window and name tracking", SM)], ["satellite records in the report"])

prop("S06", "A merged list yields every satellite exactly once, at any size",
 "For a list of catalogues (@list), every catalogue named by a line of the list is read in list order, blank and comment lines are ignored and both LF and CRLF line ends are accepted; each catalogue number that occurs in any of them (and passes the request's selection) is reported exactly once, with the data of its first occurrence. "
 "This holds for any number of satellites, any overlap between catalogues, any order, and when memory runs out the tool fails cleanly with what was reported so far being correct.",
 ["inputs", "fault_sequences", "histories"], "all lists and catalogue sets including tens of thousands of satellites, duplicates within and across catalogues, and allocation failures at each allocation",
 NOT + "duplicate suppression over growing memory needs histories of >11,000 satellites and injected allocation failures.",
 [SM], [("sbuff duplicate buffer and its growth", SM), ("list reading loop", SM)], ["satellite records", "status"],
 [("sbuff", "catalogue numbers already met", SM)])

prop("S07", "Counters and limits agree with the records in every outcome",
 "In every report, n_sats_found equals the number of satellite records and n_sunlit_sats the number of those flagged sunlit, also when the run stopped early because of an error; n_sats equals n_sats_found; n_sats_found never exceeds the requested maximum (for a positive one) and the records are then the first ones in scan order. "
 "With -I no record is listed but all counters equal those of the same request without -I; with -V exactly the records flagged sunlit of the same request without -V are reported, in the same order.",
 ["inputs", "fault_sequences"], "all requests with any limit and switch combination, all catalogues, and faults cutting the scan at any point",
 NOT + "no test looks at a report; agreement has to hold on each of the error and early-stop paths.",
 [SM, SV], [("n_sats_found/n_sunlit_sats/n_sats bookkeeping", SM)], ["counters against records"])

prop("S08", "A single-satellite request reports that satellite and nothing else",
 "A request by catalogue number (-s), or by full international designator (-i), to sat_skymap or sat_visibility reports only a satellite carrying that number or designator, with the same data as if its catalogue contained nothing else, wherever and how often it appears among the listed catalogues and whatever filters are combined with it. "
 "If it is present and passes the filters it is reported; if it is absent or filtered out, no other satellite is reported in its place and the report says that it was not found. "
 "A name request (-S) reports exactly the satellites whose name begins with the given text.",
 ["inputs", "histories", "fault_sequences"], "all positions and multiplicities of the satellite, all neighbouring satellites, filters, lists, and read faults before it is reached",
 NOT + "the failing histories need a filter rejecting the requested satellite while others follow it.",
 [SM, SV], [("single_sat_found", SM), ("single_sat_found", SV)], ["records of single-satellite requests"])

prop("S09", "No input or allocation failure makes a tool touch foreign memory",
 "No command line, no contents of a catalogue or list file (any bytes, any length, any corruption of any kind of element set), and no allocation or I/O failure makes sat_skymap or sat_visibility read or write outside its objects, use uninitialised or freed memory, abort on an assertion, crash, or run forever.",
 ["inputs", "fault_sequences"], "all byte strings as files and arguments, with all allocation and read fault positions",
 NOT + "quantifies over arbitrary bytes combined with fault positions; an overflow need not change any output.",
 [SM, SV, "src/get_el.c", "src/mjd2date.c", "src/date2mjd_nf.c"], [("fixed-size buffers and field decoding", SM + ", " + SV + ", src/get_el.c")], ["AddressSanitizer build under the simulator", "allocator canaries in the product build", "signals and CPU limit"])

prop("S10", "Resource use does not grow with the number of catalogues",
 "While scanning a list of any length, sat_skymap and sat_visibility hold a bounded number of open files (the list and one catalogue) and release each catalogue before opening the next, so that a list of thousands of catalogues works under a small descriptor limit. "
 "After an error or a completed scan no memory block is freed twice and memory in use is bounded by the number of distinct satellites, not by the amount of data read.",
 ["histories", "configurations", "fault_sequences"], "all list lengths, descriptor limits and fault positions",
 NOT + "exhaustion appears only with lists longer than the descriptor limit.",
 [SM, SV], [("fopen/fclose pairing", SM + ", " + SV), ("sbuff growth", SM)], ["open-stream and live-memory gauges of the simulated runtime"])

prop("S11", "mjdnow prints the MJD of the system clock instant it read",
 "mjdnow reads the system clock and prints, in fixed notation with six decimals and a newline, 40587 plus the number of days elapsed since 1970-01-01 UTC at an instant between its start and its end, rounded to the printed precision. "
 "This holds for every clock value (before and after 2038, negative, at day boundaries), every time zone and locale setting, and however the clock jumps while it runs; if the clock cannot be read it does not print a made-up date and success.",
 ["schedules", "configurations", "inputs"], "all clock values, jumps, time zones and clock failures",
 NOT + "a test sees only the real clock of the day it runs.",
 ["src/mjdnow.c"], [("time() to MJD conversion", "src/mjdnow.c")], ["stdout of mjdnow under the simulated clock"])

prop("S12", "A visibility window agrees with itself and with the sky map of its instants",
 "When sat_visibility reports a window, its four instants (start, middle, highest, end) lie inside the requested range, are in order, and every Date is the MJD printed beside it; the middle is halfway, the duration is end minus start, start and highest lie within the requested radius, separation from the zenith and altitude add up to 90 degrees, and the satellite is not lower at its highest than at the start. "
 "A following sat_skymap query for the same satellite, site and printed instant, against the same catalogues, reports the same name and identifiers and, within the motion during the rounding of the printed MJD, the same ground point, altitude and distance, the same position of the Sun and, for start, middle and highest, the same answer to whether the satellite is in sunlight. "
 "When it reports no window (with a step of at most 15 s and no other filter), the sky map of no instant well inside the range shows that satellite sunlit well within the requested radius.",
 ["histories", "inputs", "fault_sequences"], "every satellite, site, range and step, and every history of a visibility query under storage faults followed by sky map queries for its instants",
 NOT + "none runs the two query tools, let alone one after the other on the same instants.",
 [SV, SM], [("time loop and the blocks for start, end, mid and max", SV), ("set_sat_date", SV), ("main", SM)], ["satellite.sat_start/mid/max/end, geoloc_*, sunlit_duration_minutes", "satellites[0].geoloc and data of sat_skymap"])

prop("R01", "A failed or partial download never replaces a catalogue",
 "tle_retrieve.sh replaces a catalogue only with the complete body of a successful (HTTP 200) transfer of that same catalogue. "
 "After any refused, timed-out, interrupted, truncated or non-200 transfer the previously stored catalogue is byte-for-byte what it was, and a body received for one catalogue is never stored under the name of another.",
 ["fault_sequences", "histories"], "all sequences of network outcomes (status codes, drops, timeouts mid-body, empty bodies, missing curl output) over all catalogues and repeated runs",
 NOT + "the scripts have no tests and the network outcomes cannot be produced at will.",
 ["scripts/tle_retrieve.sh"], [("HTTP code test then mv of the temporary file", "scripts/tle_retrieve.sh")], ["contents of every catalogue file after the run"])

prop("R02", "A crash or a concurrent reader never sees a torn catalogue",
 "At every instant of a tle_retrieve.sh run, and after killing it at any point, every catalogue file that existed before the run is either its complete old contents or the complete newly downloaded contents (for the derived special.txt: the complete old or complete new file), so that a query started at any time reads whole catalogues. "
 "A later undisturbed run brings the repository to the same state as if the killed run had not happened.",
 ["crash_points", "schedules", "histories"], "every crash point between and inside the steps of the update, every reader start time, and every sequence of killed and completed runs",
 NOT + "requires killing the updater at every step.",
 ["scripts/tle_retrieve.sh"], [("download to a temporary file, then mv", "scripts/tle_retrieve.sh"), ("special.txt assembly", "scripts/tle_retrieve.sh")], ["all *.txt after every step", "repository after recovery run"])

prop("R03", "One catalogue's failure neither stops nor corrupts the others",
 "Whatever happens to individual transfers, tle_retrieve.sh goes on to attempt every catalogue exactly once per run, stores every one that was transferred completely, and its log reports for each attempted catalogue, in order, 'retrieved' exactly if the stored file was replaced by the new contents and 'retrieval failed' otherwise.",
 ["fault_sequences"], "all subsets and kinds of failing transfers, failing file moves and full disks",
 NOT + "2^n combinations of per-catalogue outcomes.",
 ["scripts/tle_retrieve.sh"], [("per-catalogue loops and log lines", "scripts/tle_retrieve.sh")], ["requests seen by the simulated server", "log file", "repository"])

prop("R04", "The maintenance scripts touch nothing outside the repository",
 "tle_retrieve.sh and tle_satcount.sh create, overwrite, rename or remove files only inside the TLE directory given to them (apart from their log files in the temporary directory), whatever that directory's name, whether or not it exists or can be entered, and whatever the working directory they are started from; if the directory cannot be entered nothing is created, overwritten or removed anywhere and the script exits with a non-zero code.",
 ["configurations", "fault_sequences"], "all directory arguments (missing, unreadable, relative, with spaces or leading dashes) and working directories holding files of the same names",
 NOT + "no test runs the scripts; a wrong target only shows when the directory is missing.",
 ["scripts/tle_retrieve.sh", "scripts/tle_satcount.sh"], [("cd $OUTDIR / cd $TLEDIR", "scripts/*.sh")], ["every file-modifying operation issued by the scripts"])

prop("R05", "Satellite counts describe the current repository after any history",
 "After an undisturbed run of tle_satcount.sh, its logs and the generated PHP array give for each catalogue present the number of element sets it holds, cur_norad_ids.lis holds each distinct catalogue number of the non-debris catalogues exactly once, and the two totals equal the number of distinct non-debris numbers and that number plus the debris sets. "
 "The result depends only on the catalogues present at that time: earlier runs, including ones killed at any point, and leftover working files do not change it, and a second run reproduces it.",
 ["histories", "crash_points"], "all sequences of completed, killed and fault-hit runs over changing repositories",
 NOT + "history dependence needs a killed run followed by a complete one.",
 ["scripts/tle_satcount.sh"], [("cur_norad_ids.lis_tmp accumulation", "scripts/tle_satcount.sh"), ("wc/awk counting", "scripts/tle_satcount.sh")], ["logs, cur_norad_ids.lis, cur_tlesat_count.php"])

prop("R06", "special.txt holds the selected satellites for the clock's date",
 "After an undisturbed tle_retrieve.sh run, special.txt consists exactly of the element sets of the selected satellites present in the science, stations and active catalogues, plus, for each long-range ephemeris file present in the repository, exactly the one element set of the day the system clock indicates (the day following the current UTC day, as the script defines it), or none if that file does not cover the day. "
 "This holds for every date and time of day, including a midnight passing while the script runs, and sat_skymap reads every one of those sets.",
 ["schedules", "inputs", "histories"], "all clock values and jumps, all subsets of available inputs, download failures and previous contents",
 NOT + "depends on the wall clock.",
 ["scripts/tle_retrieve.sh"], [("awk selection by MJD", "scripts/tle_retrieve.sh")], ["special.txt", "sat_skymap report on it"])

prop("R07", "After a full update the shipped lists can be queried end to end",
 "After a tle_retrieve.sh run in which every transfer succeeded, a sat_skymap query over each shipped list (ALL_merged.lis, ALL_merged_nodeb.lis) on the repository succeeds, every catalogue the list names exists, and the satellites reported are those of the newly downloaded catalogues; if the update is interrupted or some transfers fail after a first complete update, such queries still succeed on the mixture of old and new catalogues.",
 ["histories", "fault_sequences", "crash_points"], "all update histories following one complete update, with queries at any time",
 NOT + "crosses the updater, the lists and the query tool.",
 ["ALL_merged.lis", "ALL_merged_nodeb.lis", "scripts/tle_retrieve.sh", SM], [("catalogue names in the lists and in the script", "ALL_merged.lis, scripts/tle_retrieve.sh")], ["query reports on the simulated repository"])

prop("R08", "Overlapping updates never mix their data",
 "When tle_retrieve.sh is started while another run of it, or a process left behind by a killed one, is still at work in the same TLE directory, then at every instant and afterwards every catalogue that existed is its complete old contents or a complete body transferred for that same catalogue, and special.txt is complete, whatever the interleaving. At least one of two undisturbed runs does its whole work; a run that does not request every catalogue ends with a non-zero exit code, and a run that claims success has stored what was transferred.",
 ["schedules", "crash_points", "histories"], "all interleavings, at system-call granularity, of two runs started at any distance, and of a run with the remains of a killed one",
 NOT + "an overlap at the harmful step cannot be produced by a test.",
 ["scripts/tle_retrieve.sh"], [("flock on the TLE directory; shared temporary file", "scripts/tle_retrieve.sh")], ["all *.txt after every step", "exit codes", "requests seen by the simulated server"])

prop("L01", "Propagating different satellites from several threads is safe",
 "Threads that each work on their own element sets and parameter blocks (parse, initialise, propagate with SGP, SGP4, SGP8, SDP4, SDP8, convert to sky positions, convert dates, locate HEALPix pixels) obtain exactly the values they obtain when run alone, however their execution interleaves, and none of them is held up for ever by another.",
 ["schedules"], "all interleavings of library calls of several threads at basic-block granularity",
 NOT + "an unlucky interleaving cannot be forced by a test.",
 ["src/sdp4.c", "src/deep.c", "src/earthtilt.c", "src/mjd2date.c", "src/common.c", "src/observe.c"], [("per-satellite parameter blocks", "src/norad.h"), ("function-level static caches", "src/sdp4.c, src/earthtilt.c, src/mjd2date.c")], ["returned values per thread"])

prop("L02", "A propagation's result does not depend on what was computed before",
 "For given lines and times, parsing, initialising and propagating (and every other library call) gives exactly the same values whatever satellites, times, models, sky positions or failing element sets were computed before in the process and whatever the memory it is given contained; no model writes outside the parameter block of its declared size or changes the element set it is given. With one initialised parameter block, positions and velocities requested at any sequence of times within ten days of the epoch, in any order of forward, backward and repeated requests, agree with those of a freshly initialised block: to 1e-8 of the orbit radius, apart from the reuse of lunar and solar perturbations of an earlier request at most 30 minutes away (deep-space models), and to 2e-4 for resonant orbits, whose resonance is integrated from the previous request.",
 ["histories"], "all sequences of library calls over satellites (near-Earth, deep-space, resonant, ephemeris-type), times and models",
 NOT + "call histories are unbounded; no test calls the propagators.",
 ["src/deep.c", "src/sdp4.c", "src/sgp4.c", "src/sgp8.c", "src/sdp8.c", "src/sgp.c", "src/common.c", "src/earthtilt.c", "src/lpsun_radec.c"], [("cached perturbations and resonance integrator state in the parameter block", "src/deep.c")], ["values of repeated calls in different histories"])

prop("F01", "A HEALPix map reported as written can be read back exactly",
 "If write_healpix_map returns as if the map had been written, the file is a complete FITS map from which read_healpix_map and get_fits_size return the same resolution, ordering, coordinate system (Galactic, ecliptic, anything else celestial) and values (undefined values as HEALPIX_NULLVAL, denormal ones as zero). If the device fails, fills up or memory runs out at any point, or resolution or coordinate system are invalid, the failure is reported (a message and a failing exit status) and never presented as success; an existing file is not replaced unless explicitly requested and no other file is touched. Without a fault a valid map is written, also after an earlier failure.",
 ["fault_sequences", "inputs"], "all resolutions, value patterns, ordering/coordinate flags and every position of a write, flush, close or allocation failure",
 "The existing FITS test writes one nside=1 map on a healthy disk.",
 ["HealpixC/chealpix.c"], [("write_healpix_map / setCoordSysHP", "HealpixC/chealpix.c")], ["file bytes on the simulated disk", "values read back"])

prop("F02", "Reading a damaged HEALPix map never yields invented values as success",
 "read_healpix_map and get_fits_size, given a truncated, unreadable or otherwise incomplete map file, a failing device or exhausted memory, report the failure; resolution, size and values are returned only if every one of them was read from the file and is possible (an intact map, whichever number of pixels its rows and columns its table has, is always read), a keyword that is present is never taken for a missing one, and reading never crashes, changes a file, leaves it open or writes beyond buffers of 10 characters.",
 ["fault_sequences", "inputs"], "every truncation point, read fault position, and missing or corrupt header keyword",
 "The existing FITS test reads one intact file.",
 ["HealpixC/chealpix.c"], [("read_healpix_map / get_fits_size", "HealpixC/chealpix.c")], ["return values, output buffers"])

# pure functions: recorded, not claimed
prop("N01", "HEALPix index conversions are mutually inverse",
 "For every resolution, pixel index and direction, the conversions between angles or vectors and NESTED or RING pixel numbers are mutually inverse and agree with each other.",
 ["inputs"], "all resolutions, pixels and directions", "Tests sample pixels at a few resolutions.",
 ["HealpixC/chealpix.c"], [("ang2pix/pix2ang families", "HealpixC/chealpix.c")], ["function results"])
prop("N02", "Propagated positions follow the SGP4/SDP4 reference models",
 "For every valid element set and time the propagated position and velocity agree with the published SGP4/SDP4 reference results within their stated accuracy.",
 ["inputs"], "all element sets and times", "No test propagates an orbit.",
 ["src/sgp4.c", "src/sdp4.c", "src/deep.c"], [("model equations", "src/*.c")], ["function results"])
prop("N03", "Sky geometry is right for every place and instant",
 "Sidereal time, horizontal coordinates, geodetic sub-satellite point, Sun position, separations and position angles are correct for every observer, instant and direction.",
 ["inputs"], "all observers, instants and directions", "No test covers them.",
 ["src/lmst_hr.c", "src/dechalat2alt.c", "src/lpsun_radec.c", "src/skysep_h.c", "src/observe.c"], [("formulae", "src/*.c")], ["function results"])
prop("N04", "Calendar and MJD conversions are mutually inverse",
 "For every date in range, converting a calendar date to MJD and back gives the same instant.",
 ["inputs"], "all dates", "No test covers them.",
 ["src/date2mjd_nf.c", "src/mjd2date.c"], [("conversion", "src/date2mjd_nf.c, src/mjd2date.c")], ["function results"])
prop("N05", "Region selection and visibility windows are geometrically right",
 "A satellite is reported for a region exactly if it lies within the radius at one of the two epochs, and a visibility window is exactly the sunlit part of its pass above the requested zenith distance.",
 ["inputs"], "all requests and satellites", "No test covers them.",
 [SM, SV], [("separation test", SM), ("time loop", SV)], ["reports"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
