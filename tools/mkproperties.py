"""Writes properties.jsonl and MANIFEST.json (run by hand after changing a property)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aspsim/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Microphone signals are the exact sum of the sources convolved with their paths",
     "Every sample of every microphone signal equals the sum over all sources of the source's samples so far convolved with the "
     "impulse response between that source and microphone: the one the user set, or the one its path type prescribes (nothing, "
     "one-to-one, image-source response of the configured room, sound speed, length and delay, or random), high-pass filtered if "
     "configured.  It does not depend on the sizes of the buffer, the chunks or the blocks, on the number and order of the "
     "arrays, or on how the arrays and paths were handed to the setup.",
     ["inputs", "configurations", "histories", "schedules"],
     "every set of static arrays and paths, every buffer, chunk and block size with sim_buffer >= max(4, 2*block size), "
     "sim_chunk_size >= block size and extra_delay >= 1, every number of samples, with other simulations in the same process",
     "The tests compare a handful of setups with one buffer and chunk size; seams between chunks, unequal sizes and several "
     "arrays of several channels are hardly sampled.",
     ["simulator.py", "array.py", "room/roomimpulseresponse.py"],
     [("Propagator: filters with state, sample by sample", "simulator.py"), ("Signals._reset_signals keeps sim_buffer samples", "simulator.py"),
      ("ArrayCollection.setup_ir, PathGenerator.create_path", "array.py, room/roomimpulseresponse.py")],
     ["signals recorded with RecordSignal", "Simulator.arrays.paths"],
     [("signals and write index", "rolling buffers of all signals", "simulator.py Signals")])
prop("C02", "The contributions of the sources add up to the microphone signals",
     "With contributions saved, every microphone's signal equals at every sample, also before time 0, the sum of its "
     "contributions, and each contribution is that source's samples convolved with the path between the two alone.  "
     "Saving contributions changes no other signal.",
     ["inputs", "configurations", "histories", "schedules"],
     "every set of static or moving arrays, with or without a processor, every buffer, chunk and block size",
     "No test looks at more than one setup with contributions saved, none with moving arrays or controlled sources.",
     ["simulator.py"], [("Propagator.prepare/propagate write both signals", "simulator.py")],
     ["contribution signals '<source>~<mic>' recorded with RecordSignal"])
prop("C03", "Processors see all of the past and none of the future, and are heard on time",
     "A processor with block size B is called once for every B samples, after exactly those samples exist and before any later "
     "one does; it sees the latest sim_buffer - B samples of every signal unchanged, and zeros in the microphones' future.  What it writes to a "
     "controlled source or a signal of its own is what that signal is during the next B samples, exactly once, and reaches "
     "the microphones through the paths from its first sample on.",
     ["inputs", "configurations", "histories", "schedules"],
     "every processor, block, buffer and chunk size (sim_buffer >= 2*block size, sim_chunk_size >= block size), every length",
     "Tests use a few block sizes that divide the chunk size and never compare what was shown at each call.",
     ["simulator.py", "processor.py"], [("run_simulation's call schedule", "simulator.py"), ("last_block_on_buffer and _reset_signals", "simulator.py"),
                                        ("signals made in the processor's constructor are copied over", "simulator.py")],
     ["arguments and buffers the processor sees at each call", "recorded signals"])
prop("C04", "What happens before time 0 is as configured",
     "If sources start before time 0, the microphones hold at time 0 the response to sim_buffer samples of every free source; "
     "otherwise everything before the first sample is silence.  The recorded signals continue what was there without losing, "
     "repeating or skipping a sample of any source, and the two settings differ only by that shift of the source signals.",
     ["inputs", "configurations", "histories", "schedules"],
     "every set of arrays, paths, sources and processors; every buffer size",
     "The tests check the history for one source and one path.",
     ["simulator.py"], [("Propagator.prepare", "simulator.py")], ["signals at prepare and at the first calls of the processor"])
prop("C05", "Moving arrays are heard from where they are",
     "While an array moves, the path of each of its pairs is at every sample the image-source response (or the other configured type) for where the "
     "trajectory is at the latest update, updates being every array_update_freq samples from time 0; filters keep their "
     "history when paths change.  The array lists the times and positions of its updates.  Pairs of arrays that stand still are not affected.",
     ["inputs", "configurations", "histories", "schedules"],
     "every trajectory (own function, linear, circular, combinations), update interval, sound speed and delay; any number of "
     "moving sources and microphones; other simulations with other settings running in between",
     "Tests move one array on one line; update intervals, two moving arrays and their interplay with chunks are not sampled.",
     ["array.py", "simulator.py", "room/trajectory.py", "room/roomimpulseresponse.py"],
     [("ArrayCollection.update and update_path", "array.py"), ("Propagator.propagate updates the filters", "simulator.py")],
     ["recorded signals of all arrays"])
prop("C06", "A source is one stream, however it is drawn",
     "The samples of a source do not depend on how many are requested at a time: any sequence of requests yields the same "
     "stream as one request, which is the defined one where the source is defined by a formula (sine, sums of sines, pulse train, sequence, counter, "
     "maximum length and Gold sequences, and noise from the given generator).  A change of power is heard from the next sample on.  Copies continue the stream independently, and sources with equal seeds are equal.",
     ["inputs", "histories", "schedules"],
     "every kind of source with its parameters, every partition into requests of at least one sample, draws of several sources "
     "interleaved in any order, copies and changes of power at any time",
     "Tests draw each source once or in equal blocks.",
     ["signal/sources.py"], [("phase, position and filter state kept between requests", "signal/sources.py")],
     ["return values of get_samples", "signals of free sources in simulations"],
     [("phase, index, filter state", "where the stream is", "signal/sources.py")])
prop("C07", "Simulations do not influence each other",
     "A simulation yields the same signals whether it runs alone, after others, or interleaved with others in the same "
     "process, whether or not others are aborted by exceptions, and whatever becomes of the setup (config, arrays, paths) after its creation.  "
     "A setup can create any number of simulators, with changes to the config in between, each as if it were the first.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "any number of setups and simulators with different settings, created and run in any order and interleaving (switches at "
     "calls into user code), aborted at any such call",
     "Tests run one simulation after another and compare none with a run alone.",
     ["simulator.py", "array.py", "room/roomimpulseresponse.py"],
     [("deepcopy of arrays and config in create_simulator", "simulator.py"), ("_set_pra_constants before every response", "room/roomimpulseresponse.py")],
     ["recorded signals", "paths of the simulators"],
     [("pyroomacoustics constants", "process-global sound speed and delay length", "room/roomimpulseresponse.py")])
prop("C08", "Recordings hold exactly the chosen samples",
     "A recording of any signal holds, for every time in its intervals, indices or every n-th sample, exactly the value that signal had then, in the "
     "chosen channels, and nothing at any other time.  This holds at whatever place the chunks, blocks and intervals meet, and "
     "during the simulation for everything up to the current block.",
     ["inputs", "configurations", "histories", "schedules"],
     "every signal, selection of times and channels; every buffer, chunk and block size",
     "Tests record everything, or intervals with a few fixed sizes.",
     ["diagnostics/core.py", "diagnostics/diagnostics.py"], [("Logger.save_data, IntervalCounter", "diagnostics/core.py"), ("RecordSignal.save", "diagnostics/diagnostics.py")],
     ["get_output of recordings"], [("intervals still to be saved", "what is due next", "diagnostics/core.py IntervalCounter")])
prop("C09", "Exports are made on schedule and hold what was recorded before them",
     "After a simulation its folder holds, for every diagnostic, format and scheduled index within the simulation, exactly one export "
     "named after the diagnostic and the index, and no other.  Each holds exactly the values (preprocessed as asked) that were "
     "recorded for times before that index, with their times, in its format.",
     ["inputs", "configurations", "histories", "schedules"],
     "every set of diagnostics, names, save and export schedules, formats and preprocessing; every buffer, chunk and block size; several "
     "processes exporting below the same folder",
     "Tests look at the files of one or two diagnostics with one schedule.",
     ["diagnostics/core.py", "diagnostics/plot.py", "diagnostics/preprocessing.py", "diagnostics/diagnosticscollection.py", "fileutilities.py"],
     [("Logger.dispatch, IndexCounter", "diagnostics/core.py"), ("export functions", "diagnostics/plot.py")], ["files in the folder"])
prop("C10", "State recordings are true snapshots",
     "A recorded state, filter or matrix of the processor holds for each of its save times the value it had after the last call "
     "made by then, unaffected by later changes in place, with that time.  None is missed, repeated or taken early.",
     ["inputs", "configurations", "histories", "schedules"],
     "every property path into the processor (attributes, items, nested), save frequency and index list, block, buffer and chunk size",
     "Tests save a state a few times with block sizes that divide the save frequency.",
     ["diagnostics/core.py", "diagnostics/diagnostics.py"], [("StateDiagnostic, InstantDiagnostic, attritemgetter", "diagnostics/core.py")],
     ["get_output of recordings"])
prop("C11", "Computed diagnostics equal the computation on the whole signals",
     "Powers, smoothed power ratios, sound field powers, spectra, summaries over ranges of samples, and powers, comparisons, "
     "summaries and eigenvalues of states equal what the same formula gives for the whole signals or states of the simulation.  They do not "
     "depend on how the simulation was cut into chunks and blocks.",
     ["inputs", "configurations", "histories", "schedules"],
     "every signal, state, range and smoothing length; every buffer, chunk and block size",
     "Tests check one or two diagnostics with a single chunk size.",
     ["diagnostics/diagnostics.py", "diagnostics/core.py", "diagnostics/preprocessing.py"], [("save methods which work on pieces", "diagnostics/diagnostics.py")],
     ["get_output of diagnostics"])
prop("C12", "Reusing saved sessions changes nothing but the time it takes",
     "With automatic saving and loading on, a simulation behaves exactly as if it were off: the paths used are those its own setup "
     "asks for, whatever sessions (of this or other programs) are in the session folder.  If a session was saved from a setup with the same arrays, "
     "paths and audio settings, its paths are reused and no further session is saved.",
     ["histories", "programs", "configurations", "inputs"],
     "any sequence of programs with differing rooms, delays, sample rates, lengths, filters, arrays, positions, directivities, path types and user-set "
     "paths sharing one session folder, listed by the file system in any order",
     "The tests save one session and load it again.",
     ["saveloadsession.py", "configutil.py", "array.py"],
     [("search_for_matching_session: equal_audio and prototype_equals", "saveloadsession.py"), ("setup_ir_from_session takes only responses", "array.py")],
     ["recorded signals", "session folders"])
prop("C13", "The session folder survives crashes, disk faults and concurrent use",
     "Whatever happened to programs using the session folder (killed at any disk operation, disk errors, full or torn writes, others "
     "saving at the same time), a later program neither fails because of what they left nor uses paths other than those it asks for.  "
     "A program that completed saved a complete session which later programs reuse, unless its disk reported errors.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "up to four programs at once and in sequence; a crash or disk fault at any operation; any interleaving of disk operations",
     "No test kills a program, injects an error or runs two at once.",
     ["saveloadsession.py", "fileutilities.py", "array.py", "configutil.py"],
     [("unreadable folders are skipped", "saveloadsession.py"), ("create_unique_folder retries", "fileutilities.py")],
     ["session folders", "recorded signals of later programs"], [("session folders", "shared between programs", "saveloadsession.py")])
prop("C14", "A session loaded from its folder gives the same simulation",
     "A setup loaded from the folder of a saved session has the saved config, arrays, positions, path types and paths, and simulators created from it give "
     "the same signals as the saved one, with free sources starting their streams where they were when the session was saved.  It can be changed (total length, sources, diagnostics) like any setup, writes its own folder, and leaves the saved session untouched.  The session and the folder made when it was loaded describe its config and paths.",
     ["histories", "programs", "configurations", "schedules"],
     "every session saved by this version, loaded by another process any number of times, also while other programs use the folder",
     "Tests load one session and compare a few fields.",
     ["simulator.py", "saveloadsession.py", "array.py", "configutil.py"],
     [("load_from_path", "saveloadsession.py"), ("save_to_file of arrays and config", "array.py, configutil.py")],
     ["paths, config and signals of the loaded simulation", "session folder"])
prop("C15", "Every simulation gets an output folder of its own",
     "Each created simulator that writes output gets a new folder below the given one that no other simulation, before or at the same time, "
     "in this or another process, writes to; existing folders and files are not changed.  This holds whatever the clock shows.",
     ["schedules", "histories", "fault_sequences", "crash_points"],
     "any number of processes creating simulators below the same folder, every interleaving of their disk operations, clocks "
     "that stand still, jump back or forth, left-over folders, crashes at any operation",
     "Tests create folders one after another.",
     ["fileutilities.py", "simulator.py"], [("create_unique_folder", "fileutilities.py"), ("_create_fig_folder", "simulator.py")], ["folders and files below the base folder"])
prop("C16", "Output describes the simulation, and failure to write it is reported",
     "When creating and running a simulation returns normally, its folder holds readable files describing exactly the config, arrays, positions, "
     "paths and processor used, and all scheduled exports.  If the disk refuses or loses a write with an error, the program sees an exception, and no other "
     "simulation's output is affected.",
     ["fault_sequences", "crash_points", "schedules", "configurations"],
     "every setup, processor metadata and output format; a disk error, full disk or short read or write at any operation; other simulations running",
     "No test injects an error, and metadata files are only checked to exist.",
     ["array.py", "configutil.py", "saveloadsession.py", "simulator.py", "diagnostics/plot.py", "diagnostics/core.py"],
     [("save_metadata, save_to_file, write_processor_metadata", "array.py, configutil.py, saveloadsession.py")],
     ["files in the folder", "exceptions of create_simulator and run_simulation"])
prop("C17", "Keeping only the last export never loses the last one",
     "With keep-only-last set, once the first export of a diagnostic was completed there is at every instant, also after the program was killed or met a disk error, "
     "at least one complete export of it, and it is at most one export old.  Only earlier npz exports of the same diagnostic are removed: never another diagnostic's, another format's or a later one.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "every export schedule and every set of diagnostic names (including names that are prefixes of each other or end in numbers), a crash or disk fault at any operation",
     "Tests check the final files of a run without faults, for few names.",
     ["diagnostics/plot.py", "fileutilities.py"], [("savenpz deletes after saving", "diagnostics/plot.py"), ("find_all_earlier_files", "fileutilities.py")],
     ["files in the folder after every disk operation"])
prop("C18", "Phase and event counters keep exact time",
     "A phase counter is at every index in the phase whose range of samples contains it (skipping empty phases, None after the last), and marks exactly the first "
     "sample of each phase.  After every step an event counter lists exactly the events whose period and offset match the index, and counters influence neither each other nor the definitions they were made from.",
     ["inputs", "histories", "schedules"],
     "every list of phase lengths (zero, infinite or negative for infinite) and events, any number of steps, counters of several processors advanced in any interleaving",
     "Tests step through one or two definitions.",
     ["counter.py"], [("PhaseCounter.progress, EventCounter.progress", "counter.py")], ["phase, first_sample and event after each step"],
     [("idx and remaining phases", "where the counter is", "counter.py")])
prop("C19", "Regions: geometry of points and containment",
     "Points sampled from a region lie in it, equally spaced points cover it with the stated spacing, and containment of a combined region is the union of its parts.",
     ["inputs"], "every region shape and parameter", "Tests use a few shapes.",
     ["room/region.py"], [("sample_points, equally_spaced_points, is_in_region", "room/region.py")])
prop("C20", "Frequency responses of the paths match their impulse responses",
     "The frequency-domain paths of a collection are the discrete Fourier transforms of its impulse responses, with the frequencies stated.",
     ["inputs"], "every collection and even transform length", "Tests check shapes and one example.",
     ["array.py"], [("get_freq_paths", "array.py")])
prop("C21", "Image-source responses are physically right",
     "An image-source response has its first peak at the distance divided by the sound speed, is reciprocal, and decays with the configured reverberation time; directional microphones are rejected.",
     ["inputs"], "every room and pair of positions", "Tests check a few positions.",
     ["room/roomimpulseresponse.py"], [("ir_room_image_source_3d", "room/roomimpulseresponse.py")])
prop("C22", "Generated microphone layouts have the stated geometry",
     "Generators of positions return the stated number of points with the stated spacing, radius and extent.",
     ["inputs"], "every generator and parameter", "Tests check few parameters.",
     ["room/generatepoints.py"], [("point generators", "room/generatepoints.py")])
prop("C23", "Audio files are played as they are, or loading them fails loudly",
     "Loading an audio file gives the samples of all its channels, or of the first num_channels, as they are at its own samplerate, or resampled "
     "(polyphase, per channel) if a lower one is asked for.  A Sequence source plays them scaled and repeated, however it is drawn.  Missing, damaged or unreadable "
     "files raise; no file is changed.  Audio exported by one simulation can be loaded by another program.",
     ["inputs", "histories", "programs", "fault_sequences"],
     "every file format of the sound library, number of channels, length and pair of samplerates; several programs reading the same files; disk errors and "
     "short reads at any operation",
     "No test loads a file.",
     ["signal/sources.py", "diagnostics/plot.py"], [("load_audio_file", "signal/sources.py"), ("Sequence.get_samples", "signal/sources.py"), ("create_audio_files", "diagnostics/plot.py")],
     ["return value of load_audio_file", "recorded signals of simulations playing it"])

NA = {"C19": "A pure function of its arguments: no schedule, clock, I/O, fault or multi-step history enters, so a simulator has nothing to decide.",
      "C20": "A pure function of the collection, without state, time or I/O.",
      "C21": "A pure function of room and positions, computed by pyroomacoustics; what the simulation does with the responses is C01, C05 and C07.",
      "C22": "Pure functions of their arguments."}

TECH = {}
for i in range(1, 12):
    TECH[f"C{i:02}"] = "deterministic simulation: seeded schedules over interleaved simulations, checked against an executable reference model"
for i in (9, 12, 14):
    TECH[f"C{i:02}"] = "deterministic simulation of several processes on a simulated disk, checked against an executable reference model"
for i in (13, 15, 16, 17, 23):
    TECH[f"C{i:02}"] = "deterministic simulation with fault injection: processes on a simulated disk and clock, seeded schedules, crashes and disk faults"
TECH["C18"] = "deterministic simulation: seeded schedules over interleaved counters, checked against a closed-form model after every step"
NOTE = ("Seeded search over generated programs, schedules and faults; evidence, not proof.  The real aspsim code runs; user code, "
        "disk, clock and entropy are the simulator's.  Reference models and bounds are described in DESIGN.md.")


def main():
    import sys
    sys.path.insert(0, V)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
            level = "fault_enumeration" if False else "exploration"
            checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": level, "level_note": NOTE})
        else:
            na.append({"property": i, "reason": "The check is being built."})
    man = {"version": 1, "setup_cmd": "./check.sh --help > /dev/null", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams are Python's own (open, os.*, time, datetime, numpy's entropy) and the user code "
                    "aspsim calls.  See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
