"""Single source of truth: the properties, and how each check is run.

`python mc/registry.py` rewrites properties.jsonl and MANIFEST.json.
"""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parents[1]
C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"

P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, state=None, observe=None,
         level="model_checking", technique="", note="", claimed=True, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mechanism=mechanism, state=state, observe=observe, level=level,
                  technique=technique, note=note, claimed=claimed, na=na))


def m(name, where):
    return {"name": name, "where": where}


# --------------------------------------------------------------------------- recordings
prop("R01", "Every appended sample is stored, in order, across any write sessions",
     "For every sequence of appends (whole time arrays or only a start time, raw or physical units, unequal lengths cut to the shortest) spread over any number of write sessions, the file holds exactly the in-order concatenation of the submitted time, voltage and current samples, in three equally long series. "
     "A start time alone expands to instants spaced by the recording's own sample interval (10 us for a fresh or nominal-rate file), also when appending to a reopened file. "
     "Ending a session drops only the trailing samples that do not fill a whole 10 000-sample buffer, and only if the recording runs at the nominal 100 kHz; recordings at another rate keep everything.",
     ["histories", "inputs"],
     "all operation histories (append variants x lengths around the buffer boundary, close, reopen) up to a depth, per time base",
     "Tests append a few whole arrays in one session; offsets, partial buffers, re-opened sessions and mixed append forms interact through state kept in the file, which only enumerated histories reach.",
     [C + "writer.py", C + "reader.py"],
     [m("append_iv_data_raw / append_iv_data_si", C + "writer.py"), m("_align on close", C + "writer.py"),
      m("_refresh_file_stats derives the sample interval", C + "reader.py")],
     technique="explicit-state search over write histories, real Writer vs list model",
     note="Exhaustive for the stated operation alphabet and depth; buffer size is shrunk on the instance so that boundaries are reached, default-size histories are replayed too.")

prop("R02", "No existing file is changed unless overwrite or modify was asked for",
     "Opening a writer on a path that exists, without asking to modify or overwrite, leaves that file byte-identical and stores to a fresh, previously unused name; the exporters (metadata, CSV, log, waveform, cut/downsample, extraction commands) likewise never touch an output file that already exists, and of two writers opening the same new path none truncates the other's file. "
     "An open that is rejected (unknown mode, datatype not allowed for the mode, missing window size, not a file) raises an error and leaves every previously existing file byte-identical. "
     "Opening for modification keeps all recorded samples and all settings that were not given.",
     ["histories", "configurations"],
     "all combinations of pre-existing files, open flags and argument combinations, and all exporter calls on directories with any subset of their outputs present",
     "Tests check one overwrite and one unique-name case; the guarantee is over every combination of existing names, flags and (rejected) arguments.",
     [C + "writer.py", C + "reader.py", D + "reader.py", D + "cli.py"],
     [m("unique_path", C + "writer.py"), m("Writer.__init__ argument checks", C + "writer.py"),
      m("exists-guards in exporters", D + "reader.py")],
     technique="exhaustive enumeration of directory states x open requests on the real Writer/Reader, byte comparison",
     note="All combinations within the menu; single-threaded, no crash points.")

prop("R03", "Buffered reading returns exactly the requested slices",
     "Reading a recording buffer-wise yields, for every start index, end index and buffer length, exactly the full buffers in that index range, in order and without gaps or overlap, each being the matching slice of the stored time, voltage and current series. "
     "Raw mode returns stored integers, otherwise every value is stored-value times gain plus offset of that series' own stored calibration; omitting timestamps changes nothing else. "
     "An end index beyond the data reads up to the last full buffer, an empty range yields nothing.",
     ["inputs"],
     "all (start, end, buffer length, raw, omit-time) combinations for all small recordings incl. partial last buffers",
     "Tests read default ranges of one file; slice arithmetic has to hold for all ranges.",
     [C + "reader.py"], [m("read_buffers", C + "reader.py")],
     technique="exhaustive enumeration of read requests vs list slicing",
     note="Exhaustive within bounds on file length, range and buffer length.")

prop("R04", "Recording settings survive storage and later sessions",
     "Mode, datatype, window size, calibration, host name, configuration and free attributes stored with a recording are returned unchanged when the file is read, and the metadata dump reports them. "
     "A later modify session changes exactly the settings it is given and preserves all others; settings never given have the documented defaults. "
     "The harvesting voltage step reported for a recording is the configured one (in volts) or else the smallest nonzero change of voltage between neighbouring samples among the first 2000 recorded ones, in volts.",
     ["histories", "configurations"],
     "all histories of up to 3 sessions over menus of settings, incl. omitted ones",
     "Tests store one configuration per session; preservation over histories and combinations is not sampled (the configuration getter never returned anything and no test noticed).",
     [C + "writer.py", C + "reader.py"],
     [m("attribute handling in Writer.__init__", C + "writer.py"), m("get_* accessors, get_voltage_step", C + "reader.py"),
      m("store_config / store_hostname", C + "writer.py")],
     technique="explicit-state search over session histories vs dict model",
     note="Exhaustive over the settings menus and session depth.")

prop("R05", "A recording is judged valid exactly when its structure is usable",
     "A recording is reported valid if and only if it has a data group, a supported mode, a window size, a datatype permitted for that mode, three series (time, current, voltage) each with gain and offset, and, for iv-curves, a window size of at least one. "
     "Soft defects (unaligned or unequal lengths, compression, missing host name, logged errors) never make it invalid, and judging never raises an error for structurally incomplete files or changes the file.",
     ["fault_sequences", "configurations"],
     "all combinations of up to three structural faults applied to each kind of recording",
     "Tests remove single attributes one after the other; the verdict is over all combinations.",
     [C + "reader.py"], [m("is_valid", C + "reader.py")],
     level="fault_enumeration",
     technique="exhaustive fault enumeration (all fault combinations up to size 3) vs reference predicate",
     note="Exhaustive for the fault menu.")

prop("R06", "Energy and statistics equal the sample-wise definition for any length",
     "The reported energy is the sum over all samples of voltage times current times the sample interval, and the reported mean, minimum, maximum and standard deviation of each series are those of the whole calibrated series, independent of how long the recording is or how it is processed in blocks. "
     "The reported sample rate, sample interval, runtime and buffer count follow from the stored time series, and sample rate (rounded to whole hertz; the nominal rate for less than two samples) and interval are consistent with each other.",
     ["inputs", "configurations"],
     "all small recordings over a value alphabet x all processing block sizes x sample intervals",
     "Real files below 4 million samples are one block, so tests never cross a block boundary.",
     [C + "reader.py"], [m("energy", C + "reader.py"), m("_dset_statistics", C + "reader.py"), m("_refresh_file_stats", C + "reader.py")],
     technique="exhaustive enumeration of recordings x block sizes vs direct definition",
     note="Block size is set through the public max_elements attribute.")

prop("R07", "Time-jump check accepts exactly gap-free nominal recordings",
     "The time check of a recording passes if and only if every pair of consecutive buffer start times is one nominal buffer duration (0.1 s) apart, for every recording with at least two buffers, irrespective of where in the file a jump occurs (deviations are seen with a resolution of 5 ms). "
     "It gives an answer, and never fails with an error, for every recording length including empty and single-buffer ones, which pass.",
     ["inputs", "fault_sequences"],
     "all placements of up to two time jumps (forward, backward, repeated) in recordings of every length, for all processing block sizes",
     "Tests only check one clean file; the position of the jump relative to processing blocks matters.",
     [C + "reader.py"], [m("check_timediffs / _data_timediffs", C + "reader.py")],
     level="fault_enumeration",
     technique="exhaustive placement of time-jump faults vs reference predicate",
     note="Jumps of at least 1 us per buffer-sample resolution (rounding to 1 us is by design).")

prop("R08", "Cutting and downsampling cover exactly the requested range, uniformly",
     "Downsampling a range of samples by a factor keeps every factor-th element of that range (timestamps decimated, values low-pass filtered first), giving floor(range/factor) outputs (factors are rounded down), and the result does not depend on how the data is processed in blocks or where it is stored. "
     "Cutting to a new file covers exactly the requested time range clamped to the recording, keeps mode, datatype, calibration, host name and configuration, records the factor, keeps the three series equally long (at the nominal rate aligned to whole buffers, as for any recording), and leaves source and existing outputs untouched. "
     "Impossible requests (end before start, factor below one, fewer than 1000 resulting samples) are rejected without creating a file.",
     ["inputs", "configurations"],
     "all (range, factor, block size, destination kind) combinations for small series; all cut requests over a menu of marks and factors",
     "Block boundaries lie at 4 million samples, which no test file reaches.",
     [D + "reader.py"], [m("downsample", D + "reader.py"), m("cut_and_downsample_to_file", D + "reader.py")],
     technique="exhaustive enumeration of ranges/factors/blocks vs single-pass reference",
     note="The filter itself (scipy) is trusted.")

prop("R09", "CSV and log exports contain every stored entry once, correctly converted",
     "Exporting a group to CSV writes one header and exactly one row per stored entry, in order, with each value converted by its own series' gain and offset (unconverted where none is stored or raw is asked for), separated by the chosen separator, and returns the number of rows. "
     "Exporting a log writes one line per entry with its time and all its columns, whatever other members the group has. "
     "Empty groups and existing outputs are skipped with count zero, and logged messages are counted by severity threshold exactly.",
     ["inputs", "configurations"],
     "all group shapes from a menu of columns, dtypes, calibration attributes, lengths, separators",
     "Tests run the exporters on one generated file and do not look at the content.",
     [D + "reader.py", C + "reader.py"], [m("save_csv / save_log / warn_logs", D + "reader.py"), m("count_errors_in_log", C + "reader.py")],
     technique="exhaustive enumeration of group shapes, output parsed back and compared",
     note="Timestamps compared to microsecond resolution.")

prop("R10", "Batch commands treat every file independently and report failures",
     "Running a command on several files gives for each file the same outputs as running it on that file alone, for every order of the files. "
     "Validation ends with a failure status if and only if at least one of the given files is not a valid recording (including unreadable ones) and still inspects the remaining files. "
     "Directory inputs cover exactly the recordings inside, and source recordings are never modified.",
     ["inputs", "histories", "configurations"],
     "all ordered selections of up to three files from a menu of good, faulty and unreadable files, for each command",
     "Tests run each command on one clean file.",
     [D + "cli.py"], [m("validate / extract / downsample / extract_uart / extract_gpio commands", D + "cli.py"), m("path_to_flist", D + "cli.py")],
     technique="exhaustive enumeration of file orders vs single-file runs",
     note="Plots are excluded from content comparison (matplotlib).")

prop("D01", "UART decoding recovers exactly the transmitted bytes",
     "For every byte sequence sent as 8N1 frames, or frames of any other configured length up to 16 bit (with any pauses of whole bit times between frames, normal or inverted line level), decoding the recorded edge list yields exactly these bytes as characters, in order, each with the time of its start bit. "
     "Splitting into lines cuts after each \\n, \\r or \\r\\n, and concatenating all lines gives back the decoded text. "
     "Decoding does not modify the caller's data and is repeatable.",
     ["inputs"],
     "all byte strings up to a length over the full byte range / a boundary alphabet, all inter-frame pauses from a menu, both polarities",
     "Tests decode two captured files; frame-boundary bit patterns (leading/trailing ones, back-to-back frames) need every byte.",
     [C + "decoder_waveform/uart.py", C + "reader.py"], [m("Uart.get_symbols / get_lines / get_text", C + "decoder_waveform/uart.py")],
     technique="exhaustive enumeration of byte sequences x pauses through a reference transmitter",
     note="Ideal edges; jitter is outside.")

prop("D02", "GPIO waveforms are lossless compressions of the recorded pin states",
     "For every recorded sequence of pin states, the waveform of a named pin lists exactly the initial state and every change with its time, so that replaying it gives back the pin's state at every recorded instant; other pins never influence it. "
     "Pins are found by the stored description (exact name before partial matches), recordings without pin data give no waveform, and exported waveform files contain exactly these entries with the chosen separator.",
     ["inputs"],
     "all state sequences up to a length over 3 pins, all lengths including zero",
     "Tests use a few hand-written vectors.",
     [C + "reader.py"], [m("gpio_to_waveforms / get_filter_for_redundant_states / waveform_to_csv / get_gpio_pin_num", C + "reader.py")],
     technique="exhaustive enumeration of pin histories vs replay",
     note="Bit positions cover the width of the stored datatype.")

prop("K01", "Raw and physical values convert consistently over the whole converter range",
     "For every raw code of every converter channel, converting to the physical value and back returns the same code (truncation aside by at most one), conversion is strictly increasing, and limited conversion clips to the code range while unlimited does not. "
     "For every calibration pair, physical = raw times gain plus offset; the inverse rounds to the nearest non-negative integer code; applying either to a whole array gives the same as applying it element by element, without altering the input. "
     "A calibration derived from a linear function reproduces that function, so default device calibrations agree with the hardware constants.",
     ["inputs"],
     "all 2^18 ADC and 2^16 DAC codes; all (gain, offset, value) from boundary menus",
     "Tests check single values.",
     [C + "calibration_hw_def.py", C + "data_models/base/calibration.py"],
     [m("adc_/dac_ conversion functions", C + "calibration_hw_def.py"), m("CalibrationPair", C + "data_models/base/calibration.py")],
     technique="exhaustive enumeration of all codes and of calibration menus vs rational reference",
     note="Complete over all codes; gains/offsets from a menu.")

prop("K02", "Device calibration survives EEPROM storage and is exported in device units",
     "Every cape calibration serialised to its byte string and read back is identical in every gain and offset, each at its own channel (16 big-endian doubles, harvester before emulator), and byte strings of the wrong length or with non-positive gains are rejected. "
     "The export for the real-time unit is each channel's gain and offset scaled to the documented fixed-point format, and an export that does not fit the 32-bit container is rejected instead of wrapping. "
     "The calibration attached to a recording or emulation is that of the selected channel: harvester sense channels for harvesting, port A or B channels for emulation.",
     ["inputs", "configurations"],
     "all assignments of distinct values to the 16 calibration entries via one-at-a-time and pairwise menus, boundary values of the containers",
     "Tests round-trip default values, where swapped channels of equal calibration are invisible.",
     [C + "data_models/base/calibration.py"], [m("to_bytestr/from_bytestr, export_for_sysfs, CalibrationSeries.from_cal", C + "data_models/base/calibration.py")],
     technique="exhaustive enumeration of channel/boundary assignments vs independent reference",
     note="Pairwise complete over entries and value menu.")

prop("K03", "Calibration measurements yield the line they were taken from, or are rejected",
     "Measurement points lying on a line with positive slope produce exactly that gain and offset for exactly the channel they belong to; channels or halves not measured keep the defaults, and device identity is carried over. "
     "Measurements that do not correlate (coefficient of determination below 0.999), are degenerate, constant or falling are rejected, so a calibration is never built from them.",
     ["inputs"],
     "all point sets of 2-4 points over a small grid, for every channel",
     "Tests use one example file.",
     [C + "data_models/base/cal_measurement.py"], [m("meas_to_cal / to_cal", C + "data_models/base/cal_measurement.py")],
     technique="exhaustive enumeration of point grids vs rational least squares",
     note="Grid of points; tolerance on float fit.")

# --------------------------------------------------------------------------- models
prop("M01", "Every model survives a YAML file round trip",
     "For every valid model instance (ids and names in their final form), storing it to a file (minimal or full) and loading it with the same model type gives an equal instance with an equal hash; loading with another model type is rejected. Secrets of user accounts are the exception, they are never written in plain text. "
     "Equal instances hash equally, instances differing in a field hash differently, and instances cannot be changed after creation nor accept unknown fields, NaN or infinity.",
     ["inputs", "configurations"],
     "every shipped definition and every model class over menus of field values, pairwise",
     "Tests round-trip a handful of objects with default values.",
     [C + "data_models/base/shepherd.py", C + "data_models/base/wrapper.py"], [m("to_file / from_file / get_hash", C + "data_models/base/shepherd.py")],
     technique="exhaustive enumeration of model instances x storage modes",
     note="Menus of values per field; every concrete model class and fixture.")

prop("M02", "Definitions resolve by name, id and inheritance deterministically",
     "Resolving a definition applies its own values over those of its ancestors, nearest first, wherever the chain starts and in whatever order definitions were inserted, and names are matched case-insensitively; ids may be given as number or text. Lists of names and ids are complete. "
     "Unknown parents, names or ids and inheritance circles of any length are rejected with a value error. "
     "Resolving never changes the stored definitions, so repeated lookups give the same answer.",
     ["configurations", "histories"],
     "all inheritance graphs over up to 4 definitions (every parent assignment) x insertion orders x entry points (name, id, inline)",
     "Tests resolve a few shipped definitions.",
     [C + "testbed_client/fixtures.py", C + "testbed_client/client_abc_fix.py"], [m("Fixture.inheritance", C + "testbed_client/fixtures.py")],
     technique="exhaustive enumeration of inheritance graphs vs reference resolver",
     note="Complete for up to 4 definitions with 3 fields.")

prop("M03", "All shipped definitions are loadable, unique and mutually consistent",
     "Every shipped definition can be instantiated by name and by id, both giving the same object; within a type, names and ids are unique, and every reference between definitions resolves (the abstract base harvester without an algorithm of its own is the only definition that can not be run). "
     "The content does not depend on the order in which definition files are read, and derived values of instances satisfy the model's own limits again when re-validated.",
     ["configurations"],
     "every shipped definition of every type, both lookup ways, all file orders pairwise",
     "Tests instantiate a selection; a duplicate id silently shadows one definition.",
     [C + "testbed_client/fixtures.py"], [m("fixture yaml files", C + "data_models"), m("Fixtures.insert_file", C + "testbed_client/fixtures.py")],
     technique="exhaustive enumeration of the shipped definition set",
     note="Complete for the shipped set.")

prop("M04", "Definition cache never changes or breaks what is loaded",
     "With the same library version, loading the definitions gives the same content whether the cache is absent, fresh, stale, written by a run that was interrupted at any point, or filled from another source; a damaged cache is never fatal. "
     "Explicitly named sources are always read from that source, and a reset always re-reads the files.",
     ["crash_points", "configurations"],
     "every truncation point of the cache write, each cache age, each source argument, on cache-writing and other hosts",
     "Tests never run with an interrupted cache write.",
     [C + "testbed_client/fixtures.py"], [m("Fixtures.__init__ cache handling", C + "testbed_client/fixtures.py")],
     level="fault_enumeration",
     technique="crash-point enumeration of the cache write, then recovery on the real loader",
     note="Write modelled as prefix-truncation at enumerated byte offsets.")

prop("E01", "An experiment is accepted exactly when it can run on the testbed",
     "An experiment is accepted if and only if every target configuration names existing targets once, no target or custom id is used twice over the whole experiment, every node id patched into firmware (custom, or else the testbed's) is unambiguous, no observer runs more than one target, there are at least as many custom ids as targets (or none at all), firmware fits each target's controllers, and its time and tracing settings are in range and mutually consistent. "
     "The configuration found for any target of an accepted experiment is the one that lists it.",
     ["configurations", "inputs"],
     "all experiments of up to 3 target configurations over a menu of id lists, custom ids, firmwares, plus boundary menus of times and tracing settings",
     "Tests build a dozen experiments.",
     [C + "data_models/experiment/experiment.py", C + "data_models/experiment/target_config.py", C + "data_models/experiment/observer_features.py"],
     [m("Experiment validators", C + "data_models/experiment/experiment.py"), m("TargetConfig validator", C + "data_models/experiment/target_config.py")],
     technique="exhaustive enumeration of configurations vs reference acceptance predicate",
     note="Exhaustive over the menus.")

prop("E02", "Generated tasks carry out exactly what the experiment says on each observer",
     "For every accepted experiment, the generated task set has exactly one entry per observer hosting a chosen target, and per target its firmware (patched with exactly its own node id, then programmed to the port it is wired to with its controller's settings), its energy source, virtual source and tracing settings, duration and start time, all as configured (gpio-actuation is refused, as it is not implemented). "
     "Outputs of all observers go to one common experiment directory, and task sets survive a file round trip.",
     ["configurations"],
     "all experiments over target subsets, ports and configuration menus",
     "Tests only check that tasks can be built from examples.",
     [C + "data_models/task/testbed_tasks.py", C + "data_models/task/observer_tasks.py", C + "data_models/task/emulation.py", C + "data_models/task/firmware_mod.py", C + "data_models/task/programming.py"],
     [m("from_xp constructors", C + "data_models/task")],
     technique="exhaustive enumeration of experiments vs reference task mapping",
     note="Exhaustive over target subsets of the shipped testbed up to size 3 and menus.")

prop("G01", "Actuation schedules contain exactly the requested events",
     "A periodic actuation event produces exactly the configured number of instants, starting at its delay and spaced exactly by its period. Events and tracing settings out of range, contradictory, or for pins the user can not control are rejected, all others accepted.",
     ["inputs"],
     "all (delay, period, count) over a boundary grid",
     "Floating-point ranges gain or lose one element only for particular value combinations.",
     [C + "data_models/experiment/observer_features.py"], [m("GpioEvent.get_events", C + "data_models/experiment/observer_features.py")],
     technique="exhaustive grid enumeration vs rational reference",
     note="Complete for the grid.")

prop("T01", "A testbed is accepted only if every node and wire is unambiguous",
     "A testbed definition is accepted if and only if no observer (id, name), cape, target, network address (in any notation) or ethernet port is used twice; for each target id in service the observer found is the one that carries it and its port is the one it is wired to, and targets out of service or unknown are not found. "
     "Faulty parts (observer with targets but without cape, pins without register, settings out of range) are rejected, and a target without explicit node id gets the lower 16 bit of its id.",
     ["configurations"],
     "all testbeds of up to 3 observers over menus of ids, capes, targets, addresses",
     "Tests only load the shipped testbed.",
     [C + "data_models/testbed/testbed.py", C + "data_models/testbed/observer.py"], [m("Testbed / Observer validators and lookups", C + "data_models/testbed")],
     technique="exhaustive enumeration of topologies vs reference predicate",
     note="Exhaustive over menus.")

prop("P01", "Harvester settings for the real-time unit are always realisable and faithful",
     "For every accepted virtual harvester and input datatype, the settings sent to the real-time unit are non-negative 32-bit integers in the documented units, with limits in order (minimum not above maximum, voltage start within limits), window, interval and duration matching step count and settling time (duration not above interval), and the code of the configured algorithm. "
     "Settings out of range or contradictory are rejected, as are combinations the hardware cannot do (algorithms that do not work for emulation or harvesting, iv-curve input without known window or step, isc/voc input).",
     ["configurations", "inputs"],
     "every shipped harvester and all boundary combinations of its parameters for each datatype and window",
     "Tests convert some shipped definitions without examining results.",
     [C + "data_models/content/virtual_harvester.py"], [m("HarvesterPRUConfig.from_vhrv", C + "data_models/content/virtual_harvester.py")],
     technique="exhaustive enumeration of parameter combinations vs reference conversion",
     note="Boundary menus, pairwise+ complete.")

prop("P02", "Virtual source settings for the real-time unit are faithful fixed-point values",
     "For every accepted virtual source, the settings sent to the real-time unit equal the documented fixed-point scaling of each parameter, fit their containers, keep the configured order of threshold pairs, and select the feature bits of exactly the enabled and possible stages. "
     "Efficiency tables keep every entry at its index and scale; with buck converter the output thresholds are never below the output voltage plus drop, and the voltage drop for charging the output capacitor follows from the energy balance. Sources with values out of range or a harvester that does not work for emulation are rejected.",
     ["configurations", "inputs"],
     "every shipped source and boundary combinations of its parameters",
     "Tests convert shipped definitions without examining results.",
     [C + "data_models/content/virtual_source.py"], [m("ConverterPRUConfig.from_vsrc and helpers", C + "data_models/content/virtual_source.py")],
     technique="exhaustive enumeration of parameter combinations vs reference conversion",
     note="Boundary menus.")

prop("F01", "Embedded firmware is extracted bit-identically or rejected",
     "Firmware embedded into a model and extracted again is bit-identical with the source file, its hash identifies the content independent of path and compression, and two different contents are never considered equal. "
     "Embedded data that is corrupted or truncated is rejected with a value error when its hash is known (or when it can not be decoded at all) and never yields a different firmware file. "
     "Building a firmware from a file recognises ELF and HEX for MSP430 and nRF52 by content and rejects everything else (other formats, non-executable ELFs, foreign architectures, unknown file suffixes) with a value error. "
     "For firmware that only links to a file the hash is compared with that file.",
     ["inputs", "fault_sequences"],
     "all small file contents over an alphabet, every single-byte corruption and truncation of an embedded firmware",
     "Tests embed two binaries and corrupt none.",
     [C + "data_models/content/firmware.py", C + "fw_tools/converter.py"], [m("Firmware.from_firmware / extract_firmware / compare_hash", C + "data_models/content/firmware.py")],
     level="fault_enumeration",
     technique="exhaustive corruption-point enumeration and content enumeration",
     note="Byte-flip and truncation at every offset.")

prop("F02", "Patching a node id changes only that id",
     "Patching a firmware with any 16-bit id makes the id read back as exactly that value, and changes no other byte of the file; patching again replaces it. Any symbol is read as the number its first bytes hold in the byte order of the file, for any length within its section. "
     "Without permission to overwrite, the source file stays unchanged and the copy gets its own name; files without that symbol or out-of-range ids are refused and stay unchanged.",
     ["inputs", "histories"],
     "all 65536 ids (thorough) / boundary ids (quick) on both controller types, all patch histories up to depth 3",
     "Tests patch three values.",
     [C + "fw_tools/patcher.py"], [m("modify_symbol_value / modify_uid / read_uid", C + "fw_tools/patcher.py")],
     technique="exhaustive enumeration of ids and patch histories on the real ELF files",
     note="Both shipped ELF binaries.")

# --------------------------------------------------------------------------- emulation
prop("V01", "The virtual converter never creates energy and stays inside its limits",
     "In every reachable state of the emulated converter, for any sequence of harvested inputs and target currents: the accepted power is never more than the input offers after drop, maximum voltage and maximum current, scaled by the input-efficiency table (voltage row, current octave), and is zero below the boost threshold and, without boost and feedback, below the storage voltage. "
     "The power taken out is at least what the target receives divided by the output-efficiency plus leakage (nothing during the startup delay). "
     "The storage voltage changes per sample by exactly the power balance over capacity and voltage and stays between 1 uV and its configured maximum, so delivered energy plus losses never exceed the energy taken in plus initially stored (up to the discretisation of a sample); without storage the input voltage is passed through. "
     "All quantities stay finite and non-negative. With feedback the harvester is asked for the storage voltage plus the drops of resistance and diode, and is taken to supply it.",
     ["histories", "configurations"],
     "all input histories up to a depth over boundary alphabets of voltage and current, for every shipped source",
     "Tests step each model once or with one random trace.",
     [C + "vsource/virtual_converter_model.py"], [m("VirtualConverterModel calc_* steps", C + "vsource/virtual_converter_model.py")],
     technique="explicit-state search over input histories of the real model, invariant per state",
     note="Bounded depth and alphabet.")

prop("V02", "Target supply and power-good switch exactly by their thresholds and intervals",
     "For every history of storage voltage, the target supply turns on when the voltage reaches the enable threshold and off when it falls below the disable threshold, and keeps its state in between; decisions are only taken at the first sample and then at the configured check interval, and turning on costs the storage exactly the configured voltage drop of the output capacitor. "
     "Power-good is switched off at or below its disable threshold and on at or above its enable threshold (then only while the supply is on), at the check interval or, if configured as immediate, at every sample. "
     "The output voltage is exactly zero while the supply is off (except during the startup delay) and otherwise the storage voltage minus drop, limited by the configured output voltage if there is a buck converter; gpio logging is skipped exactly below its voltage threshold.",
     ["histories", "configurations"],
     "all voltage histories up to a depth over an alphabet around every threshold, for sources with each combination of features",
     "Tests never cross thresholds in both directions.",
     [C + "vsource/virtual_converter_model.py"], [m("update_states_and_output", C + "vsource/virtual_converter_model.py")],
     technique="explicit-state search vs reference hysteresis automaton",
     note="Bounded depth; alphabet covers all threshold regions.")

prop("V03", "Harvesting emulation picks only operating points present in its input",
     "For every input stream of curves, each harvesting algorithm puts out operating points that were present in the recorded input (with linear extrapolation: on a line through recorded ones) and that are never negative. "
     "On settled curves constant voltage selects the recorded point nearest to its set point, open-circuit tracking the point nearest to the configured fraction of the measured open-circuit voltage (re-measured every interval for the configured duration), and the optimal tracker the maximum-power sample of the last windows within its voltage limits; perturb-and-observe moves its set point once per interval in the direction of rising power with doubling steps and stays within its limits. "
     "Input that is already harvested (no windows) is passed unchanged.",
     ["histories", "configurations"],
     "all input streams of up to 2-3 windows over small curves, for every algorithm",
     "Tests run one recorded curve through each algorithm without an oracle.",
     [C + "vsource/virtual_harvester_model.py"], [m("VirtualHarvesterModel.ivcurve_2_*", C + "vsource/virtual_harvester_model.py")],
     technique="exhaustive enumeration of input streams vs reference algorithms",
     note="Small windows (4-6 samples).")

prop("V04", "Offline simulation equals stepping the source sample by sample",
     "Stepping the virtual source equals harvester followed by converter with their shared feedback, for every history; it reports the intermediate or output voltage and accumulates input and output energy. "
     "Simulating a whole recording gives for every sample exactly what stepping the source or harvester with that sample gives, produces output recordings with the same timestamps and number of samples, leaves the input file unchanged, and reports the accumulated energy of the target; buffer size, output file and monitoring never change the result. "
     "Negative current readings are carried forward: emitted currents are non-negative and their sum follows the readings exactly once positive readings compensated the residue (as long as that is below its limit).",
     ["inputs", "histories", "configurations"],
     "all small input recordings over an alphabet, each harvester/source and target from a menu",
     "Tests run simulations only for absence of errors.",
     [C + "vsource/virtual_source_simulation.py", C + "vsource/virtual_harvester_simulation.py", C + "vsource/virtual_source_model.py"],
     [m("simulate_source / simulate_harvester", C + "vsource")],
     technique="exhaustive enumeration of recordings, differential against stepping",
     note="Buffer size shrunk to reach boundaries.")

prop("V05", "Emulated targets draw a defined current for every supply condition",
     "For every supply voltage from zero on and every power-good history, each target model returns a finite, non-negative current that follows its defining law (resistor, diode with series resistor, constant current, constant power - nothing without voltage) in the active state and its sleep law (or zero, if controlled) in the inactive one, and depends only on the present voltage and power-good. "
     "Impossible parameters (resistance, current, power, forward voltage) are rejected with a value error.",
     ["inputs", "histories"],
     "all (voltage, power-good) histories up to a depth over boundary values, for each target model",
     "Tests use one supply voltage.",
     [C + "vsource/target_model.py"], [m("step of each target", C + "vsource/target_model.py")],
     technique="explicit-state search over step histories vs defining law",
     note="Bounded depth.")

prop("I01", "Curve conversion is isochronous and picks the true operating point per curve",
     "Converting a recorded parametric energy trace (ivonne) to curves, operating points or isc/voc yields samples at exactly equal time steps, from the first record over the whole requested duration (in complete buffers of 100 ms, at most up to the last record), independent of the block size the conversion works with. "
     "At the instant of each record the output is that of this record's own parameters (in between it is interpolated smoothly, polynomial courses up to degree 3 are reproduced), the voltage never exceeds the limit, and an existing output is never changed. "
     "The maximum-power tracker returns the maximum-power point of each curve, the open-circuit tracker the point at the configured fraction of the open-circuit voltage (given or estimated from the curve); every point lies on its curve, darkness is handled, never a power above the curve's maximum.",
     ["inputs", "configurations"],
     "all small parameter traces and curves over an alphabet, all block sizes",
     "Tests convert one trace for a fixed duration.",
     [D + "ivonne.py", D + "mppt.py"], [m("iv conversions", D + "ivonne.py"), m("trackers", D + "mppt.py")],
     technique="exhaustive enumeration of traces, block sizes and curves vs definition",
     note="Small curves and short traces; interpolation judged at records and for polynomials.")

prop("N01", "Fleet inventory reports every observer and every inconsistency",
     "For every set of observer inventories, the comparison warns exactly when compared items differ between hosts (an item nobody or not everybody provides is no mismatch by itself), when the start of measurement lags more than 10 s behind the earliest, or when a host is up for more than 30 h; every warning names exactly the affected hosts (and all differing values), hosts with equal names all count, and it finishes without error for every content. "
     "Inventories, also collected ones, survive a file round trip, and the csv-export has one row per host with the values in the order of the header.",
     ["inputs", "configurations"],
     "all sets of up to 3 inventories over menus of item values including missing and nested ones",
     "Tests collect the inventory of one machine.",
     [C + "inventory/__init__.py"], [m("InventoryList", C + "inventory/__init__.py")],
     technique="exhaustive enumeration of inventory sets vs reference comparison",
     note="What the collectors read from the host itself is only checked to survive storage.")

prop("W01", "The online client identifies itself as told and never hides a failure",
     "A client for the online testbed talks only to the given server and identifies itself with exactly the given token (a text or the content of a file), or with the public one if none is given; a missing token file is an error before anything is sent. "
     "It is usable exactly if the server handed out a session and the user, any error status, malformed or incomplete answer or lost connection raises an error instead. "
     "Inserting any model sends it completely - the server can rebuild an equal model from that single request - and reports success exactly if the server accepted; the model itself stays unchanged. "
     "Completing user data never replaces a given owner or group.",
     ["fault_sequences", "histories", "inputs"],
     "all combinations of server answers for connecting, all sequences of insertions and answers up to a depth, all shipped entries",
     "Tests have no server.",
     [C + "testbed_client/client_web.py"], [m("WebClient", C + "testbed_client/client_web.py")],
     technique="exhaustive enumeration of answer sequences of a scripted server (environment model) against the real client",
     note="Loopback server; hanging servers are out of scope.")

prop("Z01", "Instants keep their meaning in every time zone and season",
     "The local zone of the library is the one in effect at the moment (also where daylight saving exists but is not in effect), so local time and date are those of the host. The start of a task or experiment denotes the same instant whether it is given as epoch number, naive local time or time with zone, as text or object; "
     "harvest and emulation tasks are accepted exactly if that instant is not in the past, and generated tasks start at the start of the experiment, with the preparation the configured time before. Models stored in one zone are the same instants (and the same hash) when read in any other. The age of cached files is decided by elapsed time alone. "
     "Exported logs, tables and decoded serial output show the local time of each entry (entries of the current season).",
     ["configurations", "inputs"],
     "all zone rules of a grid (offset x daylight saving x season x time near midnight) x instants x ways to write them; all pairs of zones for stored files",
     "Tests run in the one zone and season of the build host; errors of the local offset only show elsewhere or half a year later.",
     [C + "data_models/base/timezone.py", C + "data_models/task/emulation.py", C + "data_models/task/harvest.py", C + "data_models/task/observer_tasks.py", C + "testbed_client/fixtures.py", D + "reader.py", D + "cli.py"],
     [m("local_tz / local_now / local_iso_date", C + "data_models/base/timezone.py"), m("pre_correction of time_start", C + "data_models/task/emulation.py"), m("file_older_than", C + "testbed_client/fixtures.py"), m("save_log / save_csv", D + "reader.py")],
     technique="exhaustive enumeration of zone rules, seasons, instants and notations against the C library",
     note="The season is set by the rule of the zone, not by the clock; instants within an hour of a season change are left out.")

prop("X01", "Tasks are accepted exactly when an observer can carry them out",
     "A harvest or emulation task is rejected if and only if it starts in the past, has a negative duration, an unknown field or choice (port, compression), an auxiliary voltage that is neither 0 to 4.5 V nor 'buffer' or 'main', or asks for gpio actuation (not implemented). "
     "A programming task needs an intel-hex file (by suffix, any case), 1 V to 5 V, a data rate above 0 up to 1 MBaud and controller port 1 or 2; a firmware-modification task a 16 bit id and data of permitted size. Verbosity is 0 to 4 everywhere. Accepted values are kept as given, whatever was not given has its documented default. "
     "Tasks created from a firmware carry its data and type and, if given a directory, write to a file named after the firmware.",
     ["inputs", "configurations"],
     "all fields at all borders, alone and in pairs, for all task models",
     "Tests give a single valid task and a few invalid values.",
     [C + "data_models/task/emulation.py", C + "data_models/task/harvest.py", C + "data_models/task/programming.py", C + "data_models/task/firmware_mod.py"],
     [m("post_validation", C + "data_models/task/emulation.py"), m("post_validation", C + "data_models/task/harvest.py"), m("post_validation", C + "data_models/task/programming.py"), m("from_firmware", C + "data_models/task/firmware_mod.py")],
     technique="exhaustive enumeration of border values in pairs vs acceptance predicate", note="")

prop("R11", "Plots show the requested part of the recording on its true time axis",
     "Data prepared for a plot covers exactly the requested range (clipped to the recording): equally many times, voltages and currents, times rising evenly from the first to the last requested sample (relative to the start of the recording, or absolute), values those of the recording at these times (a constant stays this constant, a slow ramp follows the ramp), in physical units and with the name of the host; it is small for any length of recording, and ranges below five samples are skipped. "
     "The figure draws voltage, current in mA and power in mW (or power alone) of each given recording over its own time. Stored plots carry the range in their name, never replace an existing plot and leave the recording unchanged.",
     ["inputs", "configurations"],
     "all start and end menu points x length x rate x calibration x reduction; all figure options",
     "Tests only call the plot functions.",
     [D + "reader.py"], [m("generate_plot_data / assemble_plot", D + "reader.py")],
     technique="exhaustive enumeration of ranges and options vs direct reference", note="Pictures are inspected as figure objects, not as pixels.")

prop("R12", "An append that fails or is interrupted leaves no trace in the recording",
     "If an append raises – because it is interrupted at any moment, storage fails, or its data is unusable – the recording afterwards contains every sample of the completed appends unchanged and nothing else: no partial or zero-filled samples, all columns equally long. "
     "Leaving the session by this exception still closes the file properly; the session can as well be continued, the append retried, or the file be reopened, as if nothing had happened.",
     ["inputs", "histories", "crash points"],
     "every line of writer and dataset layer as point of interruption x appends before x form x reaction of the caller; menu of unusable data at each place",
     "Tests never interrupt an append.",
     [C + "writer.py"], [m("append_iv_data_raw", C + "writer.py"), m("append_iv_data_si", C + "writer.py"), m("__exit__", C + "writer.py")],
     level="fault_enumeration", technique="stateless fault injection at every point of the real append vs list model", note="")

prop("R13", "The metadata of a recording mirrors its content completely",
     "The metadata of a recording – as dictionary, printed, or exported as YAML – lists every group, dataset and attribute exactly once at its place: attributes with the stored value (numbers and arrays as they are, texts that are YAML as what they stand for, any other text unchanged), "
     "datasets with type, shape, chunks and compression, those of whole numbers with mean, minimum, maximum and deviation of all entries (in physical units exactly if gain and offset are known), the data with energy, duration, size and validity. "
     "The part for any node equals this node's part of the whole, the minimal form is the same without computed values, the exported file loads back to the same tree and never replaces an existing file, and nothing of this changes the recording or fails because of the value of an attribute.",
     ["inputs", "configurations"],
     "all values of a menu at all places and in pairs, all trees up to depth 3 (thorough) x dataset kinds x storage options",
     "Tests only call the export on one recording.",
     [C + "reader.py"], [m("get_metadata", C + "reader.py"), m("save_metadata", C + "reader.py"), m("_dset_statistics", C + "reader.py"), m("__repr__", C + "reader.py")],
     technique="exhaustive enumeration of file trees and attribute values vs independent walk", note="")

prop("C01", "Everything that is stored by name has a safe name, an identity and an owner",
     "In all models of content, testbed parts, experiments and users a name is accepted if it consists of 1 to 32 printable ASCII characters without the ones that are special to file systems (< > : ; , ? \" * | / backslash), and refused with these, if too long or empty; "
     "descriptions and comments are accepted exactly for 1 to 512 printable ASCII characters. Surrounding whitespace is removed, everything else kept. Content that is visible to others needs a description. "
     "Instances without given id get one of their own and the moment of their creation; given ids are kept and checked for their range. Content without owner or group gets 'unknown'. Tokens and password-hashes of users are never shown when printing or exporting, generated tokens never repeat, passwords are limited to 20 to 100 characters.",
     ["inputs", "configurations"],
     "every ASCII character at each place of each name and text field of each model, lengths at the limits, all visibility combinations, ids at their borders",
     "Tests create a handful of valid models.",
     [C + "data_models/base/content.py", C + "testbed_client/user_model.py", C + "data_models/base/shepherd.py"],
     [m("NameStr / SafeStr / IdInt / ContentModel", C + "data_models/base/content.py"), m("User / hash_password", C + "testbed_client/user_model.py")],
     technique="exhaustive enumeration of characters, places and lengths vs acceptance predicate", note="")

prop("A01", "The testbed scripts produce complete and consistent output",
     "The scripts in extra/: The link-visualizer reads from a TrafficBench log exactly the measured links (each direction, any matrix with or without gaps, text before and after) and draws each pair of nodes with a measurement in any direction exactly once, between the positions of its nodes, below the node symbols, "
     "with a width of 1 to 10 that grows one step per 5 dB of mean signal strength (a missing direction counts as 10 dB less) and does not depend on the direction; the base picture stays as it is. "
     "The layout table has exactly one line per target in a testbed, with the parts it is connected to. The firmware generator produces a loadable firmware model for every listed firmware that has a file (others are skipped), also when run again with a newer release. "
     "Priming the database turns every firmware and energy-environment model of the content directory into a fixture with its content unchanged but its path on the server, and ignores everything else. "
     "The generated static environments are gap-free and cover their announced duration at the announced voltage and current. The prepared experiments target every node they list once with the named firmware.",
     ["inputs", "files"],
     "all link matrices of up to 3 nodes over a menu of strengths and log layouts, all signal strengths, all subsets of firmware and model files in two successive runs",
     "There are no tests for these scripts.",
     ["extra/link-visualizer/create_link_svg.py", "extra/gen_testbed_layout.py", "extra/gen_firmwares.py", "extra/prime_database.py", "extra/gen_energy_envs.py", "extra/gen_target_tests_testbed.py", "extra/gen_rf_survey.py"],
     [m("extract_rssi_data / add_links / line_width", "extra/link-visualizer/create_link_svg.py"), m("main of the generators", "extra/")],
     technique="exhaustive enumeration of link matrices and directory contents, run against the real scripts", note="Scripts run as copies in a scratch directory; download, recording and server are replaced.")


def write():
    with (ROOT / "properties.jsonl").open("w") as fd:
        for p in P:
            d = {"id": p["pid"], "title": p["title"], "statement": p["statement"].strip(),
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}}
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, (p["pid"], len(p["title"]))
            fd.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        have = (ROOT / "mc" / f"check_{p['pid'].lower()}.py").exists()
        if have and p["claimed"]:
            checks.append({"property": p["pid"],
                           "quick_cmd": f"./run.sh {p['pid']} quick",
                           "thorough_cmd": f"./run.sh {p['pid']} thorough",
                           "evidence_file": f"evidence/{p['pid']}.json",
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["pid"], "reason": p["na"] or "check not built yet"})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks run the real code of /repo under /opt/venv/bin/python; no hooks in /repo are needed. known_findings.txt lists recorded defects."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(checks), "claimed,", len(na), "not claimed")


if __name__ == "__main__":
    write()
