"""Writes properties.jsonl (the single place where the statements are kept)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))

T = "exorad/tasks/"
L = [
P("C01", "Parallel runs give exactly what a sequential run gives",
  "Observing a target list with any number of workers gives the same targets, in the same order and with the same contents, as observing it with one worker, however the workers are started, scheduled, delayed or stalled. "
  "If a worker process dies the run ends with an error: it neither waits forever nor returns normally with targets missing.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving of 2..6 workers over 0..6 targets (an empty list included), fork-like and spawn-like worker start, stalled and dying workers, targets that fail",
  "the tests run one parallel observation of two targets under whatever schedule the machine produces and never compare it with the sequential result",
  ["exorad/tasks/targetHandler.py", "exorad/exorad.py", "exorad/utils/passVal.py"],
  [("the executor map collects the results in input order", T + "targetHandler.py ObserveTargetlist.execute"), ("everything a worker needs travels with its arguments", T + "targetHandler.py pipeline_to_dict")],
  ["returned dictionary of observed targets", "output file"], [("working resolution", "process wide value read by the radiometric code", "exorad/utils/passVal.py")]),
P("C02", "Each target's result is independent of the other targets in the list",
  "The result of a target depends only on that target, the payload and the input files it names: observing it alone gives the same table and star data as observing it in any list, in any position, before or after any other targets, including targets that fail. "
  "Observing leaves the shared payload and channels ready to give the same results again.",
  ["histories", "inputs", "fault_sequences"],
  "target lists of 1..6 targets in any order, with failing targets in between, over generated payloads (one to three channels, none/one/several foregrounds, planck/custom/phoenix sources)",
  "the tests look at single targets or at lists whose members are never compared with being observed alone",
  ["exorad/tasks/targetHandler.py", "exorad/tasks/foregroundHandler.py", "exorad/models/instruments/instrument.py", "exorad/utils/util.py"],
  [("the target table is a copy of the merged channel tables", T + "targetHandler.py PrepareTarget"), ("foreground data are kept on the target", T + "foregroundHandler.py")],
  ["target tables", "output file"]),
P("C03", "A failing target is skipped, named, and harms nothing else",
  "When the observation of a target fails for any reason at any point, the run goes on: a warning names that target, the output holds no entry for it, and every other target is observed and saved exactly as if the failing one had not been listed. "
  "A target named twice is kept once, as its last listing, and a warning says so.",
  ["fault_sequences", "inputs", "histories"],
  "an exception at every reachable line of a target's observation, incomplete or ill-formed targets, at any position, with any number of workers, with and without plots",
  "no test makes the observation of a target fail inside a list",
  ["exorad/tasks/targetHandler.py", "exorad/exorad.py"],
  [("per target exception handler", T + "targetHandler.py pipeline_to_dict"), ("only observed targets are collected", T + "targetHandler.py ObserveTargetlist.execute")],
  ["console", "output file", "returned dictionary"]),
P("C04", "No silent loss: a normal return means every result is in the output",
  "If a run with an output file returns normally, then the file can be read and holds the payload and, complete and equal to what was computed, every target that was not reported as skipped, whatever storage errors, full disk, short or interrupted writes were met on the way.",
  ["fault_sequences", "inputs"],
  "one or more failing, short or interrupted file system calls at any point of a run: open, write, flush, close, truncate, mkdir, unlink, copy",
  "the tests never inject a storage error and most never read the file back",
  ["exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py", "exorad/exorad.py", "exorad/models/target.py"],
  [("each dataset is flushed when it is created", "exorad/output/hdf5/hdf5.py _create_dataset"), ("errors of the output propagate out of the pipeline", "exorad/exorad.py standard_pipeline")],
  ["return or exception of the pipeline", "output file read with h5py"]),
P("C05", "Results already saved survive what happens later in the run",
  "Once the saving of the payload or of a target has completed, its content stays readable and unchanged in the output file through the failure or interruption of anything later in the run: a transient storage error or an impossible value while a later target is saved, an exception or a process death between two savings. "
  "A process death or a permanent disk failure in the middle of an update of the file is excluded.",
  ["crash_points", "fault_sequences"],
  "every saving step of a run with 2..4 targets: one transient error at any file system call of a later saving, unserialisable content, interrupts at any line, process death between savings and while observing",
  "no test stops a run half-way",
  ["exorad/exorad.py", "exorad/output/hdf5/hdf5.py", "exorad/models/target.py"],
  [("the file is opened and closed around each target", "exorad/exorad.py standard_pipeline"), ("the file is reopened in append mode", "exorad/output/hdf5/hdf5.py HDF5Output")],
  ["output file read with h5py after the run"]),
P("C06", "Replacing leaves nothing of the old output; appending leaves all of it",
  "A run that replaces an existing output leaves a file with the content of this run only; a run that appends never changes or removes what the file already held, even when it fails. "
  "The payload and target list files are copied next to the output, and the copies never take the place of the output.",
  ["histories", "configurations"],
  "histories of 1..4 runs on the same output path with different payloads, targets, replace/append, relative paths, input files living in the output directory or sharing its name, unrelated, truncated or unreadable pre-existing files",
  "the tests write one output once",
  ["exorad/exorad.py", "exorad/output/hdf5/hdf5.py"],
  [("old output removed when replacing", "exorad/exorad.py standard_pipeline"), ("append mode when the file exists", T + "instrumentHandler.py PreparePayload"), ("input files copied to the output directory", "exorad/exorad.py standard_pipeline")],
  ["output file", "output directory"]),
P("C07", "A clean rerun always recovers",
  "After a run that failed, was interrupted or died at any point, repeating it with the same arguments and no fault, in a new process or (if the process survived) in the same one, gives exactly the output of a run that never failed.",
  ["crash_points", "fault_sequences", "histories"],
  "kill, torn write, storage error, exception or interrupt at any file system call or code line of one to three consecutive failed runs, then a clean run",
  "no test repeats a failed run",
  ["exorad/exorad.py", "exorad/output/hdf5/hdf5.py", "exorad/tasks/targetHandler.py", "exorad/utils/passVal.py", "exorad/log/__init__.py"],
  [("old output removed before writing", "exorad/exorad.py standard_pipeline"), ("output released on errors", "exorad/output/hdf5/hdf5.py HDF5Output"), ("log level restored", T + "targetHandler.py pipeline_to_dict")],
  ["output file and directory after the clean rerun"]),
P("C08", "Observing again, or repeating a step, changes nothing",
  "Observing a target that has already been observed, completely or partly (a step failed half-way), and repeating any single step on it (preparation, foreground estimation, light propagation, source loading, maximum signal, noise) gives the same result as doing it once. "
  "Observing it with another payload gives the same result as observing a fresh target with that payload.",
  ["histories", "fault_sequences"],
  "random sequences of complete and partial observations, repeated steps, failures inside steps and changes of payload on the same target object",
  "the tests apply each step once to a fresh target",
  ["exorad/tasks/targetHandler.py", "exorad/tasks/foregroundHandler.py", "exorad/tasks/noiseHandler.py", "exorad/models/noise.py", "exorad/tasks/loadSource.py"],
  [("repeated columns are replaced", T + "targetHandler.py UpdateTargetTable"), ("the sky transmission is recomputed from all the foregrounds", T + "foregroundHandler.py"), ("stale foregrounds are forgotten", T + "targetHandler.py ObserveTarget")],
  ["target table, foregrounds and star data"]),
P("C09", "Restarting from a saved payload gives the results of the original payload",
  "Using a saved output file as the payload of a new run gives, channel by channel, the same result for every target as the payload it was saved from, in the same or another process, as many times as wanted. "
  "The tables saved in the file read back equal to the ones computed.",
  ["histories", "configurations"],
  "generated payloads of one or more channels, options (full contributions, plots, workers), saved with or without targets, reloaded in chains of 1..3 restarts, in fresh and in used processes",
  "no test observes a target with a reloaded payload",
  ["exorad/tasks/instrumentHandler.py", "exorad/output/hdf5/hdf5.py", "exorad/output/hdf5/util.py", "exorad/models/instruments/instrument.py"],
  [("payload description, channel tables and built data are saved", "exorad/models/instruments/instrument.py write"), ("quantities and tables are rebuilt when loading", "exorad/output/hdf5/util.py"), ("built data restored", "exorad/models/instruments/instrument.py load")],
  ["output files", "channel tables"]),
P("C10", "A payload's results do not depend on what the process did before",
  "Building a payload and observing with it gives the same results whatever other payloads, with other resolutions, configuration directories or sources, were read, built or observed before or in between in the same process, by the same or other task objects, including ones whose reading failed. "
  "Observing changes neither the payload description nor the channels' results.",
  ["histories", "configurations"],
  "random interleavings of reading, building, observing and failing operations over 2..3 payloads in one process",
  "each test uses one payload per process step and never compares with a fresh process",
  ["exorad/utils/passVal.py", "exorad/tasks/loadOptions.py", "exorad/models/instruments/instrument.py", "exorad/tasks/targetHandler.py", "exorad/tasks/task.py"],
  [("the working resolution is set from the payload in use", "exorad/utils/passVal.py use_payload"), ("the configuration path is reset when a file is read", T + "loadOptions.py execute")],
  ["channel tables and built data", "target tables"], [("working resolution", "process wide value", "exorad/utils/passVal.py")]),
P("C11", "Importing works, quickly, whatever the network does",
  "Importing the package always succeeds and ends within a bounded time (a few tens of seconds of simulated time) whatever the network does: unreachable, refusing, stalled at any point, closing half-way, answering with any status, redirection or content. "
  "Nor does it fail because the information on the repository it runs from is absent, unreadable, partial or kept elsewhere. "
  "It changes no process-wide network setting.",
  ["fault_sequences", "inputs"],
  "every network call of the import failing, stalling or returning arbitrary content; a checkout whose git information is missing, on a detached commit, packed, in a worktree or submodule, cut, or failing to be read; a peer that keeps sending slowly forever is excluded",
  "the tests import the package once, with the network of the machine they run on",
  ["exorad/__init__.py", "exorad/utils/version_control.py"],
  [("connection check with a timeout", "exorad/utils/version_control.py _check_internet"), ("request with a timeout and catch-all", "exorad/utils/version_control.py get_content")],
  ["import outcome", "simulated time", "default socket timeout"]),
P("C12", "The version notice is given exactly when it is due",
  "When the online changelog can be read, a warning naming both the running and the newest released version is given if, and only if, the newest released entry is not the running version (an unreleased section is ignored), with the changes listed before the running version; if asked to be strict, the check then also raises its version error. "
  "When the changelog cannot be obtained or read there is no notice and no error, strict or not.",
  ["inputs", "fault_sequences"],
  "generated changelogs (unreleased section or not, any number of releases, running version newest, older, absent), generated transport faults",
  "no test can reach the online changelog",
  ["exorad/utils/version_control.py"],
  [("changelog parsing", "exorad/utils/version_control.py get_message")], ["console", "exception"]),
P("C13", "Every message is logged exactly once and the user's verbosity is kept",
  "At any time, after any history of runs, failures and changes of level, log file or directory, a message is shown on the console exactly once if its level reaches the level set by the user and not at all otherwise, and is written exactly once in each log file in use, with every level. "
  "While a target is observed outside debug mode the console shows errors only, and afterwards, even if the observation failed, the level set by the user is in force again.",
  ["histories", "fault_sequences"],
  "random histories of level changes, log files (repeated or not, named by relative and absolute paths before and after a change of directory), silencing and restoring, runs in and out of debug mode, sequential or with workers, and failing observations",
  "the tests check the levels once in a fresh process",
  ["exorad/log/__init__.py", "exorad/log/logger.py", "exorad/tasks/targetHandler.py", "exorad/exorad.py"],
  [("last level set by the user", "exorad/log/__init__.py last_log"), ("log level restored after an observation", T + "targetHandler.py pipeline_to_dict")],
  ["console", "log files"], [("last_log", "level set by the user", "exorad/log/__init__.py")]),
P("C14", "An interrupt always stops the run and leaves the session usable",
  "A keyboard interrupt or a request to exit received at any point of a run, in the main process or in a worker, ends the run by raising: it is never taken for a failed target, an unreadable file or anything else, and, without workers, no later target is started. "
  "Afterwards the verbosity set by the user is in force.",
  ["crash_points", "schedules"],
  "an interrupt or exit request at every reachable line of the package during a run, sequential or with workers",
  "no test interrupts a run",
  ["exorad/tasks/targetHandler.py", "exorad/tasks/loadOptions.py", "exorad/models/targetlist.py", "exorad/exorad.py"],
  [("handlers catch errors, not interrupts", T + "targetHandler.py pipeline_to_dict"), ("log level restored in all cases", T + "targetHandler.py pipeline_to_dict")],
  ["exception raised by the run", "console"]),
P("C15", "Input files are never modified or deleted",
  "No run, whatever its options, faults or outcome, modifies, truncates, renames or deletes a file it was given as input (payload description, target list, data files, maps, stellar models, saved payload), unless the user asks to append the output to that very file.",
  ["histories", "fault_sequences", "configurations"],
  "runs, from Python, from the command line and of the plotting tool, with output paths equal to, linked to, next to or named like the inputs, replace or append, with storage faults, interrupts and workers",
  "no test compares the input files before and after",
  ["exorad/exorad.py", "exorad/tasks/instrumentHandler.py", "exorad/output/hdf5/hdf5.py", "exorad/models/foregrounds/zodiacalForeground.py"],
  [("refusal to replace an input", "exorad/exorad.py standard_pipeline"), ("saved payloads opened read only", T + "instrumentHandler.py PreparePayload")],
  ["content hash of every input file", "file system calls on them"]),
P("C16", "A finished run holds no resources",
  "After a run ends, normally or with an error, no file it opened (inputs, output, plots) is still open, no worker is alive, no figure is kept and no temporary file is left; only the log file the user asked for stays open.",
  ["histories", "fault_sequences"],
  "runs, and uses of the plotting tool, that succeed or fail at any file system call or code line, with plots, workers, phoenix and custom sources, maps and saved payloads, repeated in one process",
  "no test looks at open files, processes or figures",
  ["exorad/exorad.py", "exorad/output/hdf5/hdf5.py", "exorad/tasks/targetHandler.py", "exorad/tasks/loadOptions.py", "exorad/models/source.py", "exorad/utils/plotter.py"],
  [("context managers around files", "exorad/exorad.py, exorad/models/source.py"), ("figures closed", T + "targetHandler.py pipeline_to_dict")],
  ["open file descriptors", "HDF5 handles", "child processes", "figures"]),
P("C17", "A read error never turns into wrong numbers",
  "If reading an input file fails or the file is missing (payload, target list, wavelength solution, quantum efficiency, resolution, element or point spread function data, sky, custom source, stellar model, saved payload, output given to the plotting tool), the run raises, or the targets concerned are skipped with a warning: no result is computed from missing or partial data. A saved payload whose saving was interrupted is refused. "
  "If the zodiacal map cannot be read, the configured zodiacal factor is used instead and a warning says so. "
  "Reads that are short or interrupted, and succeed when continued, change nothing.",
  ["fault_sequences", "inputs"],
  "an input/output error, a missing or unreadable file or too many open files at any read or open of any input (target lists in every supported format, pickled tables), at any time of the run; short and interrupted reads",
  "no test injects a read error",
  ["exorad/tasks/loadOptions.py", "exorad/models/targetlist.py", "exorad/models/source.py", "exorad/models/foregrounds/zodiacalForeground.py", "exorad/tasks/loadSource.py"],
  [("errors are raised again by the loaders", T + "loadOptions.py"), ("fallback to the zodiacal factor", "exorad/models/foregrounds/zodiacalForeground.py")],
  ["outcome of the run", "output file", "console"]),
P("C18", "The same inputs give the same outputs, everywhere and always",
  "Two runs with the same inputs give the same saved numbers and the same figures whatever the date and time, time zone, locale, working directory, process hash seed, order in which the system lists directories, and clock jumps while running; only the recorded creation time and the year of the copyright notice may differ.",
  ["configurations", "fault_sequences"],
  "pairs of fresh interpreters differing in all of these and in the modification times of the inputs, over generated payloads including a directory of stellar models with equally good candidates",
  "the tests run in one environment",
  ["exorad/utils/plotter.py", "exorad/models/source.py", "exorad/output/hdf5/hdf5.py", "exorad/tasks/instrumentHandler.py", "exorad/models/optics/opticalPath.py"],
  [("sorted list of stellar models", "exorad/models/source.py"), ("ordered band colours", "exorad/utils/plotter.py plot_bands")],
  ["output file", "figures"]),
P("C19", "Saved tables satisfy the noise and signal budget",
  "In every saved table, whatever the history of the process and of the target: the maximum signal in a pixel is the sum of the listed contributions, the saturation time times the maximum signal is the well depth, the frame time is the imposed one or the given fraction of the channel's shortest saturation time, and the squared total noise is the sum of the squared dark current, read and (with the channel's excess factor) photon noises of the listed signals relative to the star signal plus the squared custom noises.",
  ["histories", "configurations"],
  "tables saved by sequential, parallel, repeated, restarted and partially failed runs over generated payloads",
  "the tests compare a few columns of one payload with fixed numbers",
  ["exorad/tasks/noiseHandler.py", "exorad/models/noise.py", "exorad/tasks/targetHandler.py"],
  [("noise model", "exorad/models/noise.py"), ("maximum signal", T + "targetHandler.py EstimateMaxSignal")], ["output file"]),
P("C20", "Under MPI only the master rank talks, and data scatter and gather back in order",
  "With several MPI ranks, the master rank shows the messages as usual while every other rank shows errors only, whatever level is set. "
  "Scattering a list with one element per rank and gathering it back returns it in rank order on the master and nothing elsewhere, and a list with fewer or more elements than ranks is refused on every rank rather than blocking.",
  ["schedules", "configurations"],
  "1..5 simulated ranks, any arrival order, any root, any log level",
  "MPI is not installed where the tests run",
  ["exorad/utils/mpi.py", "exorad/log/logger.py"],
  [("rank filter of the console handler", "exorad/log/logger.py ExoRadHandler"), ("scatter and gather", "exorad/utils/mpi.py")], ["console of every rank", "returned data"]),
P("C27", "Runs at the same time do not disturb each other",
  "Runs made at the same time by different processes, each with its own output file, give what each of them gives alone, whatever their interleaving, even when they share the input files, the working and temporary directories, the output directory and the log file, and even when one of them fails, is interrupted or dies. "
  "No message of any of them is lost from a shared log file.",
  ["schedules", "fault_sequences", "configurations"],
  "2..3 processes, sequential runs with their own outputs over shared or separate inputs, directories and log file, interleaved at any line of the package and any file operation, started together or not, one of them failing, interrupted or dying anywhere",
  "the tests make one run at a time",
  ["exorad/exorad.py", "exorad/log/__init__.py", "exorad/output/hdf5/hdf5.py", "exorad/tasks/instrumentHandler.py"],
  [("each run writes only its own output and its copies of the inputs", "exorad/exorad.py standard_pipeline"), ("log files are appended to", "exorad/log/__init__.py addLogFile")],
  ["output files", "copies of the inputs", "log file", "outcome of each run"]),
# ---- not addressed by this family of technique
P("C21", "Signals scale with collecting area, source flux and transmission",
  "The star signal is proportional to the telescope area and to the flux of the source, and never increases when an optical element becomes less transparent.",
  ["inputs"], "all payloads and targets", "the tests use one payload",
  ["exorad/models/instruments/photometer.py", "exorad/models/instruments/spectrometer.py", "exorad/models/optics/opticalPath.py"], [("propagation", "exorad/models/instruments")], ["target tables"]),
P("C22", "Each optical surface's emission passes only the surfaces that follow it",
  "The self emission of an optical element reaches the detector through exactly the elements that follow it in the path, common elements first, and each element adds its own contribution once.",
  ["inputs"], "all optical paths", "the tests use a few paths",
  ["exorad/models/optics/opticalPath.py", "exorad/models/optics/opticalElement.py"], [("chain", "exorad/models/optics/opticalPath.py")], ["channel tables"]),
P("C23", "A payload description is read as written",
  "Every value of a payload description is read with the type and unit it was written with, and repeated elements keep their order.",
  ["inputs"], "all XML payload descriptions", "the tests read one file",
  ["exorad/tasks/loadOptions.py"], [("parser", T + "loadOptions.py")], ["parsed dictionary"]),
P("C24", "The same targets give the same list in every supported format",
  "A target list gives the same targets, with the same quantities, whether written as a csv file, an Excel sheet or a table in memory.",
  ["inputs"], "all target lists", "the tests use one list per format",
  ["exorad/models/targetlist.py"], [("readers", "exorad/models/targetlist.py")], ["targets"]),
P("C25", "Rebinning conserves the integrated signal",
  "Rebinning a signal on another wavelength grid conserves its integral over the common range, up to interpolation accuracy.",
  ["inputs"], "all signals and grids", "the tests use a few grids",
  ["exorad/models/signal.py", "exorad/utils/exolib.py"], [("rebin", "exorad/utils/exolib.py")], ["signal data"]),
P("C26", "Aperture size and encircled energy agree",
  "The aperture radius found for an encircled energy encloses that fraction of the point spread function, and grows with it.",
  ["inputs"], "all point spread functions and fractions", "the tests use a few values",
  ["exorad/utils/exolib.py", "exorad/models/instruments/photometer.py"], [("find aperture radius", "exorad/utils/exolib.py")], ["channel tables"]),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
