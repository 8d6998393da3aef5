#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and nothing else (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "nidn/training/run_training.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note, na))


prop(
    "C01",
    "Training returns the best physically valid design it evaluated",
    "When training ends, the model it leaves behind, and the best state it records, are those of a design evaluated during that training whose loss is "
    "minimal among all its evaluations that gave a physically valid spectrum (reflectance plus transmittance at most one at every frequency). "
    "An evaluation that failed or was unphysical is never chosen, and if there was no valid one the design training started from is returned unchanged.",
    ["fault_sequences", "histories", "configurations"],
    "For every configuration (network or voxel model, regression or classification, either solver, any loss exponent) and every sequence of good, worse, failing (NaN), diverging and unphysical evaluations.",
    "The test trains for a few iterations from one seed and looks at nothing but the shapes; no test has a failing or unphysical evaluation, so which state is kept is never decided.",
    [T, "nidn/training/losses/spectrum_loss.py"],
    [("best loss / best state book keeping", T + ": run_training"), ("reload of the best state at the end", T + ": run_training"), ("renormalisation flag", "nidn/training/losses/spectrum_loss.py: _spectrum_loss_fn")],
    [("best_model_state_dict", "copy of the best valid parameters", T), ("best_loss", "its loss", T)],
    ["the model and the recorded best state after training"],
)
prop(
    "C02",
    "Failed evaluations never end training: restore, slow down, go on",
    "An evaluation whose spectrum is not a number does not end training: every other iteration still happens exactly once, is recorded exactly once and is followed by exactly one update. "
    "After a failure training continues from the best valid design found so far (the starting design if there is none) with half the previous learning rate, "
    "and nothing non-finite from the failure survives in the model or influences later updates.",
    ["fault_sequences", "histories", "configurations"],
    "For every placement, number and combination of failures (NaN outputs, NaN parameters, NaN gradients, numerical errors raised anywhere inside the solver), including the first evaluation, bursts and all of them.",
    "No test makes an evaluation fail; the recovery branch is never executed.",
    [T, "nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py"],
    [("recovery branch", T + ": run_training, except ValueError"), ("non-finite gradients / spectra raise", "nidn/trcwa/compute_spectrum_trcwa.py"), ("optimizer state cleared", T)],
    observe=["number of evaluations, record entries and updates; parameters at each evaluation; learning rate of each update"],
)
prop(
    "C03",
    "Stopping training at any point keeps the best design found so far",
    "If training is stopped by an exception at any moment, the exception reaches the caller, and the recorded best state is that of a best valid design among the evaluations completed so far (or the starting design), "
    "a snapshot of its own that later changes of the model do not touch. The training records then hold exactly the completed evaluations in order, and training can be resumed from that state and returns a design at least as good.",
    ["crash_points", "histories", "configurations"],
    "For every line of library code at which an interrupt, an out-of-memory or another error may strike, at every iteration, combined with failing and unphysical evaluations before.",
    "No test interrupts training.",
    [T],
    [("deep copy of the best state", T + ": run_training"), ("order of record, best-state and update statements", T + ": run_training")],
    observe=["best state and records after the exception; a second training from there"],
)
prop(
    "C04",
    "Training records and updates belong to the evaluation they describe",
    "After any training, the records of loss, L1 error and running average hold, in order, exactly one entry per successful evaluation, equal to the configured loss, the L1 error and the mean of the last (up to) 20 losses of the design that was evaluated; "
    "unphysical results are rescaled by their own total before being compared with the target. "
    "Every parameter update uses the gradient of that same evaluation's loss and nothing left over from earlier or failed ones.",
    ["histories", "fault_sequences", "configurations"],
    "For every configuration of the loss (exponent, absorption, regularisation), model and solver and every history of good, failing and unphysical evaluations.",
    "Tests compare no record with the design it belongs to; the spectrum loss is never tested with unphysical spectra or after failures.",
    [T, "nidn/training/losses/spectrum_loss.py", "nidn/training/losses/likelihood_regularization_loss.py"],
    [("loss functions", "nidn/training/losses"), ("zero_grad/backward/step and the log appends", T + ": run_training")],
    observe=["results.loss_log, L1_errs, weighted_average_log; gradients handed to the optimiser"],
)
prop(
    "C05",
    "Results depend on the configuration alone, not on history or environment",
    "Training a configuration, computing a spectrum or its gradient, evaluating a fresh model, building layers and loading materials give bitwise the same result whatever the same process did before - including operations that failed or were interrupted half-way - "
    "and whatever the state of the global random generators, the order of directory entries, the clock and the log level. "
    "None of these operations leaves the working directory, the environment, default precision or other global settings of the process changed.",
    ["histories", "fault_sequences", "configurations"],
    "For every sequence of earlier operations, completed, failed or interrupted at any line, and every environment.",
    "Each test runs one operation in one order in one environment; results are never compared between histories.",
    ["nidn/utils/fix_random_seeds.py", T, "nidn/utils/compute_spectrum.py", "nidn/fdtd/backend.py", "nidn/fdtd_integration", "nidn/trcwa", "nidn/materials/material_collection.py"],
    [("seeding at the start of training", "nidn/utils/fix_random_seeds.py"), ("fresh solver objects per evaluation", "nidn/trcwa/init_trcwa.py, nidn/fdtd_integration/init_fdtd.py"), ("global FDTD backend", "nidn/fdtd/backend.py")],
    observe=["bitwise values of the results; process-wide settings before and after"],
)
prop(
    "C06",
    "Saved runs are durable, distinct and faithful; failures are reported",
    "Once saving a run has returned, a new file under the requested folder, named after the run, loads - now, after any number of further saves, and in a new process - to a run equal to the saved one (settings, model parameters, records, materials); "
    "no later save, successful or failed, changes or removes it, even with the same name within the same second or with a clock set back. "
    "A save that cannot be completed raises an error, and neither saving nor loading alters the run; a file cut short by a failure is never loaded as a different run.",
    ["crash_points", "fault_sequences", "histories"],
    "For every sequence of saves and loads, every clock behaviour, and a disk error, short write, interrupt or process death at every operation and byte.",
    "Tests save nothing, or once, with a healthy disk and clock.",
    ["nidn/training/save_run.py", "nidn/training/load_run.py"],
    [("exclusive creation with a counter", "nidn/training/save_run.py"), ("pickle of the whole run", "nidn/training/save_run.py"), ("load", "nidn/training/load_run.py")],
    observe=["the results folder, byte by byte; loaded runs"],
)
prop(
    "C07",
    "Looking at, saving and reloading a run never changes how it continues",
    "Computing spectra and permittivities of a run, drawing any of its plots, saving it, loading it and restarting the process in between change no setting, record or parameter of it, even when they fail on a disk error or are interrupted. "
    "Continuing the training of the run afterwards, also of the copy read back in a new process, gives bitwise the same models and records as continuing at once.",
    ["histories", "crash_points", "fault_sequences"],
    "For every sequence of such actions, failing or not, between training segments.",
    "Tests never continue a training after looking at the run, and never reload one.",
    ["nidn/training", "nidn/plots", "nidn/utils/compute_spectrum.py"],
    [("plots and spectra evaluate the model without in-place changes", "nidn/plots, nidn/training/model/model_to_eps_grid.py"), ("save/load of the whole run", "nidn/training/save_run.py, load_run.py")],
    observe=["bitwise state of the run before and after each action; later training results"],
)
prop(
    "C08",
    "The material data base gives the tabulated materials or an error",
    "A material collection for any frequencies offers every tabulated material except the excluded ones, once each, and gives each one, at each frequency, the permittivity of the tabulated wavelength closest to it, under its own name, in matrix and look-up alike; "
    "unknown and excluded names are refused. This holds whatever order the file system lists the data in and whatever was loaded before, and if data cannot be read or the loading is interrupted an error is raised rather than a partial or wrong collection; "
    "layers built from materials contain exactly their permittivities.",
    ["fault_sequences", "histories", "inputs"],
    "For every list of frequencies (inside and outside the tabulated range, any number), exclusion list, directory order, read error, short read or interrupt at any point and every earlier use.",
    "Tests load the data once in one directory order and compare little of it.",
    ["nidn/materials/material_collection.py", "nidn/materials/layer_builder.py", "nidn/trcwa/load_material_data.py"],
    [("sorted enumeration and nearest wavelength", "nidn/materials/material_collection.py"), ("layer construction", "nidn/materials/layer_builder.py")],
    observe=["material names, matrix, look-ups"],
)
prop(
    "C09",
    "Concurrent evaluations in one process do not disturb one another",
    "Spectra (with either solver, with or without gradients), permittivity grids, material collections, FDTD simulations, trainings of separate models and saves running at the same time in several threads give bitwise the results each gives alone. "
    "This holds whether or not they share configuration, model and permittivity objects (trainings excepted), and every run saved concurrently is found complete.",
    ["schedules", "histories"],
    "For every interleaving of the executed lines of the library in 2 to 4 threads.",
    "All tests are single threaded.",
    ["nidn/utils/compute_spectrum.py", "nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/fdtd", "nidn/trcwa", "nidn/training"],
    [("no module-level mutable state in the solvers", "nidn/trcwa, nidn/fdtd"), ("configuration is copied, not modified", "nidn/fdtd_integration/compute_spectrum_fdtd.py")],
    observe=["results of every thread; files saved"],
)
prop(
    "C10",
    "An FDTD simulation depends on its set-up and step count only",
    "The fields, absorbing-boundary state, detector readings and gradients of an FDTD simulation after n steps do not depend on how the steps were asked for: at once, in portions, one by one, in turns with other simulations or threads, with checkpoints restored or with unrelated work in between. "
    "Every step adds exactly one reading per detector and a reading never changes afterwards; a line detector's reading is the field at its cells. "
    "After a reset - also of a simulation that was interrupted mid-step or blew up to NaN - it behaves exactly like a fresh one.",
    ["histories", "schedules", "crash_points"],
    "For every set-up of boundaries, sources, objects and detectors, and every history of advances, interruptions, blow-ups, resets, checkpoints.",
    "Tests run each set-up once, in one go, from a fresh grid.",
    ["nidn/fdtd/grid.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/sources.py", "nidn/fdtd/detectors.py", "nidn/fdtd/objects.py"],
    [("step / update_E / update_H", "nidn/fdtd/grid.py"), ("reset", "nidn/fdtd/grid.py: Grid.reset, nidn/fdtd/boundaries.py"), ("detector appends", "nidn/fdtd/detectors.py")],
    observe=["fields, detector lists, step counter, gradients"],
)
prop(
    "C11",
    "The batch runner keeps every configuration's results, complete and apart",
    "Running a folder of configurations stores for each of them, in a folder of its own, exactly the run and plots it would have produced alone, whatever the others are, in whatever order they are found, whether or not they share names and whatever the clock does. "
    "If anything fails - a broken configuration, a full disk, an interrupt, process death at any point - the run does not end as a success, everything completed before stays intact, and starting the batch again neither changes nor removes earlier results.",
    ["crash_points", "fault_sequences", "histories"],
    "For every set of configurations, directory order, clock and fault position, over several successive batches.",
    "The batch runner has no test.",
    ["nidn/scripts/run_cfgs.py", "nidn/training/save_run.py", "nidn/plots/save_all_plots.py"],
    [("one training, save and plot per file", "nidn/scripts/run_cfgs.py"), ("reservation of a results folder", "nidn/scripts/run_cfgs.py")],
    observe=["results folder after each batch; how the process ended"],
)
prop(
    "C12",
    "FDTD output on disk is complete, separate and never silently lost",
    "Every saved FDTD simulation gets an output folder of its own, named after it, even within the same second or with a clock set back or read across a second boundary, and no output operation changes or removes files of other simulations or its own earlier readings. "
    "When storing readings, a frame or a video returns, the file in that folder holds exactly the readings taken, that frame, or a video of all its frames; otherwise an error is raised, and frames are deleted only on request and only after a complete video. "
    "The working directory of the process is the same after every operation, also after a failed one and for simulations running concurrently.",
    ["fault_sequences", "crash_points", "schedules", "histories"],
    "For every history of several simulations stepping and writing output, every clock, a disk or encoder failure or process death at every point.",
    "No test writes FDTD output, makes a disk or ffmpeg fail, or runs two simulations.",
    ["nidn/fdtd/grid.py", "nidn/fdtd/visualization.py"],
    [("save_simulation / save_data / generate_video", "nidn/fdtd/grid.py"), ("frame files", "nidn/fdtd/visualization.py: visualize")],
    observe=["files, working directory, raised errors"],
)
prop(
    "C13",
    "Permittivities stay in their configured range, whatever noise is drawn",
    "Every permittivity grid a regression model yields, and every one handed to the solver during training, is finite, of the configured shape and within the configured real and imaginary ranges, and with zero avoidance on no real part is closer to zero than 0.01 (values moved there may leave a narrower range); "
    "a classification model yields non-negative material weights summing to one and the corresponding mixture of tabulated materials. "
    "This holds for any noise drawn; evaluating changes neither model nor configuration, is repeatable without noise, gives one value per oversampled block, and with noise still delivers finite gradients to every parameter.",
    ["histories", "inputs", "configurations"],
    "For every finite model state reached by training, jumps or reloading, all ranges, noise scales up to 3 and noise draws up to 8 standard deviations, interruptions included.",
    "Noise and zero avoidance are never switched on in a test that looks at the permittivity.",
    ["nidn/training/model/model_to_eps_grid.py", "nidn/training/utils/voxel.py", "nidn/training/utils/siren.py", "nidn/training/utils/nerf.py"],
    [("scaling, clipping, noise, zero avoidance", "nidn/training/model/model_to_eps_grid.py")],
    observe=["permittivity grids and material weights; gradients"],
)
prop(
    "C14",
    "A plot shows the data of its run, all of it and nothing else, or fails",
    "Each plot of a run shows exactly that run's data: its loss records, target and produced spectra with their L1 error at the right wavelengths, the permittivity (absolute, per frequency, or per cell with the closest materials) at the right cells and layers, with labels that match. "
    "Other runs, figures left open, selected or closed by the user and plots that failed before do not show up in it, and the run's state at the time of plotting is what is shown. "
    "A plot that cannot be written completely raises an error instead of returning.",
    ["histories", "fault_sequences", "configurations"],
    "For every history of plots of several runs, foreign figures, disk and read errors, interrupts at any line, further training and restarts.",
    "Tests call plots once with nothing else open and never look at what is drawn.",
    ["nidn/plots"],
    [("a new figure per plot", "nidn/plots/*.py"), ("saving to the requested folder", "nidn/plots/*.py, nidn/plots/save_all_plots.py")],
    observe=["lines, points, labels and texts of every figure when it is saved; files written"],
)
prop(
    "C21",
    "An RCWA solver object answers from its present structure and excitation alone",
    "What an RCWA solver object answers (reflectance and transmittance, total or by order, normalised or not, their gradients, amplitudes and fields in a layer, stress, volume integrals, "
    "permittivity profiles) depends only on the layers it was set up with and on the permittivities and excitation last given to it: not on which others it was given before, how often and in "
    "what order it was asked, evaluations that failed or were interrupted, other solvers alive in the process or threads asking at the same time. Asking changes neither the solver nor the "
    "permittivities handed to it, reusing their tensors afterwards does not change its answers, and results already returned never change.",
    ["histories", "interleavings", "fault_sequences"],
    "For every history of permittivities, excitations, queries, gradients, copies, interrupts at any line and interleavings of several solvers with uniform and patterned layers.",
    "Tests build one solver, excite it once and ask it once.",
    ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils"],
    [("RT_Solve, GridLayer_geteps, MakeExcitationPlanewave", "nidn/trcwa/trcwa.py"), ("Fourier and lattice helpers", "nidn/trcwa/utils")],
    observe=["answers and gradients of each solver; tensors handed in; earlier results"],
)
prop(
    "C22",
    "A refused request raises an error and leaves no trace",
    "A request that cannot be carried out is refused with an error: a component placed in an FDTD grid under a name already taken, at an invalid place or on a side that has its boundary already; "
    "readings stored before a folder was chosen; a training or spectrum with an invalid configuration; permittivities that are not numbers or do not fit the configuration (RCWA); an unknown material; "
    "a file that is not a saved run. It then leaves no trace: grid, components and readings, configuration, permittivities, model and records of the run, random generators and process are as before, "
    "and all work done afterwards gives the same results as if the request had never been made.",
    ["histories", "fault_sequences", "configurations"],
    "For every history of valid work (placing components, simulating, training, spectra) and every position and kind of refused requests in it.",
    "Tests check at most that an error is raised, never what is left behind.",
    ["nidn/fdtd/grid.py", "nidn/fdtd/detectors.py", "nidn/fdtd/sources.py", "nidn/fdtd/boundaries.py", "nidn/fdtd/objects.py", "nidn/utils/validate_config.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/materials"],
    [("placement of components", "nidn/fdtd/grid.py:__setitem__"), ("validation before any work", "nidn/utils/validate_config.py, nidn/training/run_training.py")],
    observe=["grid contents and fields, configuration, generators and process before and after each refused request; results of the valid work"],
)
# ---------------------------------------------------------------- not applicable
prop(
    "C15",
    "RCWA spectra obey the physics of layered and patterned media",
    "For lossless stacks reflectance and transmittance sum to one, and for uniform stacks they agree with the transfer-matrix solution.",
    ["inputs", "configurations"],
    "For every stack, frequency and incidence.",
    "Tests sample one or two stacks.",
    ["nidn/trcwa"],
    [("RCWA solver", "nidn/trcwa/trcwa.py")],
    na="a pure numerical function of its inputs: no schedule, clock, I/O, fault or history is involved, so there is nothing for a simulator to decide (its independence of history and interleaving is C05 and C09)",
)
prop(
    "C16",
    "FDTD spectra converge to the reflectance and transmittance of the stack",
    "With enough steps the FDTD reflectance and transmittance approach the analytic values of the stack.",
    ["inputs", "configurations"],
    "For every stack and resolution.",
    "Tests compare one stack coarsely.",
    ["nidn/fdtd_integration"],
    [("signal to coefficient conversion", "nidn/fdtd_integration/calculate_coefficients.py")],
    na="a pure numerical function of the configuration; only its driving and history are in reach of simulation (C05, C09, C10)",
)
prop(
    "C17",
    "Invalid configurations are rejected before anything is computed",
    "A configuration with a missing, mistyped or inconsistent entry is refused with an error.",
    ["inputs"],
    "For every configuration.",
    "Tests try a few invalid entries.",
    ["nidn/utils/validate_config.py"],
    [("validation", "nidn/utils/validate_config.py")],
    na="a pure predicate on its input, without schedule, time, I/O or faults; deciding it is input enumeration, not simulation",
)
prop(
    "C18",
    "Wavelengths, frequencies and units are converted consistently",
    "Target frequencies cover the configured wavelength range in the configured distribution, and conversions are inverse to one another.",
    ["inputs"],
    "For every range and number of frequencies.",
    "Tests sample one range.",
    ["nidn/trcwa/compute_target_frequencies.py", "nidn/utils/convert_units.py"],
    [("conversions", "nidn/utils/convert_units.py")],
    na="pure arithmetic on its inputs; nothing for a scheduler or fault injector to vary",
)
prop(
    "C19",
    "Layer geometry and closest-material search are exact for every layout",
    "Built squares, circles and stripes cover exactly the stated part of the cell, and the closest material is the one of minimal mean distance.",
    ["inputs"],
    "For every size, radius and permittivity.",
    "Tests sample one layout.",
    ["nidn/materials/layer_builder.py", "nidn/materials/find_closest_material.py"],
    [("masks", "nidn/materials/layer_builder.py")],
    na="pure geometry of its inputs; that built layers hold the tabulated values under faults is C08, that the closest material is shown in plots is C14",
)
prop(
    "C20",
    "Spectrum gradients equal the derivative of the spectrum",
    "Gradients of spectra agree with finite differences.",
    ["inputs"],
    "For every permittivity grid away from degenerate eigenvalues.",
    "Tests only check that gradients exist.",
    ["nidn/trcwa", "nidn/fdtd"],
    [("autograd through the solvers", "nidn/trcwa, nidn/fdtd")],
    na="a pure numerical property of one evaluation; that the gradient used in training is the one of its own evaluation, for every history, is C04",
)

COMMON = (
    "Seeded search over fault and schedule sequences of the real code in one process: no violation on the explored runs, no proof for the others. "
    "Trusts the simulator's seams and the stated reference model; every violation is confirmed by replaying its minimised trace in a fresh process."
)
NOTES = {
    "C01": "Oracle: own loss on states recorded at every evaluation.",
    "C02": "Oracle: counts, learning rates and states recorded at every evaluation and update.",
    "C03": "Stops at a random executed line; best state, records and resumption against the recorded evaluations.",
    "C04": "Oracle: independent loss with autograd on the recorded designs (tolerance 1e-6 relative).",
    "C05": "Oracle: the same operation in a pristine forked process, bitwise.",
    "C06": "Process death loses buffered bytes only; operating-system crashes (lost page cache) are not modelled because the code never syncs.",
    "C07": "Oracle: the same training segments back to back in a pristine process, bitwise.",
    "C08": "Oracle: own parser of the data files of the tree under test.",
    "C09": "Preemption at executed library lines; third-party calls are atomic.",
    "C10": "Oracle: the same number of steps at once on a fresh grid in a pristine process, bitwise.",
    "C11": "Oracle: each configuration run alone by the same script in a pristine process.",
    "C12": "ffmpeg and rasterisation are stubs; everything else is real.",
    "C13": "Noise drawn by the simulator; ranges with 1e-5 relative tolerance for single precision.",
    "C14": "Rasterisation is a stub; the data held by the figure is compared with own formulas.",
    "C21": "Oracle: a new solver in a pristine process given only the latest permittivities and excitation, bitwise.",
    "C22": "Oracle: the same valid work without the refused requests in a pristine process, bitwise.",
}

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p, _, na in P:
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps(p) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import torch, matplotlib, pandas, toml, dotmap, loguru; print(\"ready\")'",
    checks=[],
    not_applicable=[],
    notes="All checks: /opt/venv/bin/python check.py <id>; replay with --replay FILE. No hooks are needed in /repo. See DESIGN.md.",
)
for p, _, na in P:
    if na:
        man["not_applicable"].append(dict(property=p["id"], reason=na))
    else:
        man["checks"].append(
            dict(
                property=p["id"],
                quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p["id"],
                thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p["id"],
                technique="deterministic simulation with fault injection (seeded search)",
                level="exploration",
                level_note=COMMON + " " + NOTES[p["id"]],
            )
        )
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
