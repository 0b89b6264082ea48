"""writes properties.jsonl (kept as a script because the lines are long)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                     hook_needed=hook),
    ))


CORE = "ramp/core/core.py"
UTILS = "ramp/core/utils.py"

prop("C01", "Appliances only draw power inside their randomised windows of use",
     "On every day, an appliance draws power only in minutes covered by one of its declared windows of use, each limit "
     "of which is shifted by at most random_var_w times the duration of that window (rounded down) and clipped to the "
     "day 0-1440. The shift of each limit is drawn uniformly and independently, and the daily profile has exactly 1440 "
     "values, none of them negative.",
     ["inputs", "programs"], "all appliance definitions and all sequences of random draws",
     "Tests run a few shipped inputs with random draws and compare averages or lengths; the limits are only broken by "
     "rare draws at the edges of the day or for particular window combinations.",
     [CORE], [("randomised limits and clipping", "Appliance.calc_rand_window"),
              ("masking and free ranges", "Appliance.generate_load_profile")],
     [("daily_use", "profile of the appliance for the current day", CORE),
      ("free_spots", "ranges of minutes still available", CORE)],
     ["User.generate_single_load_profile", "UseCase.generate_daily_load_profiles"])

prop("C02", "Daily time of use follows func_time, its variability and the windows",
     "The total on time of an appliance on a day of use is drawn around func_time: rounded, between func_time and "
     "func_time times a factor uniform in [1-v, 1+v], raised to func_cycle if below it, and limited to 99% of the total "
     "randomised window time. The switch-on events are generated until exactly this budget is used (the last one is "
     "shortened) or no free range can hold another event; if func_cycle does not fit, a ValueError is raised.",
     ["inputs", "programs"], "all appliance definitions and all sequences of random draws",
     "Existing tests check averages for one configuration; overshoot by a minute, loss of the last event or a wrong cap "
     "only show for particular remainders and window sizes.",
     [CORE], [("budget", "Appliance.rand_total_time_of_use"), ("loop and correction of the last event",
                                                            "Appliance.generate_load_profile")],
     [("tot_time / rand_time", "minutes used and daily budget", CORE)],
     ["User.generate_single_load_profile"])

prop("C03", "Switch-on events: uniform start, bounded duration, no overlap",
     "Each switch-on event starts at a minute drawn uniformly among those from which func_cycle minutes fit in a range "
     "of window time not yet used on that day, and lasts between func_cycle and the smaller of the daily budget and the "
     "rest of that range, with the documented uniform law. Minutes already used, or shared by overlapping windows, are never "
     "used twice, whatever the number and order of the windows.",
     ["inputs", "programs"], "all window layouts, func_cycle/func_time combinations and sequences of draws",
     "The law of the events cannot be seen from single seeded runs; off-by-one errors in splitting the free ranges need "
     "specific sequences of events at the limits of a range.",
     [CORE], [("choice of the start and duration", "Appliance.rand_switch_on_window"),
              ("splitting of the free ranges", "Appliance.update_available_time_for_switch_on_events")],
     [("free_spots", "ranges of minutes still available", CORE)], ["User.generate_single_load_profile"])

prop("C04", "Power of an event = copies on x power of the day x thermal factor",
     "During a switch-on event without duty cycle the appliance draws, constantly over the event, the number of copies "
     "switched on times its power for that day times a factor uniform in [1-thermal_p_var, 1+thermal_p_var] drawn for "
     "each event. The power of the day is the constant power, or the value of the power series at the index of the day.",
     ["inputs", "programs"], "all powers (constant, series), numbers, variabilities, days and draws",
     "Tests use one day index and do not check individual minutes against the drawn factors.",
     [CORE, UTILS], [("power of the event", "Appliance.update_daily_use"), ("random factor", "random_variation")],
     (), ["User.generate_single_load_profile"])

prop("C05", "Coincidence: how many copies are switched on together, in and off peak",
     "For each event, the number of copies switched on together lies between 1 and the number of appliances; with "
     "fixed='yes' it is always all of them. Otherwise it follows the published law: a gaussian of mean n/2 and deviation n/4 rounded "
     "up and clipped if at least one minute of the event is in the peak time range, and the off-peak uniform law "
     "(each count below n twice as likely as n) if none is.",
     ["inputs", "programs"], "all numbers of copies, event and peak positions, and draws",
     "Tests sample one number of appliances with fixed seeds; the law and the behaviour of events that touch the limits of "
     "the peak range by one minute are not determined by samples.",
     [CORE, UTILS, "ramp/core/constants.py"],
     [("coincidence law", "Appliance.calc_coincident_switch_on"), ("peak membership", "within_peak_time_window"),
      ("calibration", "switch_on_parameters")],
     (), ["User.generate_single_load_profile"])

prop("C06", "Duty cycles: right cycle, right pattern, right length",
     "An event of an appliance with duty cycles repeats, from its first minute, the pattern (p_i1 for t_i1, p_i2 for t_i2, with their "
     "documented variability, drawn once a day) of the first cycle one window of which is touched by the event; with "
     "continuous_duty_cycle=0 the event is cut to one execution of the pattern. With three cycles each pattern may be "
     "reversed with probability 1/2; events outside all cycle windows are drawn again, and with a single cycle its windows "
     "default to the windows of use.",
     ["inputs", "programs"], "all cycle definitions, window layouts and draws",
     "Tests check that cycle ids appear for one layout; boundaries, reversal, the length of one-shot cycles and the "
     "choice between overlapping cycle windows depend on draws and layouts the tests do not enumerate.",
     [CORE, UTILS], [("daily patterns", "Appliance.assign_random_cycles"), ("choice of the cycle",
                                                                        "Appliance.rand_switch_on_window"),
                     ("pattern", "duty_cycle, random_choice"), ("writing", "Appliance.update_daily_use")],
     [("current_duty_cycle_id", "cycle of the current event", CORE)], ["User.generate_single_load_profile"])

prop("C07", "Days without use: weekday/weekend, occasional use, preference, number or time 0",
     "An appliance draws nothing on days excluded by wd_we_type, when its number or func_time is 0, when the preference of "
     "the day is not its pref_index, and otherwise is used with probability occasional_use, independently for each "
     "individual and day. On days of use its profile follows the same law as if it was used every day.",
     ["inputs", "programs"], "all combinations of the parameters, day types and draws",
     "A probability and the independence between individuals cannot be settled by a few seeded runs, and combinations "
     "of the conditions are not covered.",
     [CORE], [("conditions", "Appliance.generate_load_profile"), ("day type", "get_day_type")], (),
     ["User.generate_aggregated_load_profile"])

prop("C08", "One daily preference per individual, shared by all its appliances",
     "For each individual and each day one preference is drawn uniformly among 1..user_preference; among the appliances "
     "with a pref_index exactly those matching that preference can be used by that individual on that day. Individuals and days "
     "are independent from each other.",
     ["inputs", "programs"], "all sets of preferences, numbers of individuals and draws",
     "Exclusiveness between appliances is a joint property of all draws; tests only look at single appliances.",
     [CORE], [("daily preference", "User.generate_single_load_profile")],
     [("rand_daily_pref", "preference of the current individual and day", CORE)],
     ["User.generate_aggregated_load_profile"])

prop("C09", "Flat appliances are deterministic",
     "A flat='yes' appliance without window variability draws, on its days of use, exactly number x power of the day in every minute of its "
     "windows and nothing elsewhere, whatever is drawn and whatever the other variability parameters.",
     ["inputs", "programs"], "all windows, numbers, powers, days and draws (including extreme ones)",
     "Tests sample the draws and one layout.",
     [CORE], [("flat branch", "Appliance.generate_load_profile")], (), ["User.generate_single_load_profile"])

prop("C10", "Usecase profiles are the day by day sum over users, individuals and appliances",
     "The generated profiles contain, for every day of the calendar in order, the sum over all users of the profiles of "
     "each of their num_users individuals, each an independent sum over all their appliances, evaluated with the type and index of "
     "that day. The flattened result is the same data in chronological order, and cases= returns independent runs, one column each.",
     ["inputs", "programs", "configurations"], "all usecases and calendars, all draws",
     "Tests check lengths of arrays, not that every day, user and individual contributes once and at its own place.",
     [CORE], [("aggregation", "UseCase.generate_daily_load_profiles"), ("individuals",
                                                                   "User.generate_aggregated_load_profile")],
     (), ["UseCase.generate_daily_load_profiles"])

prop("C11", "Parallel processing is equivalent to sequential, for any scheduling",
     "With parallel processing, for every assignment of tasks to processes and every order of completion, all (day, "
     "individual, appliance) contributions are summed once in the row of their day, and the profiles follow the same law "
     "as sequential ones: the same daily preference for all appliances of an individual and independent draws otherwise. "
     "For a given seed the result does not depend on the scheduling nor on the number of processes.",
     ["schedules", "inputs"], "all schedules of the worker pool and all draws",
     "A test run sees one schedule of the pool, and duplicated random streams or lost shared state look like plausible noise.",
     [CORE], [("tasks", "UseCase.generate_daily_load_profiles_parallel"), ("worker",
                                                                      "single_appliance_daily_load_profile")],
     (), ["UseCase.generate_daily_load_profiles"])

prop("C12", "A seed makes results exactly reproducible",
     "Two usecases with the same definition, calendar and random_seed (0 included) generate bit-identical profiles (sequentially as well "
     "as in parallel), whatever the process did or drew before, whether the dates are given at creation "
     "or later, in this or another process.",
     ["histories", "configurations", "schedules"], "all earlier histories of the process, modes, schedules, seeds",
     "Tests compare two runs of one configuration in one history.",
     [CORE], [("seeding", "UseCase.__init__"), ("seeds of the tasks", "UseCase.generate_daily_load_profiles_parallel")],
     (), ["UseCase.generate_daily_load_profiles"])

prop("C13", "Generating profiles has no memory and does not alter definitions",
     "The law of a generated profile does not depend on anything generated, saved, compared, printed or peak-analysed before, by the same or "
     "other objects, and none of these operations changes the saved definition of the users and appliances. Results "
     "already returned never change afterwards, and modifying them has no effect on later results.",
     ["histories"], "all sequences of operations up to a depth, all draws",
     "Leaks of state between days or objects need a history; tests start from fresh objects.",
     [CORE], [("daily state reset", "Appliance.generate_load_profile")],
     [("daily_use, free_spots, random_cycle*, current_duty_cycle_id, rand_daily_pref, load", "per day state", CORE)],
     ["User.generate_single_load_profile", "User.save"])

prop("C14", "The calendar follows the dates and number of days of the last initialisation",
     "After initialisation the simulated days are: the dates from date_start to date_end; num_days from date_start when num_days is given or there is no date_end; num_days until "
     "date_end when only the end is known; num_days from today without dates. A second initialize() only takes effect with "
     "force, using the current dates; the minute index covers exactly these days, and a failed initialisation leaves the usecase uninitialised. "
     "generate_daily_load_profiles(days=...) simulates exactly the given days.",
     ["histories"], "all sequences of date changes, initialisations, additions of users, loads and generations up to a depth",
     "Tests cover single calls; the interplay of force, num_days and changed dates is a state machine.",
     [CORE], [("calendar", "UseCase.initialize"), ("state", "UseCase.is_initialized")],
     [("days, num_days, datetimeindex", "calendar of the usecase", CORE)],
     ["UseCase.days", "UseCase.num_days", "UseCase.datetimeindex", "UseCase.generate_daily_load_profiles"])

prop("C15", "Power series are taken day by day and too short ones are refused",
     "On the i-th simulated day an appliance uses the i-th value of its power series (DataFrame, JSON text of one or two columns) "
     "or its constant power, however long the simulation. A series shorter than the simulation is refused with a ValueError "
     "when the usecase is initialised or loaded, however and whenever the appliance was added, and is never silently wrapped or truncated.",
     ["inputs", "histories"], "all lengths, kinds of power and orders of construction",
     "Tests check one too short series; the check must hold for every order of adding users and dates.",
     [CORE], [("length check", "Appliance.check_power_values"), ("parsing", "Appliance.__init__")],
     [("power", "daily powers", CORE)], ["UseCase.initialize", "UseCase.generate_daily_load_profiles"])

prop("C16", "Peak time range: around the maximum of the theoretical profile",
     "The theoretical maximum profile is the sum over users of num_users x number x mean power inside the declared "
     "windows, independent of what was generated. The peak time is drawn from a gaussian centred on the mean of the minutes "
     "where that profile is maximal with a third of their extent as deviation, and the peak range extends on both "
     "sides by the absolute value of a gaussian of deviation peak_enlarge x peak time, one minute at least.",
     ["inputs", "programs"], "all sets of appliances and draws",
     "The peak range is internal to tests' seeded runs; its law and the independence from earlier generations are not sampled.",
     [CORE], [("maximum profile", "Appliance.maximum_profile, User.maximum_profile"), ("peak range",
                                                                                  "UseCase.calc_peak_time_range")],
     [("peak_time_range", "peak minutes", CORE)], ["UseCase.peak_time_range"])

prop("C17", "Saving and loading a usecase preserves every definition",
     "A usecase saved to .xlsx and loaded again has the same users in the same order (names, numbers of individuals, preferences) with the "
     "same appliances in the same order and equal parameters, including windows, cycles and power series, and generates the same "
     "profiles for the same seed. Saving again produces the same content.",
     ["inputs"], "all users and appliances, every parameter at and away from its default",
     "Tests round-trip one parameter at a time for a few values; parameters interact through types of columns and empty cells.",
     [CORE, UTILS], [("save", "Appliance.save, UseCase.save"), ("load", "UseCase.load, read_input_file")], (),
     ["UseCase.save", "UseCase.load"])

prop("C18", "Input files: blank optional cells mean defaults, malformed ones are refused",
     "In an input file, blank or missing optional cells and columns give the documented defaults, without influence of a cell on other rows; power "
     "may be a number, a JSON text or a reference to a one or two column range of 366 rows of another sheet, all giving "
     "the same series. Wrong lengths, more than two columns, invalid text and inconsistent user rows raise ValueError.",
     ["inputs"], "all patterns of blanks over the columns and rows, all kinds of power cells",
     "Tests read files written by save(), where no cell is blank.",
     [CORE, UTILS], [("parsing", "read_input_file"), ("rows to appliances", "UseCase.load")], (), ["UseCase.load"])

prop("C19", "All ways to define an appliance are equivalent and validated",
     "add_appliance with keywords, positional arguments, Appliance objects, the legacy Appliance()/windows()/specific_cycle_*()/cycle_behaviour() "
     "calls, and loading from a file give equal appliances. Declaring fewer windows than "
     "num_windows, or windows shorter in total than func_time, raises InvalidWindow and leaves the user without the appliance; non-users and "
     "non-appliances are refused; an appliance belongs once to the user it was added to.",
     ["inputs", "histories"], "all parameter subsets and ways of definition",
     "Tests cover single ways with few parameters.",
     [CORE], [("definition", "User.add_appliance, Appliance.windows, Appliance.specific_cycle"),
              ("validation", "Appliance.windows, UseCase.add_user")], (), ["User.App_list", "User.save"])

prop("C20", "Equality of appliances and users is exact",
     "Two appliances are equal exactly when all their saved parameters are equal (a constant power is equal to itself "
     "whatever the simulated length), and comparison is symmetric and never raises. Two users are equal "
     "exactly when their names, numbers, preferences and appliances are equal.",
     ["inputs"], "all single and pairwise differences of parameters",
     "Tests compare a few objects; a parameter missing from the comparison is only seen when exactly that one differs.",
     [CORE], [("equality", "Appliance.__eq__, User.__eq__")], (), ["Appliance.__eq__", "User.__eq__"])

prop("C21", "The command line simulates the requested inputs, calendars and outputs",
     "For every accepted combination of -i, -o, -n, -y, --start-date, --end-date and -p, each input is simulated "
     "once over exactly the requested calendar and its series written to its own output file (or default location), complete and in order; -y with a folder of 12 inputs "
     "produces one year profile at minute and hour resolution, month by month. Contradictory options raise ValueError before writing anything.",
     ["inputs", "configurations"], "all combinations of options over small domains",
     "Tests call single functions; the option matrix is not covered.",
     ["ramp/cli.py", "ramp/ramp_run.py"], [("options", "ramp.cli.main"), ("run", "run_usecase")], (),
     ["files written by ramp.cli.main"])

prop("C22", "Converting legacy .py inputs to .xlsx preserves the model",
     "Converting a legacy input file gives an .xlsx file which loads into the same users and appliances as those the "
     "python file defines, named after their variables, in the requested folder and with the requested suffix; converting again gives the same result "
     "and the python file still defines the same model.",
     ["inputs", "histories"], "shipped and generated input files, all ways to give paths, repeated conversions",
     "Tests convert the shipped files from one location.",
     ["ramp/ramp_convert_old_input_files.py", CORE],
     [("conversion", "convert_old_user_input_file")], (), ["files written by ramp_convert"])

prop("C23", "Results and Plot objects keep, export and aggregate the data exactly",
     "Exported series and Plot files read back to the same values, index and columns; selections, resampling, mean, sum, error, peak and "
     "load duration curve are computed from exactly the selected data; "
     "no operation except the explicit in-place ones modifies the data of the Plot.",
     ["inputs", "histories"], "all small frames and sequences of Plot operations up to a depth",
     "There are no tests of the values returned by Plot.",
     ["ramp/post_process/post_process.py"], [("export", "export_series, Profile_formatting"), ("Plot", "class Plot")], (),
     ["Plot", "export_series"])

prop("C24", "Generation always completes for documented parameters",
     "For every appliance definition within the documented ranges, generating a daily profile "
     "ends without error whatever is drawn, with 1440 finite non negative values; the only exception is the documented ValueError when "
     "func_cycle does not fit in 99% of the randomised window time. Unlucky draws (a switch-on event outside of the duty cycle windows) may be "
     "repeated any finite number of times, and the generation ends as soon as a lucky one comes: no endless loop remains where none can come.",
     ["inputs", "programs"], "a covering grid of all parameters with their extreme values, all draws up to a number of deviations",
     "Crashes and endless loops appear for rare draws (empty windows, no reachable cycle window, zero-length cycles).",
     [CORE, UTILS], [("generation", "Appliance.generate_load_profile"), ("retry", "Appliance.rand_switch_on_window")],
     (), ["User.generate_single_load_profile"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps(p) + "\n")
print(len(P), "properties")
