"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json, os
P = []


def add(id, title, statement, over, qtext, why, files, mech, state=None,
        observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext},
         'why_tests_cant': why,
         'anchors': {'files': ['bicycleparameters/' + f for f in files],
                     'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': x} for x in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


add('P01', 'A save leaves the old or the new file, never a mixture',
    'When parameters, oscillation periods, parameter sets or tables are saved to a file, then at every moment - also after a disk error, a full disk, a killed process, a power loss, or while another process saves or reads the same file - that file holds either its complete previous content or one complete new content, and no other existing file has changed. '
    'A save that reports success without an interruption has stored the new content, and a disk error reaches the caller as an error. '
    'Whatever interrupted a save, the bicycle can still be opened afterwards, and left-overs of the interrupted save are never taken for data.',
    ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
    'every kind of save, every prior content, every disk call at which an error, kill or power loss can strike, and every interleaving of two savers and a reader',
    'A test sees the files after an undisturbed save; it cannot visit each disk call of the save with each errno, kill and power loss, or the interleavings of two savers.',
    ['io.py', 'main.py', 'parameter_sets.py', 'tables.py'],
    [('parameter file writer', 'io.py write_parameter_text_file'),
     ('period writer', 'io.py write_periods_to_file'),
     ('saving a bicycle', 'main.py Bicycle.save_parameters'),
     ('YAML and INI writers', 'parameter_sets.py ParameterSet.to_yaml, to_ini'),
     ('table writer', 'tables.py Table.create_rst_table')],
    ['the saved file', 'its directory'], ['file system calls'])

add('P02', 'Recalculating periods never loses raw measurements',
    "Loading a bicycle with a forced or automatic period calculation changes only the recalculated period entries of its raw measurement file: every other measured value, comment line and period is still there, with the same value, after any history of recalculations, damaged or missing recordings, disk errors, crashes and manual edits. "
    "When parameters are calculated from raw data, the periods are recalculated exactly if that is requested or the file holds too few of them; afterwards the file and the bicycle hold each recalculated period exactly once with the average over all recordings that carry its key, and if a recording cannot be used the calculation fails and the raw file is unchanged.",
    ['histories', 'fault_sequences', 'crash_points', 'inputs'],
    'every history of loads with and without forced calculation, recordings added, damaged and removed, file edits, disk errors and crashes',
    'The loss shows only after particular sequences (a partial set of recordings, then a forced calculation, then a load), which tests of single calls do not form.',
    ['main.py', 'io.py', 'period.py'],
    [('deciding and running the calculation', 'main.py Bicycle.calculate_from_measured'),
     ('key and average of the recordings', 'period.py calc_periods_for_files, get_period_key, check_for_period'),
     ('rewriting the file', 'io.py write_periods_to_file')],
    ['<name>Measured.txt', 'RawData/*.mat'], ['the raw file after each step'])

add('P03', 'Existing parameter files are overwritten only after a yes',
    "Saving parameters over a file that already exists asks first, and the file is replaced only if the user answers y; after n, end of input, an interrupt or any amount of other replies it is unchanged. "
    "This also holds when the existing file cannot be opened, is empty or damaged, and for each file of a save that writes several. "
    "Saving to a new file asks nothing and creates missing directories, and the save reports true exactly when the file now holds the new parameters.",
    ['inputs', 'fault_sequences', 'histories'],
    'every sequence of replies at the keyboard, every state of the target path and every failing open of it, over histories of saves with and without rider',
    'Interactive replies, end of input, interrupts and unreadable targets combine with multi-file saves; tests avoid the prompt altogether.',
    ['io.py', 'main.py'],
    [('asking', 'io.py write_parameter_text_file'),
     ('multi-file saves', 'main.py Bicycle.save_parameters')],
    ['the target files'], ['standard input and output', 'the target files'])

add('P04', 'Saving and reloading returns the same bicycle',
    "After saving a bicycle, a new process that loads it gets for every parameter set, with or without rider, the saved parameters: the same names, nominal values equal to within the printed precision of their uncertainty and otherwise exactly, and uncertainties to their one or two printed digits. "
    "Further cycles of loading and saving change nothing any more, each parameter set goes into its own file that only that set loads from, and a saved rider can be added again to give the same combined bicycle. "
    "Files written by hand in the documented format (comments, blank lines, spaces, averaged lists) load as the values they state.",
    ['histories', 'inputs'],
    'every history of save, reload, edit, rider and second-bicycle steps over random parameter sets with and without uncertainties',
    'Drift, mixed-up sets and accumulating names only show after several save and reload steps with several sets, riders and bicycles.',
    ['io.py', 'main.py'],
    [('text reader and writer', 'io.py load_parameter_text_file, write_parameter_text_file'),
     ('names of the files', 'main.py Bicycle.save_parameters, Bicycle.__init__'),
     ('reloading a rider', 'main.py Bicycle.add_rider')],
    ['Parameters/*.txt'], ['parameters of the reloaded bicycle'])

add('P05', 'What a bicycle loads depends only on its own files',
    "The parameters a bicycle has after loading are a function of the contents of its own parameter and raw files and the load options: not of the order in which the file system lists directories, of other bicycles or riders, of back-up, hidden, temporary or foreign files lying beside them, of the working directory or of earlier loads in the process. "
    "A bicycle whose benchmark parameters are stored loads exactly those unless recalculation is forced, and without stored benchmark parameters, or when forced, it gets those computed from the raw measurements, loading them again giving the same. "
    "If a file cannot be read the load fails with an error rather than returning a bicycle with parameters missing or changed, and loading creates or changes no parameter file.",
    ['inputs', 'schedules', 'fault_sequences', 'histories'],
    'every directory order, every set of neighbouring files, every failing or short read and every load history',
    'Directory order and debris are environment nondeterminism a test on one machine never varies.',
    ['main.py', 'io.py'],
    [('choosing the files', 'main.py Bicycle.__init__'),
     ('splitting file names', 'io.py space_out_camel_case')],
    ['data directory'], ['Bicycle.parameters'])

add('P06', 'Adding a rider conserves mass properties or changes nothing',
    "A bicycle with a rider has as rear body exactly the composite of bicycle frame and rider: masses and first moments add up and the inertia is that of both bodies about the common mass centre, all other parameters, uncertainties included, stay as they were, and the bicycle says who rides it. "
    "At most one rider is ever on a bicycle - further additions change nothing - and bicycles do not influence each other, however additions, queries, failures and loads are ordered. "
    "An addition that fails, for whatever reason, leaves the bicycle as it was and able to take a rider later.",
    ['histories', 'inputs', 'fault_sequences'],
    'every bicycle and rider, every order of additions, queries and failing reads over several bicycles',
    'Failure in the middle of an addition followed by further use needs multi-step histories with injected faults.',
    ['main.py', 'rider.py', 'inertia.py', 'com.py'],
    [('adding', 'main.py Bicycle.add_rider'),
     ('combining', 'inertia.py combine_bike_rider, com.py total_com'),
     ('seating a measured rider', 'rider.py configure_rider')],
    ['Bicycle.parameters', 'Bicycle.hasRider', 'Bicycle.riderPar'],
    ['the bicycle after each step'])

add('P07', 'Bicycle queries are pure and reflect the current parameters',
    "The canonical matrices, state matrices, eigenvalues, steer-assembly inertia and plots of a bicycle are those of the linearized Whipple equations for the parameters it has at that moment, the same for nominal and uncertain parameters up to rounding. "
    "No query changes the parameters, the caller's arguments or the result of any other query, whatever the order of queries, parameter changes and rider additions. "
    "The same holds for queries running concurrently in several threads on one or more bicycles.",
    ['histories', 'schedules', 'inputs'],
    'every bicycle, every history of queries and changes and every interleaving of threads that query the same bicycle',
    'Stale or leaked state only appears for particular orders and interleavings of queries; tests make one query on one fresh bicycle.',
    ['main.py', 'bicycle.py', 'inertia.py', 'com.py', 'geometry.py'],
    [('queries', 'main.py Bicycle.canonical, state_space, eig, steer_assembly_moment_of_inertia'),
     ('equations of motion', 'bicycle.py benchmark_par_to_canonical, ab_matrix, lambda_from_abc'),
     ('mass properties', 'inertia.py, com.py')],
    ['Bicycle.parameters'], ['query results', 'the parameters after each query'])

add('P08', 'Parameter overrides on models never leak between callers',
    "Matrices, eigenvalues and simulations of a model computed with parameter overrides are those of the model's equations with exactly these parameters replaced, and row k of an array override is the result for the k-th value. "
    "No call changes the parameter set, the caller's parameter dictionary, overrides or arrays, or any later or concurrent result, for any history of calls, failing calls and threads sharing models and parameter sets.",
    ['schedules', 'histories', 'inputs'],
    'every model, every mix of scalar and array overrides and every history or interleaving of calls on shared models',
    'A leak needs two calls with different overrides in a particular order or interleaving.',
    ['models.py', 'bicycle.py', 'parameter_sets.py'],
    [('overrides', 'models.py _Model._parse_parameter_overrides'),
     ('matrices', 'models.py form_reduced_canonical_matrices, form_state_space_matrices, calc_eigen'),
     ('feedback', 'models.py Meijaard2007WithFeedbackModel.form_state_space_matrices')],
    ['parameter_set.parameters'], ['results', 'arguments after each call'])

add('P09', 'Simulations follow the model under any controller',
    "A simulation returns, for exactly the requested times, the solution of the model's linear equations for the given initial condition and input function, and the reported inputs are what the input function returns for the reported times and states; mode simulations are the free responses to the real part of each eigenvector, and the simulation plots draw these trajectories. "
    "It calls the input function only at times within the requested interval, changes neither the initial condition nor the time array nor the model, and gives the same result when repeated or run concurrently with other simulations or from inside an input function. "
    "An error raised by the input function reaches the caller unchanged and leaves the model usable.",
    ['inputs', 'schedules', 'fault_sequences', 'histories'],
    'every model, speed, initial condition, time grid, controller (open loop, feedback, sampled, failing at a chosen time) and interleaving of simulations',
    'A controller that fails in the middle, or two simulations interleaving, are not reached by single calls.',
    ['models.py'],
    [('simulate', 'models.py _Model.simulate, simulate_modes'),
     ('rider lean model', 'models.py MooreRiderLean2012Model.simulate')],
    ['states, inputs'], ['returned trajectories', 'calls of the input function'])

add('P10', 'Web-app users never see or affect each other',
    "Whatever requests of several users the web app serves at the same time and in any interleaving, delay, duplication or abandonment, each response is the one the same request gets on a fresh idle server. "
    "A request that is malformed or fails leaves every later and concurrent response unaffected, and no request changes the bicycle data delivered with the app.",
    ['schedules', 'fault_sequences', 'histories'],
    'every set of sessions and every interleaving, duplication, loss and failure of their requests and of the reads of the data files',
    'Interleavings of concurrent requests inside the callbacks cannot be produced by tests of single requests.',
    ['app.py', 'main.py', 'bicycle.py'],
    [('callbacks', 'app.py populate_wheel_data, plot_update, new_par'),
     ('plots', 'main.py Bicycle._plot_bicycle_geometry_plotly, _plot_eigenvalues_vs_speed_plotly')],
    ['module globals of the app'], ['HTTP responses'])

add('P11', 'The web app shows the bicycle that its tables describe',
    "Choosing a bicycle or resetting fills the tables with that bicycle's stored parameters, each in the row and column of its label, and the plots always show the geometry and the eigenvalues over the selected speed range of exactly the parameters in the tables - after any history of choosing, editing, resetting, and changing the options and the speed range, the same plots whichever event triggered them. "
    "Mass centres, inertia ellipses and the stable speed range are shown exactly when selected, each plot in its own place, and a stable speed range is marked only over speeds at which all modes are stable. "
    "Every selection the controls permit gets an answer.",
    ['histories', 'inputs'],
    'every history of user events on the controls',
    'Consistency between tables and plots depends on which event triggered an update and on the edits before it.',
    ['app.py', 'main.py'],
    [('tables', 'app.py populate_wheel_data'), ('plots', 'app.py plot_update'),
     ('figures', 'main.py Bicycle._plot_bicycle_geometry_plotly, _plot_eigenvalues_vs_speed_plotly')],
    ['table data held by the client'], ['HTTP responses'])

add('P12', 'Period estimates match the recorded oscillation',
    "For a recording of a lightly damped, visibly decaying oscillation - any amplitude, offset, phase, starting direction, supported sampling rate or time base, sensor noise, late release or decay into the noise - the estimated period equals the true damped period to within a small fraction of a percent, and its stated uncertainty is finite, non-negative and not grossly smaller than the actual error. "
    "The estimate is attributed to the pendulum, part and orientation the recording names, and does not depend on other recordings, on the order of processing, or on whether the plot of the fit is new or replaces an old one.",
    ['inputs', 'fault_sequences', 'schedules'],
    'every simulated pendulum, sensor and recording fault in the stated range and every order of the recordings',
    'The fit starts from a guess made from the data, and whether it converges varies over a continuum that samples cannot settle.',
    ['period.py', 'io.py'],
    [('fit', 'period.py get_period, make_guess, select_good_data, jac_fitfunc'),
     ('names', 'period.py get_period_key, get_sample_rate; io.py load_pendulum_mat_file')],
    ['recordings'], ['estimated periods'])

add('P13', "A measurement campaign recovers the bicycle's true parameters",
    "If the raw measurements and recordings of a physical bicycle are consistent, then the benchmark parameters calculated from them are that bicycle's true geometry, masses, mass centres and inertias to within the accuracy of the measurements - whatever the number of orientations, whether the fork is split or a flywheel is fitted, whichever way the geometry was measured, with or without uncertainties, and whether periods come from recordings or from the file. "
    "The result does not depend on the order or history in which measurements arrived, and if a needed measurement is missing the calculation fails instead of returning parameters.",
    ['inputs', 'histories', 'configurations'],
    'every physical bicycle, every measurement layout and every history of a simulated measurement campaign',
    'The inverse problem runs through six modules and many layouts; tests check two stored bicycles.',
    ['main.py', 'geometry.py', 'com.py', 'inertia.py', 'period.py'],
    [('pipeline', 'main.py calculate_benchmark_from_measured'),
     ('geometry', 'geometry.py calculate_benchmark_geometry, calculate_abc_geometry, fwheel_to_handlebar_ref'),
     ('mass centres', 'com.py part_com_lines, center_of_mass'),
     ('inertias', 'inertia.py inertia_components, tor_inertia, compound_pendulum_inertia')],
    ['<name>Measured.txt', 'recordings'], ["parameters['Benchmark']"])

add('P14', 'Plotting draws only on its own figure and leaks nothing',
    "Every plotting call draws only on the axes or figure it was given or on a new figure it returns: all other open figures, the one the caller was drawing on included, the other axes of a given figure, what was already drawn on a given axes and the global plot settings are unchanged, and the current figure changes only to a new figure that the call returns, for any history of plotting calls, failing calls and user figures in between. "
    "The same calls on a figure give the same drawing whatever was plotted elsewhere before or in between, and calculations that only save a plot to a file leave no figure open, even when writing that file fails.",
    ['histories', 'fault_sequences', 'inputs'],
    'every history of plotting calls over all plotting entry points with user figures in between and failing plot files',
    'Cross-talk through the current figure depends on what was plotted before and between.',
    ['period.py', 'plot.py', 'models.py', 'main.py', 'parameter_sets.py'],
    [('fit plots', 'period.py get_period, plot_osfit'),
     ('eigenvalue plots', 'plot.py plot_eigenvalues, main.py Bicycle.plot_eigenvalues_vs_speed, models.py _Model.plot_eigenvalue_parts'),
     ('geometry plots', 'main.py Bicycle.plot_bicycle_geometry, parameter_sets.py plot_geometry')],
    ['pyplot figure registry', 'rcParams'], ['artists of every open figure'])

add('P15', "Tables are repeatable reports of their bicycles' parameters",
    "A table has one row for each parameter that any of its bicycles has and, for each bicycle in the given order, the value and uncertainty of that parameter rounded to the uncertainty, or NA where there is none. "
    "Producing the table any number of times, in any format, returned or saved to a file, gives the same well-formed text each time, and neither changes the bicycles nor other tables, whatever queries, riders or other tables came before.",
    ['histories', 'inputs', 'fault_sequences'],
    'every set of bicycles and every history of queries, table creations and failing saves',
    'Repeating and mixing table creation with queries changes the outcome only in sequences tests do not form.',
    ['tables.py', 'bicycle.py'],
    [('table', 'tables.py Table.generate_variable_list, generate_table_data, create_rst_table'),
     ('rounding', 'tables.py uround')],
    ['Table.tableData', 'Bicycle.parameters'], ['table text'])

add('P16', 'Parameter set files preserve the values',
    "A parameter set of any kind written to a YAML file and read back, by any later process, is the same set: same kind, names, values to the last bit, and whether a rider is included. "
    "An INI file lists each parameter once with its value to at least 16 decimals. "
    "This holds for sets converted from other kinds and for any history of conversions, writes over existing files and failed writes, and writing never changes the set.",
    ['histories', 'inputs', 'fault_sequences'],
    'every kind of parameter set, every history of conversions, writes, failed writes and reads',
    'A set that only fails to come back after a conversion, or after replacing a longer file, is missed by single-step tests.',
    ['parameter_sets.py'],
    [('YAML', 'parameter_sets.py ParameterSet.to_yaml, _from_yaml'),
     ('INI', 'parameter_sets.py ParameterSet.to_ini'),
     ('conversion', 'parameter_sets.py to_parameterization')],
    ['the written files'], ['the set read back'])

add('P20', 'A calculated rider sits on the bicycle it is calculated for',
    "A rider calculated for a bicycle leans as its configuration file says, and if the body can reach, its hips are at the saddle, its feet at the bottom bracket and its hands as far from the wheel hubs and from each other as measured, for the dimensions the bicycle has at that time, with the left side the mirror image of the right and knees and elbows bent the way they bend. "
    "The rider's parameters are the mass, mass centre and central inertia of exactly that body in the bicycle's axes, and the geometry plot draws the rider through its joints. "
    "This holds for every history of riders, adjustments of bicycle, posture and body, failed reads and riders calculated in parallel threads; a failed attempt changes nothing.",
    ['histories', 'inputs', 'schedules', 'fault_sequences'],
    'every bicycle and body that fit each other, every history of fittings, every failed read, every interleaving of threads',
    'A rider that depends on who was calculated before, or a posture solver that fails for some bodies, gives plausible numbers in every single test.',
    ['rider.py', 'main.py'],
    [('posture', 'rider.py rider_on_bike'),
     ('inertia in the bicycle frame', 'rider.py configure_rider, yeadon_vec_to_bicycle_vec'),
     ('adding', 'main.py Bicycle.add_rider'),
     ('stick figure', 'main.py Bicycle.plot_bicycle_geometry')],
    ['the parameters, posture and figure of the bicycle'], ['where the joints are in the plane of the bicycle'])

add('P17', 'Parameter sets answer, draw and convert for the values they hold',
    "A set converted to another parameterization describes the same bicycle: same geometry, masses, mass centres, inertias, eigenvalues and rider flag, and gains of zero where it had none. "
    "The mass centre of any group of bodies, inertia tensors, the table shown in notebooks and every drawing (wheels, frame, steer axis, mass centres, radii of gyration, inertia ellipses, rider) are those of the values the set holds at that time, drawn with z down on the axes that were given. "
    "This holds for every history of edits, conversions, conversions of conversions, questions, drawings and failing allocations, and in threads that share sets; only an edit changes a set, and only the set edited. Incomplete sets are refused.",
    ['histories', 'inputs', 'schedules', 'fault_sequences'],
    'every parameter set, every history of edits, conversions, questions and drawings, every interleaving of threads',
    'A stale or shared derived value, or a sign that only shows for a tilted body, agrees with every single test on the sample parameters.',
    ['parameter_sets.py', 'conversions.py', 'geometry.py', 'inertia.py'],
    [('conversion', 'parameter_sets.py to_parameterization, conversions.py'),
     ('questions', 'parameter_sets.py mass_center_of, form_mass_center_vector, form_inertia_tensor, _repr_html_'),
     ('drawing', 'parameter_sets.py plot_geometry, plot_body_*, plot_person_diamond, plot_all')],
    ['the parameter sets and the artists on the axes'], ['the answer and the drawing'])

add('P19', 'Uncertainties are propagated to first order',
    "The uncertainty of every parameter calculated from measurements, of a bicycle with a rider, and of the canonical, state and steer assembly inertia matrices is the first-order propagation of the uncertainties of the independent values they come from (measurements, stored parameters, riders, values set by the user), common causes included, and values without uncertainty contribute none. "
    "This holds for both ways to measure the geometry, split and whole forks, any number of orientations, and for every history of loads, corrected measurements and parameters, riders, failed reads and queries, in threads too; asking for nominal values gives the same values without uncertainty.",
    ['histories', 'inputs', 'schedules', 'fault_sequences'],
    'every set of measurements and uncertainties, every history of loads, corrections, riders and queries, every interleaving of threads',
    'A lost or doubled correlation gives plausible uncertainties; tests compare nominal values.',
    ['main.py', 'inertia.py', 'com.py', 'geometry.py', 'bicycle.py'],
    [('pipeline', 'main.py calculate_benchmark_from_measured'),
     ('geometry', 'geometry.py calculate_benchmark_geometry, bicycle.py lambda_from_abc'),
     ('rider', 'inertia.py combine_bike_rider'),
     ('matrices', 'main.py canonical, state_space, steer_assembly_moment_of_inertia')],
    ['the uncertain values of the bicycle'], ['the uncertainties of the answers'])

# not decided by this family
add('P18', 'Sorting eigenmodes only reorders them',
    "Sorting the eigenmodes over a parameter returns, at each value, the same eigenvalues with their own eigenvectors in another order.",
    ['inputs'], 'every sequence of eigenvalues and eigenvectors',
    'It is a property of all inputs of one function.',
    ['bicycle.py'], [('sorting', 'bicycle.py sort_eigenmodes, sort_modes')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
