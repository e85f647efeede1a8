"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


SIM = 'demod/simulators/'
UT = 'demod/utils/'

prop('C01', 'Categorical sampling inverts the distribution it is given',
     'For every valid discrete distribution (given as probabilities or cumulated) and every uniform draw in [0,1), the sampled outcome is the index whose cumulative interval contains the draw. It is therefore always a valid index, is drawn for each row of a batch from that row only, and an outcome of probability zero is never returned, even when the last cumulative value falls short of one by rounding.',
     ['inputs'], 'all distributions of up to 4 (quick) / 6 (thorough) outcomes and up to 3 rows, all uniform draws',
     'Tests draw a few random samples from a few fixed distributions; boundary draws (equal to a cumulative value, 0, or beyond a rounded last value) have probability about zero.',
     [UT + 'monte_carlo.py'], [('first index whose cdf exceeds the draw', UT + 'monte_carlo.py')], ['returned indices'])

prop('C02', 'Distribution checks and rescaling accept, reject and normalise correctly',
     'The validity check accepts exactly the cumulative distributions that never decrease, stay within [0,1] and end at one within its tolerance, and raises an error for all others. Rescaling a distribution refuses one whose total is off by more than the tolerance and otherwise returns an array of the same shape whose rows total (or end at) one and keep the original proportions.',
     ['inputs'], 'all real arrays of up to 2 rows x 4 entries, 1-D to 3-D shapes',
     'Tests use a few hand-written distributions; acceptance is a statement about every array.',
     [UT + 'distribution_functions.py'], [('range / monotonicity / end checks', UT + 'distribution_functions.py')], ['return value or exception'])

prop('C03', 'Population allocation places every household exactly once',
     'Distributing a number of households over the classes of a population returns one non-negative count per class, and the counts add up to the requested number. A class of zero probability receives no household, and the proportional allocation gives each class less than two households more or less than its expected share.',
     ['inputs'], 'all probability vectors of up to 4 classes, 1 to 6 households, both sampling algorithms, all draws',
     'Tests sample a handful of vectors and sizes; edge classes, rounding of the last cumulative value and n=1 are not covered.',
     [SIM + 'util.py', SIM + 'load_simulators.py'], [('cdf lookup of evenly spaced points or draws', SIM + 'util.py')], ['returned counts'])

prop('C04', 'A sparse transition matrix behaves like the dense matrix it encodes',
     'A sparse set of time-dependent transition matrices reads back, per time (taken modulo the period), exactly the dense matrices that were stored, replacing the matrix of one time leaves all the others unchanged, and inputs of unequal lengths are refused. A sampled transition from a state at a time always ends in a state reachable with positive probability from that state at that time, is the one whose cumulative interval contains the draw, and sampling never alters the matrix.',
     ['inputs', 'histories'], 'all matrices of up to 3 states x 2 times (thorough 3x3), any sparsity, all sets of current states of up to 3 subjects, all draws in [0,1), short assign/read sequences',
     'Two tests cover one fixed matrix; the flattened sampling breaks only for particular draws, row contents or orderings.',
     [UT + 'sparse.py'], [('flattened cumulative sums offset by row rank', UT + 'sparse.py')], ['matrices read', 'sampled states'])

prop('C05', 'Day and refresh events fire on exactly the right simulation steps',
     'During any simulation, an action attached to a new day happens on exactly those steps that move the clock to another calendar day, and one attached to 4 am on exactly those steps that move the clock past 4 am, whatever the date (month and year ends, leap days included), starting time and step size up to one day. Actions attached to the refresh time happen on exactly those steps that start at the refresh time, and "before" actions see the state before the step while "after" actions see the state after it.',
     ['inputs', 'histories'], 'all start times in 2000-2037 and all step sizes of 1 s to 24 h, two consecutive steps; each step is decided from an arbitrary current time so runs of any length are covered by induction',
     'Tests step through one or two days of January; month ends, leap days and large steps are never reached.',
     [SIM + 'base_simulators.py'], [('step decorators comparing date and hour', SIM + 'base_simulators.py')], ['order and number of calls'])

prop('C06', 'The simulation clock starts where asked and advances by one step per step',
     'Initialising a time-aware simulation for an earlier time performs exactly the number of whole steps that fit before the requested start, so that the clock ends at the requested start and the step counter shows that many steps; an initialisation later than the start is refused. Each later step advances the clock by exactly one step size and the counter by one, and the number of households must be positive and the initial step count a non-negative integer, otherwise an error is raised.',
     ['inputs', 'histories'], 'all start times and step sizes, initialisation as time of day, date-time, duration or absent, up to 4 initial steps',
     'Tests use a few round numbers; remainders and day wrap-around of a time-of-day initialisation are unexplored.',
     [SIM + 'base_simulators.py'], [('whole-step count and remainder', SIM + 'base_simulators.py')], ['clock and step counter'])

prop('C07', 'The logger records what the simulator showed, once per step',
     'A recorded series holds, for each step taken after initialisation, the value the simulator reported at the start of that step, in order, with no step lost or duplicated: n steps give n entries. Aggregated quantities are the sum over households and non-aggregated ones the full array, dictionaries are recorded per key, later changes of the simulator do not alter recorded values, clearing empties the record, and copying or attaching a logger never shares recorded data.',
     ['inputs', 'histories'], 'all reported values, up to 3 households and up to 3 steps, any mix of aggregated/non-aggregated/dictionary attributes',
     'Tests check lengths and a few constant series; aliasing and off-by-one depend on the history of the values.',
     [SIM + 'base_simulators.py'], [('visit after each step, last entry dropped', SIM + 'base_simulators.py')], ['logged arrays'])

prop('C08', 'Grouped simulators behave as their parts side by side',
     'A simulator made of several sub-simulators reports, for every quantity, the concatenation of the parts in order, and its number of households is the sum. Each step gives every part exactly its own slice of each input, quantities are never stale after a step, a single household can be read by its overall index, and selecting a subgroup marks exactly the households of the parts that match it.',
     ['inputs', 'histories'], '2-3 sub-simulators of 1-3 households, all inputs and states, up to 2 steps',
     'Tests use one or two equally sized parts with constant inputs, so wrong offsets or stale values are invisible.',
     [SIM + 'base_simulators.py'], [('running household offset; per-step cache', SIM + 'base_simulators.py')], ['getters of the grouped simulator'])

prop('C09', 'Markov simulations only take possible transitions of the current time',
     'At every step each subject moves to a state with positive probability in the row of its current state in the matrix of the current time of day, and the initial state has positive probability in the initial distribution. The matrices are used in cyclic order, one per step starting with the one of the starting time, whatever the number of steps; when the matrices are replaced, subjects keep their labelled state.',
     ['inputs', 'histories'], 'all transition matrices of up to 3 states and 2-3 times, 2 subjects, all draws, up to 3 steps across the wrap-around',
     'Tests run simulations with random draws and check types/lengths only.',
     [SIM + 'activity_simulators.py', SIM + 'sparse_simulators.py'], [('iteration over the matrices, label remapping', SIM + 'activity_simulators.py')], ['states after each step'])

prop('C10', 'Semi-Markov states last exactly their sampled duration',
     'In semi-Markov simulations a state is kept until its sampled duration has elapsed and changes only then, to a state possible at that time from the previous one. The new duration is drawn from the distribution that belongs to the new state and time, and only durations of positive probability occur.',
     ['inputs', 'histories'], 'all duration and transition distributions of 2-3 states, 2-3 times and 3 durations, all draws, up to 3 steps',
     'Durations interact with random draws over many steps; the tests never look at them.',
     [SIM + 'activity_simulators.py'], [('remaining-duration counters', SIM + 'activity_simulators.py')], ['states and remaining durations'])

prop('C11', 'Household activity totals count every resident exactly once',
     'In the person-based activity simulation every simulated person belongs to exactly one household, each household has as many persons as residents, and persons of a household keep their subgroup. The number of occupants performing an activity in a household is the number of its own persons in that activity, so totals over households equal totals over persons, occupancy never exceeds the number of residents and active occupancy never exceeds occupancy.',
     ['inputs', 'configurations'], 'compositions of up to 3 household subgroups with up to 3 residents and 3 persons subgroups, arbitrary activity of every person',
     'The tests use one data set and check shapes; a wrong person-to-household mapping conserves shapes.',
     [SIM + 'activity_simulators.py'], [('person to household mapping', SIM + 'activity_simulators.py')], ['activity and occupancy getters'])

prop('C12', 'Encoded household activities conserve the residents',
     'In the sparse household-state simulation every household state decodes to a number of persons per activity, and for every household these numbers are between zero and the number of residents. Occupancy, active occupancy and the count for each activity are those of the decoded state, and changing the day or the matrices keeps the activities of each household; each step uses the matrices of the current day and time.',
     ['inputs', 'histories'], 'all household states of up to 2 residents and 3 activities (all codes), arbitrary label orders',
     'Data-dependent: the available data exercises few codes and the modules cannot be run by the tests without downloads.',
     [SIM + 'sparse_simulators.py'], [('positional encoding of activity counts; relabelling', SIM + 'sparse_simulators.py')], ['activity and occupancy getters'])

prop('C13', 'Occupancy and thermal gains follow from the four occupancy states',
     'In the four-state occupancy model the state of a household gives the number of persons at home and the number awake; occupancy, active occupancy (at home and awake, never more than either) and the other reported counts are these numbers for every possible state. The heat given off by occupants is the sum over active and inactive occupants of their unit gains, so it is zero for an empty house and never decreases with the number of persons at home. Every step uses the transitions of its time of day for its kind of day (working day or weekend).',
     ['inputs'], 'all states of households of up to 5-6 residents',
     'Tests check the sign and shape on sampled states.',
     [SIM + 'activity_simulators.py', SIM + 'crest_simulators.py', SIM + 'sparse_simulators.py'], [('decimal state code', SIM + 'activity_simulators.py')], ['occupancy getters, thermal gains'])

prop('C14', 'Appliances run for exactly their cycle and only when they may start',
     'An appliance can be on only in a household that owns it; it starts only when it is available, off and (for appliances driven by activities or occupancy) when the required activity or active occupancy allows it. Once on it stays on for its cycle duration counted in steps and then switches off, unless it is of the kind that stops when nobody is active, which it then does at once.',
     ['inputs', 'histories'], 'all appliance states, ownerships, activities and draws for up to 2 households x 3 appliances, one or two steps from an arbitrary valid state',
     'None of the appliance simulators runs in the existing tests without downloads; lifecycles depend on rare draws.',
     [SIM + 'appliance_simulators.py'], [('remaining-step counters and switch-on masks', SIM + 'appliance_simulators.py')], ['on/off state, remaining steps'])

prop('C15', 'Appliance power and water add up from what is switched on',
     'The power of a household is at every step the sum over its appliances of the stand-by power of those owned and off and the operating power (rated value or the current point of its load profile) of those on; unowned appliances consume nothing and no power is negative. Hot and total water demand likewise is the sum over the water-using appliances that are on.',
     ['inputs'], 'all on/off patterns, ownerships, ratings, profile positions for up to 2 households x 3 appliances',
     'Appliance simulators are not run by the tests without downloads; sums hide single wrong appliances.',
     [SIM + 'appliance_simulators.py'], [('masked sums over appliances', SIM + 'appliance_simulators.py')], ['power and water getters'])

prop('C16', 'Ownership and targets are looked up per appliance without loss',
     'For every list of appliances, ownership probabilities and yearly targets are those of the closest matching type, the k-th appliance of the same type takes the k-th entry for that type (zero if there is none), and types without a match keep their own default. Splitting a mean number of owned appliances into probabilities gives values within [0,1] that start with the probability of owning one and add up to the mean number.',
     ['inputs'], 'all values; appliance lists of up to 4 types including parents and repetitions; all ownership pairs with up to 4 appliances',
     'Tests check a few literal lists and numbers.',
     [UT + 'appliances.py'], [('type counter and parent search', UT + 'appliances.py')], ['returned arrays'])

prop('C17', 'Lighting follows daylight and active occupants',
     'Lighting power is never negative, never exceeds what is installed (or the use per active occupant), and is zero in the occupancy-proportional model when irradiance is above the upper threshold or nobody is active, and full below the lower threshold, decreasing in between. In the bulb model a bulb is on only while its remaining time lasts, is switched on only when occupants are active and the light is low enough for the household (or, for one draw in twenty, whatever the light), and the household power is the sum of its bulbs that are on.',
     ['inputs', 'histories'], 'all irradiances, thresholds, occupancies, bulb powers, remaining times and draws; up to 2 households x 2-3 bulbs, one or two steps',
     'Tests only construct the simulators and check shapes.',
     [SIM + 'lighting_simulators.py'], [('linear interpolation; bulb timers', SIM + 'lighting_simulators.py')], ['lighting power'])

prop('C18', 'Thermostats keep their dead-band and system controls never contradict them',
     'A thermostat calls for heat below its set point minus its dead-band, stops above set point plus dead-band and otherwise keeps its previous decision, independently for each household and each quantity (hot water, room, emitters). Space heating is requested only if both room and emitter thermostats ask for it; hot water when its thermostat asks or, for combi boilers and households with an external cylinder in the current step, when hot water is drawn. A supplied set point or external cylinder temperature applies only to the households for which it is given and is never altered.',
     ['inputs', 'histories'], 'all temperatures, set points, dead-bands, previous decisions and overrides for up to 3 households and 3 steps',
     'Heating modules do not run in the tests without downloads; hysteresis shows only for particular histories.',
     [SIM + 'heating_simulators.py'], [('hysteresis masks', SIM + 'heating_simulators.py')], ['control signals'])

prop('C19', 'Heat production is bounded, prioritised and accounted for',
     'The heat delivered for hot water and space heating is never negative, their sum is the total delivered and never exceeds the capacity of the household\'s system (the larger of its hot water and space heating capacities), hot water being served first and space heating with what is left. Nothing is delivered when not requested, power and fuel are proportional to the heat delivered, in their documented units, and only count for the households having that kind of system. Externally imposed outputs replace the delivered heat exactly where given, with total and power (none for those households) consistent, without changing the caller\'s data; all characteristics of a household come from one system and one building type.',
     ['inputs'], 'all demands, capacities, controls and partial overrides for up to 3 households of several system types',
     'Heating modules do not run in the tests without downloads; saturation and partial overrides need specific values.',
     [SIM + 'heating_simulators.py'], [('clipping and priority', SIM + 'heating_simulators.py')], ['heat outputs, power, fuel consumption'])

prop('C20', 'Building heat balance conserves energy and heat demand reaches the target',
     'For any temperatures, gains, heat inputs and step size, one thermal step changes the stored energy of emitter, building, room and cylinder by exactly the heat delivered plus gains minus the losses to outside and to drawn water, with no flow between parts that are at the same temperature. The heat demand computed (with the default algorithm, that heats the emitters), if delivered in full, brings the emitter and the cylinder to their set points plus dead-band after one step of the configured size; no demand is reported for what the controls do not request.',
     ['inputs'], 'all real temperatures, coefficients and gains, step sizes from 1 s to 1 h, 1-3 households, 1-2 steps',
     'Energy balance is an identity over all reals; heating modules do not run in the tests without downloads.',
     [SIM + 'heating_simulators.py'], [('explicit Euler balance', SIM + 'heating_simulators.py')], ['temperatures, heat demand'])

prop('C21', 'External values override exactly where they are given',
     'Overriding simulated values by external ones replaces exactly the entries that are given (not missing) and leaves every other entry, household and quantity as simulated. Neither the external data nor the arrays it replaces are altered.',
     ['inputs'], 'all arrays of up to 4 entries and every pattern of missing entries, dictionaries of 3 quantities',
     'Only a pattern of missing values reveals a wrong mask; the tests do not cover overrides.',
     [SIM + 'util.py', SIM + 'heating_simulators.py'], [('not-missing mask', SIM + 'util.py')], ['overridden arrays'])

prop('C22', 'Simulated weather is the recorded weather of the current time',
     'At every step the real-climate simulation reports the record whose interval contains the current time (for the interpolated variant, the linear interpolation between the neighbouring records), never an earlier or later one, whatever the ratio of the record interval to the step size. Loading records for a start time returns all records from the one containing the start to the end, and refuses a start beyond the data.',
     ['inputs', 'histories'], 'all record values, start offsets within a record, record intervals and step sizes with ratios up to 4, up to 4 steps',
     'Tests use one data set at one alignment.',
     [SIM + 'weather_simulators.py', 'demod/datasets/base_loader.py'], [('record index advanced with the clock', SIM + 'weather_simulators.py')], ['weather getters'])

prop('C23', 'The load of a household is the sum of its parts',
     'The power demand reported by a load simulation is, for every household and step, the sum of the demands of its appliances, lighting and heating; each part receives the occupancy, activities and weather of the same household and time. Total load over households equals the sum of the totals of the parts.',
     ['inputs', 'histories'], 'all component demands, 2 groups of 1-2 households, up to 2 steps',
     'The load simulators do not run in the tests without downloads.',
     [SIM + 'load_simulators.py'], [('sum of component getters', SIM + 'load_simulators.py')], ['power demand'])

prop('C24', 'Electric cars are driven or charging, never both, with bounded charge',
     'A car that is away does not charge, a car charges only at its household\'s charger and only while it needs energy, and the number of cars away is within zero and the number owned. Leaving and returning cars follow the occupants leaving and arriving, and charging power is never negative nor above the rating of the station of the household for each of its charging cars. A car that returns is charged for the energy of its trip, in whole steps, at once or ready for its timer.',
     ['inputs', 'histories'], 'all states and draws for up to 3 households, one step from an arbitrary valid state',
     'The car simulator has no tests.',
     [SIM + 'car_simulator.py'], [('leave/arrive masks and charge counters', SIM + 'car_simulator.py')], ['charging power, cars in use'])

prop('C25', 'State durations partition the observed time',
     'For any state patterns the extracted durations are positive and those of one subject add up to the length of the pattern (end and start merging when they hold the same state), with one duration per maximal run labelled with the state of that run. Grouping by state neither loses nor adds durations, and the transitions listed are exactly the changes of state, with the times, subjects, old and new states at which they occur.',
     ['inputs'], 'all patterns of up to 3 subjects x 4 times and 3 states (thorough 3 x 5)',
     'Tests check small literal matrices; errors appear only for special mixes of constant and changing patterns.',
     ['demod/metrics/states.py', UT + 'parse_helpers.py'], [('roll-and-compare change detection', 'demod/metrics/states.py')], ['durations, labels, transitions'])

prop('C26', 'Estimated transition and duration distributions match the observations',
     'Transition matrices estimated from state patterns have rows that are probability distributions equal to the observed frequencies of the transitions at that time, with unobserved states staying where they are. Estimated duration distributions equal the observed frequencies, initial durations included, and normalising counts leaves every row a valid distribution.',
     ['inputs'], 'all patterns of up to 3 subjects x 3-4 times and 2-3 states, all count arrays of up to 2x3',
     'Tests use a couple of literal examples.',
     [UT + 'parse_helpers.py'], [('count and normalise', UT + 'parse_helpers.py')], ['matrices and pdfs'])

prop('C27', 'Load metrics satisfy their definitions for every profile',
     'Total energy is the sum of power times step size; the diversity factor is the sum of individual peaks over the peak of the sum, at least one for non-negative loads, and the coincidence factor its inverse. Load duration counts for each threshold the steps at or above it and never increases with the threshold, the coincident demand is the peak of the mean profile, the distribution of demand changes is non-decreasing and ends at one, error metrics are zero for identical data and symmetric, and no metric alters its input.',
     ['inputs'], 'all profiles of up to 3 x 4 values, thresholds and bin edges',
     'Tests compare a few literal profiles.',
     ['demod/metrics/loads.py', 'demod/metrics/errors.py', 'demod/metrics/states.py'], [('array reductions', 'demod/metrics/loads.py')], ['metric values'])

prop('C28', 'Subgroups are named, ordered and dated consistently',
     'The name of a subgroup does not depend on the order of its attributes and different subgroups get different names; comparing subgroups is a strict order, so that grouping equal ones is reliable. The time attributes derived from a date are those of that date (working day or weekend, day of the week, quarter 1 to 4), removing time attributes leaves the rest untouched, and splitting a household into persons yields exactly one person per resident.',
     ['inputs', 'configurations'], 'all dates in 2000-2037, subgroups of up to 3 attributes with symbolic values, all household types and 1-6 residents',
     'Tests use few dates and subgroups; ordering laws quantify over triples.',
     [UT + 'subgroup_handling.py'], [('key-wise comparison, date attributes', UT + 'subgroup_handling.py')], ['names, order, attributes'])

prop('C29', 'Unit conversions and stored step sizes survive a round trip',
     'Converting an energy from joules to kilowatt-hours and back gives the original energy, and one kilowatt-hour is 3.6 million joules. A stored step size is read back as the same duration, whatever its days, seconds and microseconds, and making nested data storable keeps every value, key and length.',
     ['inputs'], 'all real energies; all durations; nested data of depth 3 with symbolic leaves',
     'Tests use one or two values.',
     [UT + 'converters.py', 'demod/datasets/base_loader.py', UT + 'parse_helpers.py'], [('inverse constants; field-wise json', UT + 'converters.py')], ['returned values'])

prop('C30', 'Variable room thermostats follow their occupants and programs',
     'A household whose pattern follows its occupants gets the low temperature when everybody leaves, the high one (mean plus deviation) on arrival and on waking up, the mean one at bedtime, and otherwise keeps its temperature, except that an active household may set one between mean and high; on-off households are at their mean temperature exactly when somebody is in. A household with a fixed program changes only at the times of its program, whatever its occupants do; no household affects another, and the requested attribution of patterns is used.',
     ['inputs', 'histories'], 'all occupancy histories of up to 2 households over up to 4 steps, all patterns, draws and times of the day',
     'Depends on histories of occupancy and active occupancy; this simulator has no tests.',
     [SIM + 'heating_simulators.py'], [('event masks of each pattern', SIM + 'heating_simulators.py')], ['get_thermostat_temperatures'])


prop('C31', 'Parsed data are stored and read back without change',
     'For every kind of data the loaders provide, the first load returns what parsing gives, and later loads, by the same loader or by another one of the same data set and version, return the same values without parsing again. Data of different subgroups, kinds, versions, activity types or data sets never replace one another; the time attributes of a subgroup are ignored for appliance ownership and yearly targets only. Clearing one version leaves the others, a run stopped between the writing of two files leaves a state from which the next load gives the same data, and the requested subgroup is left as it was.',
     ['inputs', 'histories', 'crash points'], 'all values of small parsed arrays of every kind; histories of two or three loads by one or two loaders; a stop after any number of written files',
     'Tests load real data once; the laws quantify over histories of loads, over stop points and over values.',
     ['demod/datasets/base_loader.py', 'demod/datasets/tou_loader.py', 'demod/datasets/CREST/loader.py', UT + 'sparse.py', UT + 'parse_helpers.py'],
     [('one file path per kind, subgroup and version', 'demod/datasets/base_loader.py'), ('matrices, legends and sparse storage', 'demod/datasets/tou_loader.py')], ['values returned by the load_* methods'])

prop('C32', 'CREST weather follows the sky, the sun and the season',
     'The sky clearness starts at the given value at midnight of the start day and moves only along transitions of positive probability. The CREST irradiance of a time is the clear-sky irradiance of that date, local time (daylight saving from day 87 to 303 where it applies) and place, times the clearness: never negative and zero while the sun is down. Another step size than that of the data is refused. The climate simulation reports the irradiance and temperature of its current time whatever the start time, its daylight temperature rises with the accumulated irradiance around the seasonal mean of the day plus its deviation, falls 1.7 times faster after its maximum, and cools steadily at night.',
     ['inputs', 'histories'], 'all transition probabilities, draws, deviations and temperature parameters on listed days, hours and places',
     'No test exercises the CREST weather: its data are not distributed.',
     ['demod/simulators/weather_simulators.py', UT + 'monte_carlo.py'],
     [('clear-sky model and clearness chain', 'demod/simulators/weather_simulators.py'), ('daily temperature model', 'demod/simulators/weather_simulators.py')], ['get_irradiance()', 'get_outside_temperature()', 'get_current_clearness()'])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    try:
        sys.path.insert(0, HERE)
        from harness.registry import MANIFEST_INFO, NOT_APPLICABLE
    except ImportError:
        MANIFEST_INFO, NOT_APPLICABLE = {}, {}
    checks = []
    na = []
    for p in P:
        i = p['id']
        if i in MANIFEST_INFO:
            checks.append(dict(
                property=i,
                quick_cmd='./check %s --tier quick' % i,
                thorough_cmd='./check %s --tier thorough' % i,
                evidence_file='evidence/%s.json' % i,
                technique='symbolic execution of the real Python/NumPy code, z3 decides each assertion (bounded)',
                level='other', level_note=MANIFEST_INFO[i]))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
                       notes='No hooks in /repo: the harnesses import the real modules unchanged.'), f, indent=1)
        f.write('\n')


main()
