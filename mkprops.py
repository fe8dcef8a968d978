"""Regenerates properties.jsonl (authoring helper; not run by any check)."""
import json
IND = "tti/indicators/"
TI = IND + "_technical_indicator.py"
SIM = "tti/utils/trading_simulation.py"
VAL = "tti/utils/data_validation.py"
PRE = "tti/utils/data_preprocessing.py"
PROP = IND + "properties/indicators_properties.py"
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m.split(': ',1)[1] if ': ' in m else m, where=m.split(': ',1)[0]) for m in mech])))

p("C01", "The caller's data frames are never modified",
  "Building any indicator, or running any trading simulation, leaves every data frame the caller handed in exactly as it was: same values, same column labels, same column order, same index and row order. This holds whatever the frame looks like (already sorted or not, extra columns or not, any letter case) and also when the call ends in an error.",
  ["inputs", "configurations"], "every caller frame (sorted/unsorted, extra columns, mixed-case labels, gaps), every indicator, both settings of the fill flag, every simulation call, error and success exits",
  "The tests pass one freshly parsed CSV frame and never compare it afterwards; only one shape of frame is ever used, so an in-place operation that needs an already sorted or already minimal frame is never exercised.",
  [VAL, PRE, TI, SIM], [VAL + ": input validation works on copies", TI + ": constructor hands the caller's frame to validation only", SIM + ": close prices are validated and copied to an array"])

p("C02", "Queries are read-only and repeatable",
  "Asking an indicator for its data, value, signal, graph or simulation never changes what any later request answers: after any sequence of such requests, including one that ends in an error, the indicator's input, calculated values and settings are what they were after construction. Nothing an indicator does changes the library-wide tables of indicator descriptions and signals.",
  ["histories", "inputs"], "every sequence of public requests on one or several indicator objects, including requests that fail part-way",
  "Each test builds a fresh indicator and makes one request; sequences of requests, and a simulation that fails half way through, are never observed.",
  [TI, SIM, "tti/utils/plot.py", "tti/utils/constants.py", PROP], [TI + ": the simulation narrows the indicator's data per round and restores it on every exit", IND + "*: signal methods only read", "tti/utils/plot.py: drawing only reads"])

p("C03", "A trading signal is always one of the three documented pairs",
  "For every indicator, parameter setting and data history, a request for the trading signal that returns, returns exactly one of ('buy', -1), ('hold', 0) or ('sell', 1): never nothing, never another value.",
  ["inputs", "configurations"], "every indicator, every accepted parameter setting, every path through the signal rule including nested indicators",
  "The tests request one or two signals per indicator on one data file, reaching a small fraction of the branches; a branch that falls off its end or returns another value is not seen.",
  [IND, "tti/utils/constants.py"], [IND + "_*.py: every exit of every signal method", "tti/utils/constants.py: the signal table"])

p("C04", "A signal can be requested on every history that could be calculated",
  "Once an indicator has been calculated, requesting its signal never fails, however short the history is and whatever the values are: when there are too few rows for the rule the answer is 'hold'. The same holds when the history is cut short during a simulation.",
  ["inputs", "configurations"], "every indicator, accepted parameter setting, number of rows >= 1 after construction or after a simulation cut, every row lookup in the signal rule",
  "The tests ask for signals on histories of a few fixed lengths with default parameters; row lookups that reach before the first row need a specific combination of length and parameter.",
  [IND, TI], [IND + "_*.py: length guards in front of row lookups in the signal methods", TI + ": simulation rounds evaluate the signal on one row, two rows, ..."])

p("C05", "Each indicator's signal follows its documented rule, ties included",
  "For every indicator, the trading signal is the documented function of the latest price, indicator and parameter values: which comparison, of which rows, against which threshold, leads to buy and which to sell, in which precedence. Comparisons are strict or not as documented, so merely touching a line or threshold is not crossing it, and a missing value never counts as a crossing.",
  ["inputs", "configurations"], "every ordering (less, equal, greater, missing) of every pair of quantities the rule compares, for all 57 indicators and all their parameter settings",
  "The tests only check that the returned signal is a member of the vocabulary; hardly any ordering of the compared values, and no tie, is asserted.",
  [IND], [IND + "_*.py: the signal method of each of the 57 indicators"])

p("C06", "No look-ahead: a value never depends on later days",
  "The indicator value reported for a day is a function of the input up to and including that day only; appending later rows never changes earlier values. The exceptions are those documented as such: the detrended price oscillator (shifted by design), the Fibonacci levels (whole-period extremes), the first value of the parabolic SAR (initial direction taken from the first two days) and leading gaps that are filled backwards. In a simulation the signal of a day is computed from rows up to that day only.",
  ["inputs", "histories"], "every indicator, parameter setting, row and later continuation of the data",
  "The tests compare one complete output with one complete reference; a value that peeks ahead is indistinguishable there unless the reference itself is right for every prefix.",
  [IND, TI, PRE], [IND + "_*.py: shifts, rolling windows, recurrences and reductions in the calculation methods", TI + ": per-round truncation in the simulation"])

p("C07", "Constructor parameters are accepted exactly on their documented domain",
  "Every indicator and the simulation accept a parameter value if and only if it is of the documented type and in the documented range, the boundary included or excluded as documented, and relations between parameters (short period below long period, target sign by mode) are enforced. An omitted parameter takes its documented default. A refused value produces the wrong-type or wrong-value error naming that parameter and quoting that value, before any calculation.",
  ["inputs", "configurations"], "every parameter of every indicator and of the simulation: all types and all values of the documented type, all pairs for related parameters",
  "The tests try a handful of bad values per parameter (typically -1, 0 and a string); boundaries, not-a-number values, pairs of parameters and what the message says are not covered.",
  [IND, SIM, "tti/utils/exceptions.py"], [IND + "_*.py: constructor validation", SIM + ": validation of the simulation arguments"])

p("C08", "Too short a history is refused exactly below the documented minimum",
  "An indicator with a minimum history refuses, with the not-enough-data error, exactly those inputs that have fewer rows than that minimum, for every parameter setting; the error quotes that minimum and the number of rows found. Every input with at least the minimum number of rows is calculated without an out-of-range row lookup.",
  ["inputs", "configurations"], "every indicator, parameter setting and number of rows",
  "The tests probe one or two lengths with default parameters and never compare the numbers in the message; lookups near the minimum length with other parameters are not exercised.",
  [IND, "tti/utils/exceptions.py"], [IND + "_*.py: length guard at the start of the calculation methods and the fixed-row lookups behind it"])

p("C09", "Row order, column order, letter case and extra columns do not matter",
  "An indicator's values and signals are the same whether the input rows come sorted or not, whether the columns come in one order or another, in upper or lower case, and whether or not unrelated columns are present.",
  ["inputs"], "every permutation of rows and of columns, every letter case of the labels, every set of additional columns, for every indicator",
  "The tests use a single CSV layout, so code that addresses a column by position or by leftover extra columns gives the right answer there.",
  [VAL, IND], [VAL + ": single canonicalisation point: lower-case, select, sort", IND + "_*.py: columns addressed by name in calculations and signals"])

p("C10", "Indicator descriptions agree with what the code reads and produces",
  "Every exported indicator has a description; the data columns an indicator reads are among the input columns the description declares as required, and the columns, areas and layout the description gives for the graph refer only to columns that the indicator's input and output really have, for every parameter setting. Every part of a description is there and has its documented form (names of data columns in lower case), so constructing, drawing and simulating never fail over the description.",
  ["inputs", "configurations"], "all 57 indicators, all column reads, all description entries, all parameter-dependent column names",
  "The tests draw few graphs and always pass frames that contain every possible column, so a column that is read but not declared is not noticed... unless it happens to be dropped by validation on the tested path.",
  [PROP, IND, TI], [PROP + ": required_input_data, graph_input_columns, graph_areas, graph_subplots", TI + ": description lookup by class name"])

p("C11", "Output frames carry the input dates, the documented columns and rounding",
  "For every indicator, parameter setting and input, the result has exactly the documented columns in the documented order, is indexed by the (sorted) dates of the input (a documented tail is cut for the detrended price oscillator), and every value is rounded to four decimals (ten for the market facilitation index; whole or unrounded numbers for the accumulation/distribution line and on-balance volume).",
  ["inputs", "configurations"], "every indicator, parameter setting and input, every branch of the calculation that produces the result",
  "Reference comparisons round both sides and cover one parameter setting per indicator, so unrounded branches and other shapes of result for other settings are not seen.",
  [IND], [IND + "_*.py: what each calculation method returns"])

p("C12", "A position is opened only when it fits under the exposure limit",
  "In a simulation with a maximum exposure, a buy (sell) signal opens a long (short) position if and only if the current exposure plus the position's own exposure (price, or short factor times price) does not exceed the maximum; without a maximum it always does; a hold never opens one; nothing is opened on the first day. The exposure reported for the day rises by exactly the exposure recorded for the position that was opened, and otherwise not at all.",
  ["inputs", "histories"], "every close-price history, signal history, maximum (including none) and short factor, every round",
  "The tests run a few fixed scenarios; equality with the limit, fractional factors and the combination of close-then-open in one round are not enumerated.",
  [SIM], [SIM + ": signal processing, opening of long and short positions"])

p("C13", "Positions are closed exactly when profitable and accounted once",
  "On each day, exactly those open long positions whose entry price is below, and open short positions whose entry price is above, the day's price are closed, before the day's signal is processed; a closed position is never closed again. Earnings grow by the sum of the profits of exactly those positions, exposure falls by exactly their recorded exposure, the portfolio value is the price times open longs minus open shorts, and the balance is earnings plus portfolio value, on every row.",
  ["inputs", "histories"], "every close-price history, signal history, exposure limit and short factor, every round",
  "The tests check a few fixed ledgers; the four separately written selections of positions (count, exposure, earnings, status) can disagree only for specific price histories, such as equality of entry and current price.",
  [SIM], [SIM + ": closing of open positions, portfolio value, the daily row"])

p("C14", "Simulation statistics agree with the simulation rows",
  "The statistics returned by a simulation equal what one would count from its rows: number of days, of buy and sell signals and of those not acted upon, the last row's price, exposure, portfolio value, earnings and balance, and the number of positions still open, with every documented entry present.",
  ["inputs", "histories"], "every simulation result, including simulations of zero or one round",
  "The tests compare a few fixed scenarios in which several of the statistics coincide or are zero.",
  [SIM], [SIM + ": calculation of the statistics at the end of the simulation"])

p("C15", "Invalid input data is refused with the documented error before calculating",
  "Input that is not a data frame, has no date index, is empty, lacks a required column or has a non-numeric required column is refused with the documented kind of error, for every indicator and for the simulation's close prices (there as a simulation-data error, also when its dates differ from the indicator's), and no calculation or state change happens first. Valid input is never refused.",
  ["inputs"], "every malformed or well-formed input object, every indicator, and the simulation",
  "Each malformed kind is tried once or twice, on the first required column and with full data otherwise; missing or non-numeric later columns and combinations are not.",
  [VAL, TI, SIM], [VAL + ": the checks and their order", TI + ": validation precedes calculation", SIM + ": wrapping of validation errors, date comparison"])

p("C16", "Missing values are filled forwards then backwards, only when requested",
  "When filling is requested (the default) every missing input value takes the latest earlier value of its column and only leading gaps take the first later one, in date order whatever the row order of the input; when it is not requested, no missing value is replaced anywhere, including in indicators that are computed with the help of other indicators. The close prices handed to a trading simulation are always filled this way.",
  ["inputs", "configurations"], "every pattern of missing values, every row order, both settings of the flag, every indicator including those built on others",
  "One small frame is used for the filling tests, and no test runs an indicator with filling switched off on data with gaps.",
  [PRE, VAL, TI, IND], [PRE + ": sort, forward fill, backward fill", VAL + ": the flag decides", IND + "_*.py: nested indicators get the flag's effect"])

p("C17", "Results depend only on the arguments",
  "Indicator values, signals, simulation rows and statistics are a deterministic function of the data and parameters: no clock, random source, environment, file, network, earlier call or other object influences them.",
  ["histories", "configurations"], "every call history and environment",
  "Tests run once in one environment; hidden inputs show only when the environment or call history differs.",
  [IND, TI, SIM, VAL, PRE], ["tti/**: no call to a non-deterministic or external source; no module-level or class-level mutable state written at run time"])

p("C18", "Signals do not depend on the currency or volume unit",
  "Multiplying all prices by a positive constant, or all volumes by a positive constant, does not change any indicator's trading signal, except where the documented rule itself compares a price-valued quantity with a fixed number (the standard deviation rule).",
  ["inputs"], "every positive scale factor for prices and for volumes, every indicator (up to the documented rounding of values; indicators with unit-bound constants are listed)",
  "No test rescales data; an added absolute tolerance or a price compared with a volume leaves the single tested data set unchanged.",
  [IND], [IND + "_*.py: dimensional homogeneity of the calculation and signal expressions"])

p("C19", "Values follow the documented formula for every parameter setting",
  "Every indicator's values are the documented formula of the required columns, in which each window, lag, smoothing and multiplier is the one given by the indicator's own parameters or documented constants, for every accepted parameter setting and not only the defaults. Rows for which the documented window is not yet complete are blank.",
  ["inputs", "configurations"], "every indicator, every accepted parameter setting, every row",
  "The tests pin values for one data file and one or two parameter settings per indicator; a window wired to a constant or to another parameter, or a branch for another setting, passes.",
  [IND], [IND + "_*.py: the calculation methods"])

p("C20", "A simulation replays the indicator's own signal day by day",
  "A simulation plays exactly one round per day of the indicator's values, in date order (days without an indicator value keep an empty row), and the signal in the day's row is the one the indicator gives when its data and values are cut after that day, nothing else. The row carries the day's price and every documented column, and the first day only starts the ledger.",
  ["inputs", "histories"], "every indicator, data history and simulation argument, every round",
  "The tests look at totals and a few rows for a handful of indicators.",
  [TI, SIM], [TI + ": loop over the days, truncation of both frames, one round per day", SIM + ": the row written per round"])

p("C21", "Value lookup returns that day's values or nothing, and never fails",
  "Looking up an indicator's value with no date gives the list of the last row's values in column order; with a date, the list of that date's values; with a date that is absent or not a date, nothing; it never raises.",
  ["inputs"], "every date argument (present, absent, malformed) and every indicator",
  "The tests look up one or two dates per indicator.",
  [TI], [TI + ": value lookup"])

p("C22", "A graph shows every line it should and leaves the data alone",
  "The graph of an indicator draws every declared input column and every column of the calculated values, each exactly once, under its own name, over its own dates, with the values as they are, in the declared colour and transparency; input and indicator are in separate panels exactly when the description says so; declared areas are filled; the title and the axis label are the described ones. The graph of a simulation draws the stock value, the exposure and the balance, each once in its own panel. Drawing changes neither the data nor later answers.",
  ["inputs", "configurations"], "every indicator and every number of rows and columns",
  "The tests only check that a graph object comes back.",
  [TI, "tti/utils/plot.py", PROP], [TI + ": assembling of the graph data", "tti/utils/plot.py: one line per column"])

p("C23", "Numerical results equal the reference book's to the stated precision",
  "For every input the values equal, to the stated rounding, the values of the reference book's formulae in exact arithmetic.",
  ["inputs"], "every real-valued input history", "Only one data file is compared; floating-point error and cancellation depend on run-time magnitudes.",
  [IND], [IND + "_*.py: floating-point evaluation of the formulae"])

p("C24", "Bounded indicators stay within their range and bands stay in order",
  "On every consistent history (0 <= low <= open, close <= high, volume >= 0) every defined value of RSI, RMI, intraday momentum, RVI, range indicator, stochastic %K and %D, ultimate oscillator and the five directional movement columns lies in 0..100, of CMO and stochastic momentum in -100..100, of Williams %R in -100..0, of Chaikin money flow in -1..1; ATR, standard deviation, market facilitation, mass index and vertical horizontal filter are never negative and Chaikin volatility never below -100; the lower, middle and upper band of Bollinger and projection bands and of envelopes, the lines of the price channel and the Fibonacci levels never cross; typical, median and weighted price lie between the day's low and high. This holds for every accepted parameter setting, up to rounding.",
  ["inputs", "configurations"], "every consistent history of any length, every row, every accepted parameter setting",
  "One data file is compared with one or two settings; a numerator and a denominator over different windows, or a formula whose parts do not fit, leaves the range only on other prices or settings.",
  [IND], [IND + "_*.py: the calculation methods"])

p("C25", "Calculation and simulation time grow acceptably with the history",
  "Calculating an indicator takes time linear in the number of rows (times window), and a simulation at most quadratic time.",
  ["inputs"], "every history length", "Tests use one length.", [IND, SIM], [SIM + ": per-round work"])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
