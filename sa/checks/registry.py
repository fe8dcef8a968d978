"""property id -> (level, note, function)"""
from . import signals, formula, domain, history, output, causal, units, simulation, effects, validation, graph, ranges

CHECKS = {
    "C01": ("other", "Every write of every path of input validation, the constructors and the simulation is classified by the "
            "object it reaches, for all caller frames, parameters and error paths.", effects.c01),
    "C02": ("other", "The state of the indicator and of the module-level tables is compared with the entry state at every exit "
            "of every query, for all data, parameters and points of failure.", effects.c02),
    "C17": ("other", "Source-to-sink dataflow over the extracted expressions of every indicator, signal and simulation, and a "
            "second construction from the state the first leaves behind.", effects.c17),
    "C03": ("other", "Abstract interpretation of every getTiSignal; every return value is enumerated symbolically, for all "
            "inputs and parameters. Trusted: the pandas / numpy operation models.", signals.c03),
    "C04": ("other", "Abstract interpretation of every getTiSignal; every raise / row access / empty reduction is an obligation "
            "discharged in the linear-integer domain for histories of 1..N rows.", signals.c04),
    "C05": ("other", "Every getTiSignal is reduced to a guarded outcome tree and compared with the reference rule on every "
            "joint path; unknown constructs stay quiet and are listed in the evidence.", signals.c05),
    "C06": ("other", "Row-dependency analysis of every extracted value expression (all rows, prices and parameter values); "
            "what is not proven is reported only when two histories agreeing on the past separate it.", causal.c06),
    "C07": ("other", "The guards of every parameter-refusing exit are extracted from the source and decided on a finite "
            "partition of the value space (all Python types and every interval the guards or the documentation "
            "distinguish); default values and error texts are compared as well.", domain.c07),
    "C08": ("other", "The refusing guards are extracted from the source and decided against the documented minimum, for all row "
            "counts and parameter values, in a linear-integer domain; every row lookup of the calculation is an obligation in "
            "the same domain.", history.c08),
    "C09": ("other", "The frame transformer extracted from validateInputData is interpreted over a finite domain of frame shapes "
            "with provenance-labelled cells (row orders, column orders, letter cases, unrelated columns); every column access of "
            "every constructor and signal is by name.", validation.c09),
    "C15": ("other", "The refusing guards extracted from validateInputData are interpreted over a finite domain of frame shapes; "
            "dominance and wrapping of the refusals is followed through every constructor and the simulation.", validation.c15),
    "C16": ("other", "The frame transformer extracted from validateInputData and fillMissingValues is interpreted over "
            "provenance-labelled frames with gaps; the flag is followed to every validation; extracted value expressions and "
            "reference formulas are missing on the same days.", validation.c16),
    "C10": ("other", "The description table is evaluated statically and compared with every column access of every constructor, "
            "nested indicator, signal and graph, on an input frame that has exactly the declared columns.", graph.c10),
    "C21": ("other", "The lookup is extracted as an expression over the calculated rows and decided on a finite partition of "
            "arguments and row dates, with the provenance of every returned item.", graph.c21),
    "C22": ("other", "Every graph is interpreted down to the plotting calls; each call's data, panel, label, dates and colour are "
            "compared with the description and the columns.", graph.c22),
    "C11": ("other", "The abstract frame built by every calculation is compared with the documented column list, row index and "
            "rounding, for all inputs and parameter values.", output.c11),
    "C12": ("other", "The round is interpreted once from a ledger of free leaves and a free round index, so the result holds for "
            "every history; its effect is compared with the reference opening rule in normal form.", simulation.c12),
    "C13": ("other", "The round is interpreted once from a ledger of free leaves and a free round index; closings, earnings, "
            "exposure, portfolio value and balance are compared with the reference rule in normal form.", simulation.c13),
    "C14": ("other", "The statistics expressions are extracted for a ledger of free leaves and compared with the reference "
            "counts in normal form.", simulation.c14),
    "C18": ("other", "Dimension inference over the extracted value and signal expressions, for all rows, prices, volumes, "
            "parameters and scale factors; what is not consistent is reported only when rescaled histories separate it.",
            units.c18),
    "C20": ("other", "The call sites of getTiSimulation are interpreted with the state of the indicator at each, for all "
            "histories; the row written per round comes from the extracted ledger transformer.", simulation.c20),
    "C19": ("other", "The value expression of every calculated column is extracted from the source and compared in normal form "
            "with the reference formula, for all rows, prices and parameter values; differing normal forms are screened by "
            "value numbering before an alarm.", formula.c19),
    "C24": ("other", "Every documented bound and order is deduced from the extracted value expressions by sign, operator, quotient "
            "and induction rules over linear arithmetic, for all consistent histories and accepted parameters, in exact "
            "arithmetic; what is not deduced is reported only when value numbering leaves the range.", ranges.c24),
}
TECHNIQUE = {
    "C01": "static analysis: alias and effect analysis by abstract interpretation",
    "C02": "static analysis: effect analysis, state comparison at every exit by abstract interpretation",
    "C17": "static analysis: taint (information-flow) analysis and carried-state analysis",
    "C03": "static analysis: abstract interpretation, return-value enumeration",
    "C04": "static analysis: abstract interpretation, exception reachability",
    "C05": "static analysis: abstract interpretation, decision-diagram equivalence with reference rules",
    "C06": "static analysis: row-dependency (dataflow) analysis with linear-integer index obligations",
    "C07": "static analysis: guard extraction and decision over a finite partition of parameter values",
    "C08": "static analysis: abstract interpretation, guard equivalence and index bounds in a linear-integer domain",
    "C09": "static analysis: abstract interpretation over a finite provenance domain of frames, column-access typestate",
    "C15": "static analysis: abstract interpretation over a finite domain of frame shapes, dominance and exception-flow analysis",
    "C16": "static analysis: abstract interpretation over a finite provenance domain of frames, flag dataflow",
    "C10": "static analysis: column-existence typestate by abstract interpretation, constant evaluation of the description table",
    "C21": "static analysis: value-expression extraction, decision over a finite partition of arguments with cell provenance",
    "C22": "static analysis: call-site typestate of the plotting calls, effect analysis",
    "C11": "static analysis: abstract interpretation, frame typestate (columns, index, rounding)",
    "C12": "static analysis: state-transformer extraction (dataflow), normal-form equivalence with the reference rule",
    "C13": "static analysis: state-transformer extraction (dataflow), normal-form equivalence with the reference rule",
    "C14": "static analysis: value-expression extraction (dataflow), normal-form equivalence with the reference counts",
    "C20": "static analysis: call-site typestate (state of both frames at each call), loop-range and effect analysis",
    "C18": "static analysis: dimension (unit) inference",
    "C19": "static analysis: value-expression extraction (dataflow), normal-form equivalence with reference formulas",
    "C24": "static analysis: range analysis of the extracted value expressions (sign and linear-inequality deduction, induction on recurrences)",
}
