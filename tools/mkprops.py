"""Regenerates /verif/properties.jsonl (the properties are maintained here, one call per property)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, **({"state": state} if state else {}),
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))
C="portfolyo/core/pfline/"; S="portfolyo/core/pfstate/"; T="portfolyo/tools/"; T2="portfolyo/tools2/"

prop("C01", "Volume, energy, price and revenue of a line always agree",
 """In every portfolio line, however it was obtained, energy equals power times the true elapsed duration of each
 delivery period (23/25-hour days, leap years and offset start-of-day included), and in every line with price and
 revenue, revenue equals price times energy wherever energy is non-zero.""",
 ["inputs","histories"], """for every flat or nested line reachable by creation followed by any sequence of library operations
 (arithmetic, selection, resampling, child editing, hedging, concatenation, portfolio states), any supported frequency, time zone and start-of-day""",
 """Tests compare single operations on a few fixed indices; they never re-check the identities on the result of operation sequences nor over all
 calendar shapes.""",
 [C+"interop.py",C+"flat_helper.py",C+"classes.py",C+"arithmatic.py",C+"flat_methods.py",T+"duration.py"],
 [("make_consistent derives w/q/p/r",C+"interop.py"),("duration.index",T+"duration.py"),("per-class asfreq",C+"classes.py")],
 ["PfLine.df","PfLine.w/.q/.p/.r"])
prop("C02", "Creating a line: kind, derived quantities, units, rejection of conflicts",
 """Creating a flat line from any combination of power, energy, price and revenue data (in any compatible unit, as mapping, table or
 unit-carrying series) yields exactly the kind implied by the given quantities, over the timestamps the given series share, with every value
 converted to the default units and every missing quantity derived from the given ones. Data that over-determines the line is accepted
 if and only if it is mutually consistent; data without any known quantity, with a unit that contradicts its name, or with insufficient time information is rejected.""",
 ["inputs"], "for every subset of {w,q,p,r}, container, unit spelling, value vector (negative, zero included) and index alignment",
 "Tests sample a fixed set of columns and values; combinations of units, misaligned indices and over-determination are not enumerated.",
 [C+"create.py",C+"flat_helper.py",C+"interop.py",T+"unit.py"],
 [("InOp.from_data / make_consistent",C+"interop.py"),("create.pfline",C+"create.py"),("unit conversion",T+"unit.py")],["PfLine(data)","PfLine.kind","PfLine.df"])
prop("C03", "A nested line is exactly the aggregate of its children",
 """At every level of a nested line, power, energy and revenue (and price, in a price-only line) at each timestamp are the sum of the children's values, the
 price of a complete nested line is its total revenue divided by its total energy, and all children share the parent's kind and
 index, which is the intersection of the indices given. Children of different kinds, or children whose name is a reserved quantity name or not text, are rejected.""",
 ["inputs","histories"], "for every tree of lines (any depth, any number of children, any kind) and any operation history",
 "Tests use a handful of one-level trees built from the same mock-up data; aggregation after edits and on deep or misaligned trees is not covered.",
 [C+"nested_helper.py",C+"classes.py",C+"children.py",C+"nested_methods.py"],
 [("Nested*.__post_init__ sums children",C+"classes.py"),("nested_helper checks children",C+"nested_helper.py")],["PfLine(dict)","PfLine.df","PfLine[child]"])
prop("C04", "No operation changes an existing line, state or input object",
 """Every library operation leaves its operands, every previously created portfolio line and portfolio state, and every
 mapping, series, table or index that was passed to it, exactly as they were; results are always new values, and
 attempts to assign attributes of a line or state are refused.""",
 ["histories"], "for every sequence of public operations over a shared set of lines, states and raw inputs",
 "Tests look only at the return value of one call; they do not compare all other live objects before and after.",
 [C+"classes.py",C+"children.py",C+"arithmatic.py",S+"pfstate.py",T+"wavg.py",T+"changefreq.py"],
 [("frozen dataclasses",C+"classes.py"),("copy-on-edit of children",C+"children.py")],["all live objects after each call"])
prop("C05", "Adding and subtracting lines",
 """The sum (difference) of two lines of the same kind has exactly the timestamps both share and, at each of them, the sum
 (difference) of the operands' power, energy, revenue (or prices for price-only lines), a complete result having the energy-weighted
 price; two nested lines are merged child by child, same-named children being combined and the remaining ones kept (negated if subtracted),
 and if just one operand is nested it is flattened first. Adding zero or nothing returns an equal line, and subtraction equals addition of the negation.""",
 ["inputs"], "for every pair of lines of equal kind (flat/nested, overlapping or not, zero-volume timestamps included) and every accepted way to express an operand",
 "Tests add a few fixed pairs; misaligned indices, zero volumes, deep trees and operand spellings are not quantified over.",
 [C+"arithmatic.py",C+"interop.py",T+"intersect.py",T+"wavg.py"],
 [("Add.*",C+"arithmatic.py"),("pfline_or_nodimseries",C+"interop.py")],["+","-","unary -"])
prop("C06", "Scaling, multiplying, dividing and uniting lines",
 """Scaling multiplies power, energy and revenue (or the price of a price-only line) of a line and of all its children and leaves the price of
 a complete line unchanged; price times volume gives revenue, revenue over price (volume) gives volume (price), the ratio
 of two flat lines of equal kind is a dimensionless series, and uniting two lines of distinct kind gives the complete line that contains both.
 All act timestamp by timestamp on the shared timestamps only, nested operands being flattened where a flat result is produced.""",
 ["inputs"], "for every pair of lines / scalars / dimensionless series for which the operation is defined, zero and negative values included",
 "Tests check a few fixed operand pairs on a single index; value, alignment and structure combinations are not enumerated.",
 [C+"arithmatic.py",C+"interop.py",C+"flat_helper.py"],[("Multiply/Divide/Unite",C+"arithmatic.py")],["*","/","|"])
prop("C07", "Undefined or ambiguous arithmetic is refused",
 """An arithmetic operation (+, -, *, /, |) on portfolio lines yields a result only for the documented combinations of kinds; every
 other combination of kinds, any two lines that differ in frequency, time zone or start-of-day, and operands with an ambiguous or incompatible
 unit raise an error instead of returning a value.""",
 ["inputs"], "for every operator, ordered pair of kinds and structures, operand spelling, and pair of frequencies/time zones/start-of-days",
 "The tests list a subset of the error combinations with one index.",
 [C+"arithmatic.py",C+"interop.py",T+"testing.py"],[("Prep decorators",C+"arithmatic.py")],["raised exceptions of the operators"])
prop("C08", "Flattening commutes with every operation",
 """Flattening a line keeps its index, kind and aggregate values; and performing an operation (scaling, addition of equally
 structured lines, slicing, reindexing, resampling, concatenation, selecting volume or revenue) on a nested line and then flattening
 gives the same flat line as flattening the operands first and then performing it.""",
 ["inputs","histories"], "for every nested line and operation sequence",
 "Tests for nested lines compare with separately hand-built expected values on few trees; the homomorphism itself is never stated.",
 [C+"nested_methods.py",C+"arithmatic.py",C+"classes.py",T2+"concat.py"],[("nested_methods delegate to children",C+"nested_methods.py")],["PfLine.flatten()"])
prop("C09", "Editing and reading the children of a nested line",
 """Setting a child gives a nested line with exactly the previous children plus (or with a replacement of) that one, all cut to the common index; dropping a child gives the line without it; both keep the
 order of the remaining children and refuse a child of another kind, a reserved name, a frequency mismatch, removal of an unknown child or removal of the last child. Reading a
 child by name, iterating, membership and length always reflect exactly the children, and a flat line has none.""",
 ["histories"], "for every sequence of set/drop/read child operations on every nested line",
 "Tests do one edit at a time on fixed data.",
 [C+"children.py",C+"nested_helper.py"],[("set_child/drop_child/__getitem__",C+"children.py")],["set_child","drop_child","[]","iter","len","in"])
prop("C10", "Selecting a time range keeps exactly the selected timestamps and values",
 """Label-based selection returns exactly the timestamps between both labels inclusive, and interval slicing exactly those from the left label (incl) up to the
 right label (excl), for flat lines, nested lines (in every child) and portfolio states, with unchanged values, kind, children and frequency. Slicing at a boundary into a
 left and a right part partitions the line, and concatenating the parts restores it.""",
 ["inputs"], "for every line or state, and every pair of labels (exact, partial-string, outside of the index, open-ended)",
 "Tests slice a few fixed ranges.",
 [C+"flat_methods.py",C+"nested_methods.py",S+"pfstate.py",T2+"concat.py"],[("loc/slice helpers",C+"flat_methods.py")],["PfLine.loc","PfLine.slice","PfState.loc","PfState.slice"])
prop("C11", "Reindexing keeps shared timestamps and fills the rest with zero",
 """Reindexing a line onto another valid index of the same frequency, time zone and start-of-day yields a line of the same kind
 and structure with exactly that index, holding the original values at timestamps it already had and zero volume, price and revenue
 elsewhere (undefined price in complete lines); other indices are refused.""",
 ["inputs"], "for every flat or nested line and every target index (subset, superset, disjoint, shifted, incompatible)",
 "Tests reindex flat lines with a few fixed indices and never reindex a nested line.",
 [C+"flat_methods.py",C+"nested_methods.py"],[("reindex",C+"flat_methods.py")],["PfLine.reindex"])
prop("C12", "Concatenation is order-independent and gapless",
 """Concatenating adjacent lines (or portfolio states) of the same frequency, time zone, start-of-day, kind and children gives, independently of the order of
 the arguments, the line with all their timestamps and unchanged values at every level; arguments that
 overlap, leave a gap, or differ in one of those aspects, are refused.""",
 ["inputs"], "for every ordering, number and adjacency pattern of lines/states",
 "Tests concatenate two or three parts in a few orders.",
 [T2+"concat.py"],[("concat_pflines / concat_pfstates",T2+"concat.py")],["portfolyo.concat"])
prop("C13", "Changing frequency conserves energy, revenue and duration-weighted averages",
 """After a change of frequency of a line, each new shorter period carries the power (or price) of, and its duration's share of the energy and revenue of, the period it lies in; each new longer period
 carries the total energy and revenue of the periods it contains, their duration-weighted average power or price-only price, and, in complete lines, their
 energy-weighted price. Hence totals over the retained time span never change.""",
 ["inputs"], "for every line kind and structure, pair of frequencies, time zone (DST changes included) and start-of-day, for lines and for plain summable or averagable series",
 "Tests compare selected frequency pairs with precomputed values; conservation is never checked over arbitrary pairs, offsets and DST days.",
 [C+"classes.py",T+"changefreq.py",T+"duration.py"],[("summable/averagable",T+"changefreq.py"),("asfreq",C+"classes.py")],["PfLine.asfreq","changefreq.summable/averagable"])
prop("C14", "Changing frequency keeps exactly the full periods",
 """The index after a change of frequency consists of exactly those delivery periods of the new frequency (starting at the original's start-of-day, in its time zone) that are completely
 covered by the original index, in order and without gaps; if there is none, changing a line is refused. Going to a shorter frequency and back restores the original.""",
 ["inputs"], "for every valid index, frequency pair, time zone and start-of-day",
 "Tests use a fixed table of indices.",
 [T+"changefreq.py",T+"trim.py",T+"ceil.py",T+"floor.py"],[("trim to full periods",T+"trim.py")],["PfLine.asfreq","asfreq of index","PfLine.index"])
prop("C15", "Peak/offpeak decomposition accounts for every hour once",
 """Decomposing a line with sub-daily values splits each delivery month, quarter or year into peak and offpeak such that both durations add up to the period's duration,
 energy and revenue of both parts add up to those of the period, power and price are the duration-weighted (for complete lines: consistent with energy and revenue) averages over
 exactly the peak or offpeak hours, and only full periods appear.""",
 ["inputs"], "for every sub-daily line, peak definition, product length, time zone and start-of-day at midnight",
 "Tests check shapes and a few numbers for the German peak definition.",
 [C+"flat_methods.py",T+"peakconvert.py",T+"peakfn.py"],[("po",C+"flat_methods.py"),("tseries2poframe",T+"peakconvert.py")],["PfLine.po"])
prop("C16", "A hedge is flat per product and volume- or value-neutral",
 """Hedging a volume with a price curve returns, over the full product periods shared by both, one constant power and price per product
 (or per product and peak/offpeak part); prices are the duration-weighted average of the curve; a volume hedge has in each product the energy of the original, and a value hedge
 has in each product the same value, at the curve's prices, as the original.""",
 ["inputs"], "for every volume line, price curve, product length, peak definition and hedge method",
 "Tests cover a small table of precomputed hedges.",
 [T+"hedge.py",T+"peakconvert.py",C+"flat_methods.py"],[("hedge",T+"hedge.py")],["PfLine.hedge_with","PfState.hedge_of_unsourced","tools hedge"])
prop("C17", "A portfolio state always balances",
 """In every portfolio state, offtake, sourced and unsourced volumes add up to zero and the net position is the opposite of the unsourced volume at every timestamp; the procurement cost is sourced plus unsourced in volume and revenue; unsourced is
 valued at the unsourced price; all components share the index of the offtake, and states whose prices or sourced volume do not cover the offtake are refused. The sourced and unsourced fractions of the offtake add up to one.""",
 ["histories","inputs"], "for every state, created from any accepted inputs and after any sequence of state operations",
 "Tests check fixed states right after creation.",
 [S+"pfstate.py",S+"pfstate_helper.py"],[("unsourced / pnl_cost / netposition",S+"pfstate.py"),("make_pflines trims and checks",S+"pfstate_helper.py")],["PfState components"])
prop("C18", "Editing a portfolio state changes exactly the requested part",
 """Setting offtake, unsourced price or sourced, adding sourced volume, sourcing the unsourced volume, and splitting off hedges of a
 portfolio state changes only that part and what depends on it; after sourcing everything unsourced, nothing is left unsourced and the procurement cost is unchanged; the mark-to-market of sourced
 volume is its volume valued at the unsourced price minus its cost.""",
 ["histories"], "for every sequence of state edits", "Tests do single edits on one mock-up state.",
 [S+"pfstate.py"],[("set_*, add_sourced, source_unsourced, mtm_of_sourced",S+"pfstate.py")],["PfState methods"])
prop("C19", "Arithmetic and resampling of portfolio states act component-wise",
 """Adding, subtracting, negating or scaling portfolio states acts on offtake and sourced, and gives the unsourced price that keeps unsourced
 revenue additive; changing the frequency of a state conserves offtake, sourced and unsourced energy and revenue, deriving the unsourced price weighted with the unsourced energy (average price when nothing is unsourced). Other operand combinations are refused.""",
 ["inputs"], "for every pair of states, scalar, frequency", "Tests check few fixed combinations.",
 [S+"arithmatic.py",S+"pfstate.py"],[("PfStateArithmatic",S+"arithmatic.py"),("asfreq",S+"pfstate.py")],["+,-,*,/ on PfState","PfState.asfreq"])
prop("C20", "Delivery-period boundaries: floor, ceil, right and duration",
 """For every timestamp, frequency and start-of-day, flooring gives the latest period start not after it and ceiling the earliest not before it, shifted
 by any requested number of periods; a timestamp is recognised as boundary exactly if both coincide; the right end of a period is the start of the next, and its
 duration is the true elapsed time. Full days may last 23 or 25 hours, and no instant belongs to zero or two periods.""",
 ["inputs"], "for every instant (also within DST transitions), frequency, start-of-day, time zone or none, number of periods",
 "Tests list several hundred stamps; the calendar laws over all instants are not checked.",
 [T+"round.py",T+"floor.py",T+"ceil.py",T+"right.py",T+"isboundary.py",T+"duration.py"],[("stamp_current",T+"round.py"),("to_offset",T+"freq.py")],["floor/ceil/right/isboundary/duration"])
prop("C21", "Valid delivery-period indices: trimming and start-of-day",
 """Trimming an index to a frequency keeps exactly the timestamps whose period lies in a full period of that frequency; reading or changing
 the start-of-day of an index affects the time of day only (daily-or-longer) or drops only the incomplete first and last day (shorter); right-bound stamps are converted to the left-bound index of the same periods.""",
 ["inputs"], "for every index (frequency, time zone, start-of-day, length)", "Tests use tables of fixed indices.",
 [T+"trim.py",T+"startofday.py",T+"righttoleft.py"],[("trim.index",T+"trim.py"),("startofday.set",T+"startofday.py"),("righttoleft.index",T+"righttoleft.py")],["trim","startofday","righttoleft"])
prop("C22", "Frequencies are ordered by the length of their periods",
 """For any two supported frequencies, comparison tells whether one must be up- or downsampled to get the other, consistently with which periods tile the
 other's periods (equal, longer, shorter, or incompatible quarter/year starts being refused); shortest and longest select accordingly, and the frequency of a series is recognised from its timestamps.""",
 ["inputs"], "for all pairs and tuples of supported frequencies including quarters and years that start in any month",
 "Tests list a part of the pairs.", [T+"freq.py"],[("up_or_down",T+"freq.py"),("longest/shortest",T+"freq.py")],["freq.up_or_down","freq.longest","freq.shortest","guess"])
prop("C23", "Intersection keeps exactly the time covered by all",
 """Intersecting indices, series, tables, lines or states keeps, in each of them, exactly the periods lying in the time covered by all,
 with unchanged values, frequency and order; objects with unequal frequency, time zone or start-of-day are refused unless that difference is explicitly
 ignored, in which case only time fully covered (full longest periods; wall time; calendar days, respectively) is kept and each object retains its own attributes.""",
 ["inputs"], "for every tuple of objects and every combination of ignore flags", "Tests use pairs on fixed indices.",
 [T+"intersect.py",T2+"intersect.py"],[("indices / indices_flex",T+"intersect.py"),("indexable",T2+"intersect.py")],["intersection"])
prop("C24", "Only well-formed delivery-period indices are accepted",
 """A line can be created from timeseries, and a series be standardized, exactly if its timestamps form a gapless left-bound index of a supported
 frequency, with full days and periods starting on the first day of the month, quarter or year; standardizing never changes values or their order,
 and standardizing twice changes nothing.""",
 ["inputs"], "for every index that is valid or deviates by a gap, duplicate, wrong phase, partial day or unsupported frequency", "Tests use a few malformed indices.",
 [T+"standardize.py",T+"freq.py"],[("assert_index_standardized",T+"standardize.py")],["standardize","PfLine()"])
prop("C25", "Time-zone conversion keeps each value at the right wall time",
 """Making a series time-zone agnostic or aware keeps the value of each wall time (floating) or instant (not floating): days and longer keep their
 values one to one; for shorter periods the skipped hour of a spring day is filled with, and the repeated hour of an autumn day reduced by, the documented
 rule, so that every day has 24 hours without, and 23, 24 or 25 hours with, a time zone. Converting to the representation a series already has changes nothing.""",
 ["inputs"], "for every series, pair of zones, frequency", "Tests read a spreadsheet with fixed cases.",
 [T+"tzone.py"],[("force_aware/force_agnostic",T+"tzone.py")],["force_aware","force_agnostic"])
prop("C26", "Weighted averages follow the documented case table",
 """The weighted average of values equals the sum of value times weight over the sum of weights; values with weight zero never influence it, zero total weight gives the common value if all values
 are equal and is undefined otherwise, and an undefined value with non-zero weight makes it undefined; series and tables, row-wise and column-wise, agree.""",
 ["inputs"], "for every vector of values and weights from {undefined, zero, positive, negative}", "Tests list selected rows of the case table.",
 [T+"wavg.py"],[("wavg.series / dataframe",T+"wavg.py")],["wavg"])
prop("C27", "Peak hours and peak durations",
 """A peak definition built from times of day and weekdays marks as peak exactly the sub-daily periods whose local start lies in one of the
 time ranges on one of the weekdays, and peak and offpeak durations per delivery period count exactly these, adding up to the period's duration. Definitions that cannot be applied are refused.""",
 ["inputs"], "for every peak definition and index", "Tests use the German definition and a few others.",
 [T+"peakfn.py"],[("factory",T+"peakfn.py")],["create_peakfn","peak duration"])
prop("C28", "Converting base, peak and offpeak values is arbitrage-free",
 """Completing base, peak and offpeak values yields the unique third value for which base is the duration-weighted average (or the sum, for summable quantities) of peak and offpeak in each period; decomposing a timeseries and reconstructing it gives each peak (offpeak) timestamp the peak
 (offpeak) value of its period, and aggregating such values to longer periods conserves them.""",
 ["inputs"], "for every series, peak definition, frequency pair", "Tests compare a few fixed frames.",
 [T+"peakconvert.py"],[("complete_bpoframe, tseries2poframe, poframe2tseries, poframe2poframe",T+"peakconvert.py")],["peakconvert"])
prop("C29", "Mapping data to another year follows the calendar",
 """When mapping timeseries to another year, every target period gets the value of a source period with the same month (monthly), the same month and quarter hour (sub-daily), same weekday or same holiday status and
 close in the year (daily), and the source index must cover a year; for lines, power and price are taken over and energy and revenue scale with duration.""",
 ["inputs"], "for every source span, target year, frequency and time zone", "Tests read fixed tables for few year pairs.",
 [T+"changeyear.py",T2+"changeyear.py"],[("map_index_to_index",T+"changeyear.py"),("map_to_year",T2+"changeyear.py")],["map_to_year"])
prop("C30", "Delivery periods of named products",
 """The delivery period of the n-th next day, month, quarter or year product as of a trading instant starts at a period boundary after the current period (quarters at January, April, July
 or October), spans exactly one period, and consecutive products are adjacent; completing missing interval ends (up to the year's begin or end, or the next year if both are missing) yields an ordered pair of
 period boundaries, while ends in distinct time zones or at distinct times of day are refused.""",
 ["inputs"], "for every trading instant, product length, front number, start-of-day, zone", "Tests sample some instants.",
 [T+"product.py",T+"leftandright.py",T+"stamp.py"],[("delivery_period",T+"product.py"),("stamps",T+"leftandright.py")],["delivery_period","leftandright"])
prop("C31", "Equality and truthiness reflect the data",
 """Two lines are equal exactly if they have the same kind, structure, index, children and values (up to rounding), and two states exactly if their
 components are equal; a line is truthy exactly if it, or one of its children, contains a non-zero value.""",
 ["inputs"], "for every pair of lines or states differing in one aspect", "Tests compare few equal and unequal pairs.",
 [C+"flat_methods.py",C+"nested_methods.py",S+"pfstate.py"],[("__eq__/__bool__",C+"nested_methods.py")],["==","bool()"])
prop("C32", "Exported tables show every value of every level",
 """The tabular export of a line or state contains, for each requested quantity and each level of children, exactly the values of that level at exactly the index, in the
 requested or default selection of columns, with or without units; and the export to excel or the clipboard contains all of them at the local times, with their units.""",
 ["inputs"], "for every line/state tree and every export option", "Tests check some columns for a fixed state.",
 [C+"dataframeexport.py",S+"pfstate.py","portfolyo/core/shared/excelclipboard.py"],[("Flat/Nested.dataframe",C+"dataframeexport.py")],["dataframe()"])
prop("C33", "Filling gaps interpolates short inner gaps only",
 """Filling gaps in a series or table replaces exactly the runs of missing values that are enclosed by values and no longer than the given maximum, by linear interpolation between their neighbours, leaving all other values and
 missing values untouched.""",
 ["inputs"], "for every pattern of missing values and maximum gap", "Tests use a few patterns.",
 [T+"frame.py"],[("fill_gaps",T+"frame.py")],["fill_gaps"])
prop("C34", "Printed overviews show the right levels, timestamps and values",
 """The textual overview of a line or state states its kind, start and end, time zone, start-of-day, number of periods, children, and columns with their units; and it shows, for each level (only the
 aggregate, if flattened), the values of the first and last periods - at most the requested number, with one line for the omitted ones - with each value, rounded for display, beside the start of its own
 period, except that the values of an only child are not repeated.""",
 ["inputs"], "for every tree of lines, number of rows, frequency and time zone", "Tests only check that printing does not fail.",
 [C+"text.py",S+"text.py","portfolyo/core/shared/text.py"],[("nestedtree/_flatdatablock",C+"text.py"),("df_with_strindex","portfolyo/core/shared/text.py")],["print()","repr()"])
prop("C35", "Plots show every value at its own delivery period",
 """The plot of a line has, for each dimension of the line, axes in that dimension's unit with a curve for the line and, if requested, one labelled curve for each child; the curve shows exactly the known
 values, each over its own delivery period (days and shorter: over its time; months and longer: at its own labelled category), and value labels stand at their own period. The plot of a state shows the
 volumes and prices of offtake, sourced and unsourced so. Lines of another frequency or dimension are refused on axes already in use.""",
 ["inputs"], "for every line and state, frequency, time zone and number of periods", "Tests only check that plotting does not fail.",
 ["portfolyo/tools/visualize/plot.py","portfolyo/tools/visualize/categories.py",C+"plot.py",S+"plot.py"],[("plot_timeseries_as_*","portfolyo/tools/visualize/plot.py"),("create_categories","portfolyo/tools/visualize/categories.py")],["plot()","plot_to_ax()"])
prop("C36", "Units never change a value, and comparisons see through them",
 """Expressing a quantity, series or table in base units keeps the value and dimension of every element (in MW, h, Eur, degC), turns dimensionless values (also those in units like ct/Eur) into floats, and
 leaves plain numbers, labels and column names as they are; splitting magnitude and unit agrees with this, and quantities of one dimension collected in one series keep their values. A unit has the
 standard name (w, q, p, r, duration, t, nodim) of its dimension, however it is spelled, and other dimensions are refused. Comparing two values, series or tables with the testing and closeness helpers
 finds them equal exactly if their elements are equal as quantities, whatever the units they are expressed in, and two indices compatible exactly if frequency, time zone and start-of-day agree.""",
 ["inputs"], "for all quantities, series and tables in any (derived) unit", "Tests only check a few unit identities.",
 [T+"unit.py",T+"testing.py",T+"frame.py",T+"unitdefinitions.txt"],[("defaultunit",T+"unit.py"),("assert_series_equal",T+"testing.py")],["tools.unit","testing"])
# Statements sharpened while the checks were built.
STATEMENTS = {
"C05": """The sum (difference) of two lines of the same kind has exactly the timestamps both share and, at each of them, the sum (difference) of the operands' power, energy, revenue
 (or prices for price-only lines), a complete result having the energy-weighted price (where its energy is not zero); two nested lines are merged child by child, same-named children being
 combined and the remaining ones kept (negated if subtracted), and if just one operand is nested it is flattened first. Adding zero or nothing returns an equal line, and subtraction
 equals addition of the negation.""",
"C08": """Flattening a line keeps its index, kind and aggregate values; and performing an operation (scaling, addition of equally structured lines, slicing, reindexing, resampling,
 concatenation, selecting volume or revenue) on a nested line and then flattening gives the same flat line as flattening the operands first and then performing it (prices where the energy
 is zero aside).""",
"C10": """Label-based selection returns exactly the timestamps between both labels inclusive, and interval slicing exactly those from the left label (incl) up to the right label (excl; also if
 it lies within a delivery period), for flat lines, nested lines (in every child) and portfolio states, with unchanged values, kind, children and frequency. Slicing at a boundary into a left and
 a right part partitions the line, and concatenating the parts restores it.""",
"C11": """Reindexing a line onto another valid index of the same frequency, time zone and start-of-day yields a line of the same kind and structure with exactly that index, holding the
 original values at timestamps it already had (in complete lines, the price being revenue over energy) and zero volume, price and revenue elsewhere (undefined price in complete lines); other
 indices are refused.""",
"C19": """Adding, subtracting, negating or scaling portfolio states acts on offtake and sourced, and gives the unsourced price that keeps unsourced revenue additive; changing the frequency of a
 state conserves offtake, sourced and unsourced energy and revenue, the unsourced price being unsourced revenue over unsourced energy wherever something is unsourced. Other operand
 combinations are refused.""",
"C25": """Making a series time-zone agnostic or aware keeps the value of each wall time (floating) or instant (not floating): days and longer keep their values one to one; for shorter
 periods the skipped hour of a spring day is filled with, and the repeated hour of an autumn day reduced by, the documented rule, so that every day has 24 hours without, and 23, 24 or 25
 hours with, a time zone; name and data type are kept. Converting to the representation a series already has changes nothing.""",
"C26": """The weighted average of values equals the sum of value times weight over the sum of weights (without weights: the mean of the known values); values with weight zero never influence
 it, and an undefined value with non-zero weight makes it undefined. If the weights add up to zero, the result is the common value if the values with non-zero weight are all equal, and undefined
 otherwise (a series with only zero weights is undefined). Series and tables, row-wise and column-wise, agree.""",
"C27": """A peak definition built from a single range of times of day (left inclusive, right exclusive) and weekdays marks as peak exactly the sub-daily periods whose local start lies in the
 range on one of the weekdays, and peak and offpeak durations per delivery period count exactly these, adding up to the period's duration. Definitions that cannot be applied (no
 weekday, times not on a quarter hour, no restriction at all, or delivery periods too long for them) are refused.""",
"C28": """Completing base, peak and offpeak values yields the unique third value for which base is the duration-weighted average (or the sum, for summable quantities) of peak and offpeak in
 each period; decomposing a timeseries gives the (duration-weighted average, or summed) peak and offpeak values of each full period; reconstructing one gives each peak (offpeak) timestamp the peak
 (offpeak) value of its period (summable values: its share by duration); and converting such values to periods of another length conserves them.""",
"C29": """When mapping timeseries to another year, the result covers the same months in that year, and each month takes its data from one source month of the same name (itself if
 the source has it, else the least used, then earliest one). Days take the values of a day of equal length in that month: workdays of the nearest least-used workday with the same weekday, holidays of the same
 holiday, or else of any holiday or Sunday; sub-daily periods those of the same place in the day. Months or days without correspondence are refused. For lines, power and price are taken over, and
 energy and revenue scale with duration.""",
"C30": """The delivery period of the n-th next day, month, quarter, season (two quarters, from April or October) or year product as of a trading instant starts at a period boundary after the
 current period (quarters at January, April, July or October), spans exactly one period, and consecutive products are adjacent; completing missing interval ends yields an ordered pair of
 period boundaries.""",
}
for p in P:
    if p["id"] in STATEMENTS:
        p["statement"] = " ".join(STATEMENTS[p["id"]].split())
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
