GENERIC = "checks/gen.py reads the fields of every class from the models themselves (so new classes and attributes are taken in) and makes a symbolic value of the declared kind for one leaf at a time; "
ORACLE = {
"C01": GENERIC + "the real `to_dict`, `from_dict` and every validator run on it. Oracle: the leaf read back equals the value given (numbers as terms, texts character by character), every other leaf keeps its concrete value, writer and dictionary are unchanged (compared to snapshots).",
"C02": GENERIC + "the real `to_json` / `from_json` run, the json module by its contract on the symbolic leaves. Same oracle as C01, types included.",
"C03": GENERIC + "the real `to_xml` / `from_xml` with ElementTree elements whose texts may be symbolic. Oracle: every set leaf is read back equal.",
"C04": GENERIC + "two objects that differ in that leaf only. Oracle: `==` is true when the two symbolic values agree within the tolerance and false when they are clearly apart (a factor ten between is left out); both directions, `!=`, reflexivity.",
"C05": GENERIC + "each leaf is set by attribute, dotted name, construction, dictionary and update. Oracle: a conversion table per kind written from the property (decimal text to number, enumeration by value, truth words); refused values must raise and leave the object as it was.",
"C06": GENERIC + "`update` from a second object. Oracle: set leaves are copied, unset leaves of the other leave the first alone, the other is unchanged, `match` raises exactly when the two differ.",
"C07": GENERIC + "changes applied to one side of a copy. Oracle: equality before, the other side's snapshot unchanged after, in both directions.",
"C08": "The validators of Location and its users run on symbolic numbers and on symbolic digits of decimal and d:m:s texts. Oracle: the position as a rational function of degrees, minutes and seconds with the sign applied to the whole; text to position and back within the printed seconds.",
"C09": "MTime and MDate with symbolic microseconds since the epoch (pandas Timestamps are modelled as an integer). Oracle: the integers' own order and sums.",
"C10": "Digits of ISO texts, epoch numbers and the broken-down fields are symbolic; the calendar is modelled in integer arithmetic. Oracle: the instant as an integer number of microseconds, the leap second table written down in the check from the IERS list.",
"C11": "Histories of operations with symbolic one and two letter keys. Oracle: an association list kept by the harness.",
"C12": "Band with symbolic edges. Oracle: membership of a symbolic point; overlap and containment are judged by membership (a point in both / no point of one outside the other, decided from the edges and closedness), harmonics by filtering the list.",
"C13": "FrequencyBands and DecimationLevel with symbolic edges; sorting forks on the comparisons. Oracle: the result is a permutation and is ordered, tables agree row by row; FFT axis and index bounds from their definitions.",
"C14": "Symbolic poles, zeros, gain and frequency through the real filter classes. Oracle: the formula, multiplied out; both sides are brought to an exact normal form of rational functions (below).",
"C15": "Symbolic tables and frequencies; the interpolation contract sorts and picks segments by forking. Oracle: amplitude and phase on the straight line of the segment.",
"C16": "Symbolic coefficients, gain and rates. Oracle: the mirrored taps and the sum of taps times the powers of exp(-i w dt).",
"C17": "Chains of real filters with symbolic gains and delays. Oracle: the product of the members' own responses computed one by one.",
"C18": "Histories of add and remove with symbolic names, stages and flags. Oracle: a list of (name, applied, stage) kept by the harness.",
"C19": "Histories with symbolic component names. Oracle: a name to kind/value map kept by the harness; recorded lists are compared with the channels held.",
"C20": "Symbolic seconds and positions. Oracle: minimum and maximum over the members that have an end (ties included), never shrinking the period there was.",
"C21": "Histories on Station, Survey and Experiment with symbolic identifiers. Oracle: a name to values map.",
"C22": "Trees of every shape within the bounds through dict, JSON and XML. Oracle: the written tree, compared object by object.",
"C23": "Names, symbols, letter case and separators are symbolic; the table look-up runs row by row. Oracle: the row itself, the composition of the rows of the parts.",
"C24": "Symbolic sampling rate and direction (cos/sin pair). Oracle: the decoded range holds the rate, the decoded orientation class holds the azimuth, the measurement is the same.",
"C25": "Survey trees with symbolic positions, orientations, rates, times and gains through mt_to_xml and xml_to_mt, with obspy's inventory objects kept as they are (symbolic stand-ins for its number and time classes). Oracle: the tree written.",
"C26": "Arrays of symbolic numbers in real xarray objects (object dtype). Oracle: a dictionary (period, output, input) to value kept by the harness.",
"C27": "Symbolic covariances. Oracle: error squared equals |residual * inverse power|, error >= 0.",
"C28": "Symbolic values in real datasets. Oracle: the union of the selected (period, value) entries in ascending order.",
"C29": "The transfer function of the target axes is symbolic; the harness makes what turned sensors would measure (symbolic angles) and the code must recover it. Oracle: those values; errors from the covariances turned by the harness.",
"C30": "A Z-file object with symbolic numbers is written to memory, the text (with symbolic printed numbers) is parsed again by the code. Oracle: the values, to half a unit of the last printed digit.",
"C31": "An EDI object with symbolic numbers is written to memory and read again; other layouts are written by the harness. Oracle: the values to half a unit of the printed digit; component, frequency and sign.",
"C32": "Header, Information and DefineMeasurement with symbolic coordinates, identifiers and texts. Oracle: the values given, the sign of the whole for positions.",
"C33": "Spectra are built by the harness from a symbolic transfer function and exact source fields. Oracle: that transfer function.",
"C34": "The Data section's real write_data/read_data on symbolic numbers. Oracle: values to the printed digits, at their period and channels, absent quantities absent.",
"C35": "Real to_*/from_* conversions on symbolic numbers. Oracle: values and errors (squares where the format holds variances) and position; the source's snapshot.",
"C36": "File texts with symbolic numbers parsed by the real readers. Oracle: the harness's own table of line to (period, element), J-file and Zonge sign conventions.",
"C37": "Kernels on symbolic values and bounds. Oracle: range, constants, monotonicity over pairs of symbolic values, products and combinations.",
"C38": "Symbolic lengths, overlaps, rates and factors. Oracle: the definitions in integer and rational arithmetic.",
"C39": "Symbolic levels and one symbolic change. Oracle: judged equal before, different after (a change by any non-zero amount).",
"C40": "Symbolic authors, texts and seconds through printing and parsing. Oracle: the parts given.",
"C41": "Symbolic keys in dictionary shapes. Oracle: the inverse function's argument; naming rules written as predicates on characters.",
"C42": "Every scheme and combination; user names symbolic. Oracle: injectivity and inverse, lists in the standard order.",
"C43": "Histories on FC and Decimation with symbolic names, values and seconds. Oracle: a name to value map, minimum and maximum of times.",
}
