"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

B="mt_metadata/base/"; C="mt_metadata/common/"; T="mt_metadata/timeseries/"; F=T+"filters/"; X=T+"stationxml/"
PR="mt_metadata/processing/"; TF="mt_metadata/transfer_functions/"; IO=TF+"io/"; U="mt_metadata/utils/"

p("C01","Metadata survives a dictionary round trip",
  "For every metadata class, writing an object to a dictionary (flat dotted keys or nested, required-only off) and loading that dictionary into a new object of the same class gives an object with the same value for every attribute, including values that look empty such as 0, False, empty lists and years. Writing never changes the object that is written, nor does reading change the dictionary that is read.",
  ["inputs"],"every metadata class, every attribute, every valid value of it; flat and nested dictionaries",
  "Tests round-trip a few hand-written dictionaries per class; values at the edges (0.0, False, '', 1980, long lists) and all attributes at once are never enumerated.",
  [B+"metadata.py",B+"helpers.py",B+"pydantic_helpers.py"],
  [("to_dict / from_dict",B+"metadata.py"),("flatten_dict / structure_dict",B+"helpers.py")],["to_dict()","from_dict()"])
p("C02","Metadata survives a JSON round trip",
  "For every metadata class, the JSON text an object writes (nested or flat, any indent) is valid JSON and reading it into a new object of the same class gives the same value for every attribute; numbers, booleans, times, units, enumerations, lists and nested objects keep their type and value. Writing JSON does not change the object.",
  ["inputs"],"every metadata class, every attribute, every valid value; flat/nested; from text and from file",
  "Tests round-trip sample objects; the conversion rules for each value type are only met at the sampled values.",
  [B+"metadata.py",B+"helpers.py"],[("to_json / from_json",B+"metadata.py"),("NumpyEncoder",B+"helpers.py")],["to_json()","from_json()"])
p("C03","Metadata survives an XML round trip",
  "For every metadata class of the time-series and common parts, writing an object as an XML element and reading that element into a new object of the same class gives the same value for every attribute that is set (numbers numerically equal, lists with the same members in the same order). Writing XML does not change the object. (Comment and ChannelResponse are read as parts of other objects only.)",
  ["inputs"],"every time-series/common metadata class, every attribute, every valid value",
  "Tests compare the XML text of fixtures; numbers, booleans, lists of several lengths and nested objects are sampled only.",
  [B+"metadata.py",B+"helpers.py"],[("to_xml / from_xml",B+"metadata.py"),("dict_to_xml / element_to_dict",B+"helpers.py")],["to_xml()","from_xml()"])
p("C04","Metadata equality is an equivalence that sees every attribute",
  "Two metadata objects of the same class compare equal exactly when all their attributes agree, where numbers agree within a relative tolerance of 1e-5 plus 1e-8 absolute and unset/null-like values agree with each other; changing any one attribute to a clearly different valid value makes them unequal in both directions. Equality is reflexive and symmetric, and inequality is its negation. (Attributes the class itself names as left out of comparison, and zero against unset, are not claimed; lists of members are compared member by member.)",
  ["inputs"],"every metadata class, every attribute, every pair of valid values",
  "Tests compare a few objects with one or two changed attributes; an attribute that comparison overlooks is never noticed.",
  [B+"metadata.py"],[("__eq__ / __ne__ / _deep_equal",B+"metadata.py")],["==","!="])
p("C05","Attributes are validated on every assignment",
  "Assigning a value to any attribute of a metadata object leaves the attribute with the declared type, with the value given up to a faithful conversion (the number a numeric string denotes, the member of an enumeration, the boolean meant); a value that cannot be converted is refused with an error and the object is unchanged. The same value given at construction, by attribute assignment, by dotted name or by loading a dictionary ends as the same stored value. (Attributes an object derives from others, such as lists of the names of its members, follow those others.)",
  ["inputs","histories"],"every metadata class and attribute, every value offered, each way of setting it",
  "Tests assign a handful of values; that the four ways of setting agree for every attribute and value is never quantified over.",
  [B+"metadata.py",B+"helpers.py",U+"validators.py"],[("__setattr__ / set_attr_from_name / update_attribute",B+"metadata.py"),("recursive_split_setattr",B+"helpers.py")],["attribute assignment","constructor","set_attr_from_name","from_dict"])
p("C06","Updating from another object copies exactly the set values",
  "Updating a metadata object from another of the same class copies every value that is set in the other and leaves alone each attribute whose value in the other is unset (None, empty, 'none', default time, zero position); attributes listed as having to match raise an error when they differ, and the other object is never changed. (Zero and False count as unset; a comment is one value whose author and time go with its text; name lists derived from members are not attributes of their own.)",
  ["inputs"],"every pair of objects of a class, every attribute set or unset in either, every match list",
  "The tests update a couple of attributes of a couple of classes.",
  [B+"metadata.py"],[("update",B+"metadata.py")],["update()"])
p("C07","Copies of metadata are equal and independent",
  "A copy of a metadata object equals the original, and changing any attribute, list member or nested object of the copy (or of the original) afterwards never shows in the other.",
  ["inputs","histories"],"every metadata class, every attribute changed after copying",
  "Tests mutate one or two attributes of copies; shared mutable state in an untested attribute stays hidden.",
  [B+"metadata.py",T+"run.py",T+"station.py",T+"survey.py",C+"list_dict.py"],[("copy",B+"metadata.py")],["copy()","copy.deepcopy"])
p("C08","Geographic positions are range checked and DMS conversion is faithful",
  "A latitude is accepted exactly when it lies in [-90, 90]; a longitude or elevation is stored as the number it denotes, given as number, decimal string or degrees:minutes:seconds, with the sign applying to the whole value even when the degrees are zero. Converting a position to degrees:minutes:seconds text and back gives the position within the precision printed, with minutes and seconds always in [0, 60).",
  ["inputs"],"every latitude, longitude, elevation as number, decimal string or D:M:S string",
  "Tests use a few positions, none just south of the equator or west of Greenwich by less than a degree.",
  [U+"location_helpers.py",C+"location.py",C+"basic_location.py"] if os.path.exists("/repo/"+C+"basic_location.py") else [U+"location_helpers.py",C+"location.py"],
  [("validate_position / convert_position_*",U+"location_helpers.py")],["Location.latitude/longitude/elevation","convert_position_str2float","convert_position_float2str"])
p("C09","Times are totally ordered and arithmetic is exact",
  "For any two times exactly one of <, ==, > holds, <= and >= are their unions, != is the negation of ==, the relations are transitive and do not depend on the form (time object, text, epoch) of the other operand; equal times hash alike. Adding a duration and subtracting it again gives the same time, and the difference of two times added to the earlier gives the later. (At microsecond resolution.)",
  ["inputs"],"every pair/triple of representable times and every duration",
  "Tests compare a few fixed stamps; a comparison that is wrong only for equal times is invisible to them.",
  [C+"mttime.py"],[("MTime comparisons and arithmetic",C+"mttime.py")],["MTime ==,<,>,<=,>=,hash,+,-"])
p("C10","Times parse, print and convert consistently",
  "Parsing the ISO text of a time gives that time; epoch seconds, ISO text, date and the broken-down fields all denote the same UTC instant; times with an offset are converted to UTC. GPS time converts to UTC by subtracting the leap seconds in force on that date for every date in the supported range, with no gaps. (At microsecond resolution; plain numbers up to 3e11 are seconds.)",
  ["inputs"],"every instant in range 1980-2100 at the resolution offered, each input form, every GPS date",
  "Tests use one stamp and a few leap second dates.",
  [C+"mttime.py"],[("parse / validate_gps_time / calculate_leap_seconds",C+"mttime.py")],["MTime","get_now_utc","calculate_leap_seconds"])
p("C11","Ordered key lists behave as one ordered mapping",
  "The container of channels, runs, stations, surveys and filters behaves as an ordered mapping from names to objects: index access and key access agree, iteration follows insertion order, adding an existing key replaces in place, removing or popping a key takes away that entry and only that entry, and sort orders by key. Reading never changes the container.",
  ["histories","inputs"],"every sequence of operations up to the bound on every set of keys",
  "Unit tests run each operation on one fixed container.",
  [C+"list_dict.py"],[("ListDict",C+"list_dict.py")],["ListDict"])
p("C12","Frequency bands behave as intervals",
  "A frequency band contains a value exactly when it lies between its edges with the declared closedness; overlap and containment between bands agree with membership of points, intersection of membership is symmetric, and the centre frequency (arithmetic or geometric), width, and fractional bandwidth follow from the edges and the centre lies within the band. The harmonics assigned to a band from a list of frequencies are exactly those it contains.",
  ["inputs"],"every pair of bands, every closedness, every frequency grid of bounded length",
  "Tests use two or three bands.",
  [C+"band.py"],[("Band",C+"band.py")],["Band"])
p("C13","Processing frequency bands stay consistent with edges and indices",
  "A collection of frequency bands keeps every band it was given, however given and without changing what was given; sorting by lower edge, upper edge or centre, ascending or descending, and listing in either direction give a permutation of the bands in that order; the table, array, bands, centres and periods it reports correspond band by band. A decimation level reports index bounds, band table, band edges and harmonic indices that follow from its bands, FFT frequencies that are the multiples of sampling rate over window length below the Nyquist frequency, and bands assigned from edges take exactly the harmonics of their level that lie within the edges, at the level's decimated sampling rate.",
  ["inputs","configurations"],"every set of bands within the bound, every sampling rate, window length and index range",
  "Tests use one preset band file.",
  [PR+"aurora/frequency_bands.py",PR+"aurora/decimation_level.py"],[("FrequencyBands",PR+"aurora/frequency_bands.py"),("assign_bands",PR+"aurora/processing.py")],["FrequencyBands","DecimationLevel","Processing.assign_bands"])
p("C14","Analytic filter responses follow their formulas",
  "The complex response of a pole-zero filter at any frequency is gain times normalization factor times the product of (s minus zeros) over the product of (s minus poles) with s = i2πf; a coefficient filter's is its gain at every frequency, and a time delay's is a unit-modulus phase exp(-i2πf·delay) at every frequency. Responses at negative frequencies are conjugates of those at positive ones when zeros and poles are real or in conjugate pairs, and evaluating does not change the filter.",
  ["inputs"],"every frequency vector, poles, zeros, gain, delay within bounds",
  "Tests compare one or two instruments' responses at fixed frequencies.",
  [F+"pole_zero_filter.py",F+"coefficient_filter.py",F+"time_delay_filter.py",F+"filter_base.py"],[("complex_response",F+"pole_zero_filter.py")],["complex_response"])
p("C15","Tabulated responses pass through their table",
  "A frequency-amplitude-phase table filter's response at a tabulated frequency has the tabulated amplitude times the gain and the tabulated phase (degrees or milliradians understood when evident from their size), whatever the order of the table and the order and form (array, list, one number) in which frequencies are asked for; between table points amplitude and phase are interpolated on straight lines, beyond the table the end segments are continued without changing values inside, and a table whose columns differ in length is refused when evaluated.",
  ["inputs"],"every table within the bound, every request vector",
  "Tests evaluate one coil calibration.",
  [F+"frequency_response_table_filter.py"],[("complex_response",F+"frequency_response_table_filter.py")],["FrequencyResponseTableFilter.complex_response"])
p("C16","FIR filters honour symmetry, gain and delay",
  "The full tap sequence of a FIR filter is the coefficients mirrored according to the declared symmetry (none: as is; odd: mirrored about the last coefficient; even: mirrored with the last repeated), its response at any frequency is the sum of taps times exp(-i2πf k dt), scaled so that it equals the declared gain at the gain frequency (zero unless declared), and it is linear in the gain; the output sampling rate is the input rate over the decimation factor.",
  ["inputs"],"every coefficient vector within the bound, symmetry, gain, decimation rate",
  "Tests use one digitizer's FIR.",
  [F+"fir_filter.py"],[("full_impulse_response / complex_response",F+"fir_filter.py")],["FIRFilter"])
p("C17","Channel responses are the product of their filters",
  "The response of a chain of filters is the product of the responses of the chosen members, whatever their order, with time delays and decimating filters included exactly when asked for; giving a sub-list of filters uses exactly those members, the total delay is the sum of the delays, and the units at the two ends of the chain are the input units of the first and the output units of the last member, with mismatched neighbours refused.",
  ["inputs","configurations"],"every chain within the bound, every selection, every frequency vector",
  "Tests evaluate a fixed chain of one instrument.",
  [F+"channel_response.py"],[("complex_response",F+"channel_response.py")],["ChannelResponse"])
p("C18","The applied-filter list of a channel stays coherent",
  "A channel's list of filters built by adding and removing always has unique names (in lower case, however they were written) and is ordered by stage; adding inserts one filter at the requested stage (next after the last by default; nothing when the name is present), removing by name takes out exactly that filter and renumbers without gaps when asked, and the lists of names and applied flags have the same length and order as the filters, also when given in the older parallel-lists form.",
  ["histories","inputs"],"every sequence of add/remove within the bound, every legacy description",
  "Tests do a few adds and removes on a fixed list.",
  [T+"channel.py",T+"filtered.py",T+"filtered.py"],[("add_filter/remove_filter",T+"channel.py")],["Channel.filters","add_filter","remove_filter"])
p("C19","Runs manage their channels by name",
  "Adding a channel to a run makes it retrievable by its component name and listed once under its kind (electric, magnetic, auxiliary), adding one that exists updates it, and removing takes away exactly that one; a channel given as a dictionary becomes the kind its description says (electric, magnetic, auxiliary; without a type the first letter of the component decides, as for channels given by name). The run's recorded-channel lists always correspond to the channels it holds.",
  ["histories","inputs"],"every sequence of operations and every component name/kind",
  "Tests add a few standard channels.",
  [T+"run.py"],[("add_channel / remove_channel",T+"run.py")],["Run"])
p("C20","Containers enclose their members in time and space",
  "After members are added or the update is requested, a run's time period encloses its channels', a station's its runs', and a survey's its stations'; the survey's bounding box encloses every station that has a position. The period and the box are the least ones that do so, whatever the order of adding, members without a period or with one end only count as far as they go, and a period is never shrunk (survey periods are dates).",
  ["histories","inputs"],"every set of member periods/positions and every order of adding",
  "Tests use one or two members with fixed dates.",
  [T+"run.py",T+"station.py",T+"survey.py"],[("update_time_period / update_bounding_box",T+"survey.py")],["Run","Station","Survey"])
p("C21","Stations, surveys and experiments manage their members",
  "Adding a run, station or survey makes it retrievable by its identifier and present once, adding one that exists merges it, removing takes away exactly that one, and merging two containers with non-overlapping members gives the union with every member unchanged; failing look-ups report absence instead of another member, and sorting a station's runs by time orders them by start without losing any.",
  ["histories","inputs"],"every sequence of add/remove/merge within the bound",
  "Tests add two members with fixed names.",
  [T+"station.py",T+"survey.py",T+"experiment.py"],[("add_* / remove_* / merge",T+"survey.py")],["Station","Survey","Experiment"])
p("C22","An experiment survives JSON and XML",
  "Writing a whole experiment (surveys, stations, runs, channels, filters) to a dictionary, JSON or XML and reading it into a new one gives an equal experiment with the same members in the same places, for any number of members of each kind, including one and none. (Attributes without a value may come back as their default; writing XML first brings time periods and positions up to date.)",
  ["inputs","configurations"],"every experiment tree within the bound, with any attribute values",
  "Tests use a fixed tree; the case of a single filter of a kind and other small shapes are missing.",
  [T+"experiment.py"],[("to_dict/from_dict/to_xml/from_xml",T+"experiment.py")],["Experiment"])
p("C23","Units are recognised by name, symbol and alias consistently",
  "Every known unit is found by its name in any letter case and by its symbol (the symbol's case matters, except that a single letter which is no symbol stands for the one of the other case), each giving the same unit; counts are known by every of their names; a recognised name, once validated, is a fixed point; compound units (joined by per or / for quotients and spaces for products, with any spacing and brackets) resolve to the composition of their parts, and an unknown unit is refused or reported, never mapped to another unit.",
  ["inputs"],"every unit string up to the length bound",
  "Tests look up a few units.",
  [C+"units.py"],[("get_unit_object",C+"units.py")],["get_unit_object","validate units fields"])
p("C24","FDSN channel codes encode and decode consistently",
  "The channel code made for a channel has the band letter of a sampling-rate range that holds its sampling rate (A when none does), the instrument letter of its measurement and an orientation character for its direction; decoding that code gives back a range containing the sample rate, the same measurement kind (tide is read as magnetic, unknown kinds are Y) and orientation class, and codes that are not three known letters are refused. Making a code is total for positive sampling rates and case independent.",
  ["inputs"],"every positive sampling rate, every measurement type and azimuth",
  "Tests use a few sampling rates and angles.",
  [X+"fdsn_tools.py"],[("make_channel_code / read_channel_code",X+"fdsn_tools.py")],["make_channel_code","read_channel_code"])
p("C25","An experiment survives StationXML",
  "Converting an experiment's survey, stations, runs, channels and response filters to a StationXML inventory and back preserves identifiers, positions, time periods, sampling rates, orientations, channel kinds and the filter responses, for any number of runs and channels per station, including a first run. (Station identifiers come back in capitals, filter names in lower case; the position of an electric channel is that of its positive electrode; runs are joined in one epoch when nothing but their times and positions to 0.001 or angles to 0.01 degrees differ.)",
  ["inputs","configurations"],"every experiment tree within the bound, with any attribute values",
  "Tests translate two archived files.",
  [X+"xml_inventory_mt_experiment.py",X+"xml_station_mt_station.py",X+"xml_channel_mt_channel.py",X+"xml_network_mt_survey.py",X+"xml_equipment_mt_run.py",X+"utils.py"],
  [("XMLInventoryMTExperiment",X+"xml_inventory_mt_experiment.py"),("XMLChannelMTChannel",X+"xml_channel_mt_channel.py")],["mt_to_xml/xml_to_mt"])
p("C26","Transfer function arrays keep every element in its place",
  "Setting impedance, tipper, their errors or residual/signal covariance on a transfer function from arrays and reading them back gives the same numbers at the same period, output and input channel, under any naming of channels; the other quantities are untouched, wrong shapes, and labelled arrays on other periods than the data already set, are refused, and reported presence of impedance or tipper agrees with the data being set. Period and frequency are reciprocals.",
  ["inputs","histories"],"every array of values for a bounded number of periods, every order of setting, every channel naming",
  "Tests set all-zeros or fixed arrays.",
  [TF+"core.py"],[("impedance/tipper setters and getters",TF+"core.py")],["TF.impedance","TF.tipper","TF.*_error"])
p("C27","Transfer function errors follow from the covariances",
  "When signal and residual covariances are set, each impedance or tipper error is the square root of the absolute product of the matching residual covariance and inverse signal power diagonal entries, for every output/input pair and period, and it is never negative.",
  ["inputs"],"every covariance value for a bounded number of periods and channels",
  "Tests check one dataset.",
  [TF+"core.py"],[("_compute_error_from_covariance",TF+"core.py")],["TF.impedance_error","TF.tipper_error"])
p("C28","Merging transfer functions keeps each input's periods",
  "Merging transfer functions over period ranges gives exactly the data of each input within its range, in ascending period order, with values at each period unchanged, and leaves the inputs as they were. An input without a period in its range contributes nothing. (Inputs whose selected periods overlap are outside the property.)",
  ["inputs"],"every pair of period vectors and values within the bound and every range",
  "Tests merge one file with itself.",
  [TF+"core.py"],[("merge / _get_merge_tf_list",TF+"core.py")],["TF.merge"])
p("C29","Z-file rotation to orthogonal axes is exact",
  "Rotating Z-file transfer functions and covariances from the sensors' measurement azimuths to a target azimuth recovers the transfer function of the rotated coordinate system for any azimuths of orthogonal sensor pairs: rotation by zero is the identity, rotating a pair of sensors that already point to the target axes changes nothing, and errors follow from the rotated covariances and stay non-negative.",
  ["inputs"],"every azimuth of the sensor pairs, every transfer function and covariance value",
  "Tests read one file with fixed azimuths.",
  [IO+"zfiles/zmm.py"],[("calculate_impedance / calculate_tippers",IO+"zfiles/zmm.py")],["ZMM.calculate_impedance","ZMM.calculate_tippers"])
p("C30","Z-files survive being written and read",
  "Writing transfer functions, signal covariance and residual covariance to a Z-file and reading it gives back every value, at its period and element, to the precision printed, together with station position, declination, channel order and orientation, for 3, 4 or 5 channels. (Station names are of letters, digits and underscores.)",
  ["inputs"],"every value, any number of periods within the bound, 3..5 channels",
  "Tests round-trip one file.",
  [IO+"zfiles/zmm.py"],[("write / read",IO+"zfiles/zmm.py")],["ZMM.read","ZMM.write"])
p("C31","EDI data blocks survive being written and read",
  "Impedance, tipper, variance and frequency values written to an EDI file are read back to the printed precision at the same frequency and component, absent impedance or tipper stay absent, errors and variances are squares/roots of each other, and rotation angles are kept. (Absent blocks read as zeros; 1e32 is the format's mark for a missing value.)",
  ["inputs"],"every value, any number of frequencies within the bound, with and without tipper",
  "Tests round-trip fixed files.",
  [IO+"edi/edi.py"],[("_write_data_block / _read_data / _read_mt",IO+"edi/edi.py")],["EDI.read","EDI.write"])
p("C32","EDI metadata goes to the place it belongs",
  "Header, information and measurement sections written by an EDI object and read again give the same station identity, position (including the sign of small coordinates), dates and channel geometry; each channel measurement keeps its own identifier, azimuth and coordinates, and converting EDI measurements to channel metadata and back preserves dipole length and azimuth. (An electric channel with electrode positions has the azimuth of those; without them the declared one.)",
  ["inputs"],"every position, angle, coordinate and identifier within bounds",
  "Tests compare fixture files.",
  [IO+"edi/metadata/header.py",IO+"edi/metadata/define_measurement.py",IO+"edi/metadata/emeasurement.py",IO+"edi/metadata/hmeasurement.py",IO+"edi/metadata/information.py"],
  [("Header.write_header/read_header",IO+"edi/metadata/header.py")],["Header","DefineMeasurement","EMeasurement","HMeasurement"])
p("C33","EDI spectra give the right transfer functions",
  "For any invertible cross-power spectra made from a transfer function and magnetic source fields, computing from the spectra recovers exactly that impedance (and tipper when there is a vertical channel), with or without remote reference channels and for every channel order. (A cross power of exactly zero counts as missing.)",
  ["inputs"],"every spectra matrix of 4..7 channels, each channel order",
  "Tests read one spectra file with seven channels.",
  [IO+"edi/edi.py"],[("_read_spectra",IO+"edi/edi.py")],["EDI z, t from spectra"])
p("C34","EMTF XML data survive being written and read",
  "Transfer function values, variances and covariance matrices written to EMTF XML are read back to the printed precision at the same period, output and input channel, whatever quantities are present. (1e32 is the format's mark for a missing value.)",
  ["inputs"],"every value, any number of periods within the bound, with and without tipper/covariances",
  "Tests round-trip fixed files.",
  [IO+"emtfxml/metadata/data.py"],[("Data.write / read",IO+"emtfxml/metadata/data.py")],["emtfxml Data"])
p("C35","Transfer functions keep their data across format objects",
  "Converting a transfer function to an EDI, EMTF XML, Z-file or J-file object (where offered) and back keeps every impedance and tipper value at its period and component and the errors consistent with them, and keeps station location; conversion does not change the source. (The residual covariance between electric and vertical magnetic channels has no place in EMTF XML, the covariances none in EDI.)",
  ["inputs"],"every impedance/tipper/error value for a bounded number of periods; with and without tipper",
  "Tests compare fixture files with fixed numbers.",
  [TF+"core.py",IO+"edi/edi.py",IO+"emtfxml/emtfxml.py",IO+"zfiles/zmm.py"],[("to_* / from_*",TF+"core.py")],["TF.to_edi/from_edi","TF.to_emtfxml/from_emtfxml","TF.to_zmm/from_zmm"])
p("C36","J-file and Zonge values are read into the right elements",
  "Impedance, tipper, error and period values of a J-file, and magnitude/phase with errors of a Zonge AVG file, are read to the element and period of the line they stand on with the sign and unit conventions of the format (-999 being the J-file's mark of a missing value); the position block gives the station position; and the amplitude-phase and real-imaginary forms of Zonge data convert into each other without loss.",
  ["inputs"],"every value in the data columns, a bounded number of periods",
  "Tests read two files.",
  [IO+"jfiles/jfile.py",IO+"zonge/zonge.py"],[("JFile.read",IO+"jfiles/jfile.py"),("ZongeMTAvg",IO+"zonge/zonge.py")],["JFile","ZongeMTAvg"])
p("C37","Feature weights stay in [0,1] and respect their edges",
  "Every feature weighting kernel with finite bounds (lower not above upper, steepness not negative) gives weights in [0,1] for every feature value, constant on each side of its transition region (0 and 1 for the rectangle, hann and blackman tapers and the hard tanh activation, 0.08 and 1 for hamming, the activation's own end values otherwise), is monotone across it in the direction its threshold declares, and is a step where the bounds are equal; a taper kernel is the product of its low and high cut, a feature's weight the product of its active kernels, and a channel's weight the declared combination (multiplication, mean, minimum, maximum) of its features' weights, 1 without features, refusing missing feature values; a band takes the weights of the frequency closest to its centre.",
  ["inputs"],"every feature value, every transition region, every style",
  "Tests evaluate kernels at a few points.",
  ["mt_metadata/features/weights/monotonic_weight_kernel.py","mt_metadata/features/weights/taper_monotonic_weight_kernel.py","mt_metadata/features/weights/activation_monotonic_weight_kernel.py","mt_metadata/features/weights/feature_weight_spec.py","mt_metadata/features/weights/channel_weight_spec.py"],
  [("evaluate",  "mt_metadata/features/weights/")],["evaluate()"])
p("C38","Window and decimation arithmetic is consistent",
  "Window advance is window length minus overlap, a series is long enough exactly when the last of the minimum number of windows ends within it, striding windows are exactly those that end within the series, the spectrum's frequencies are the first half of the multiples of sample rate over window length, below Nyquist, each decimation level's sample rate is that of the level above divided by its decimation factor in every way levels are made, and the taper is always that of the window's current type, length and normalization.",
  ["inputs","configurations"],"every window length, overlap, number of samples, sample rate, factor list within bounds",
  "Tests use the default window and one cascade.",
  [PR+"window.py",PR+"short_time_fourier_transform.py",PR+"time_series_decimation.py",PR+"fourier_coefficients/decimation.py",PR+"aurora/decimation_level.py"],
  [("num_samples_advance / taper / fft_harmonics",PR+"window.py"),("assign_bands",PR+"aurora/processing.py"),("is_valid_for_time_series_length",PR+"aurora/decimation_level.py"),("fc_decimations_creator",PR+"fourier_coefficients/decimation.py")],["Window","DecimationLevel","FCDecimation"])
p("C39","Processing levels agree with the archived coefficients they describe",
  "The archived-coefficient description made from a processing level is always judged consistent with that level, and changing any of the parameters that determine the coefficients (sample rate, window type, length, overlap, normalization, arguments or clock zero, minimum number of windows, harmonics, detrending before the transform, prewhitening, recoloring, method) or dropping a needed channel makes it judged inconsistent; the description does not follow later changes of the level.",
  ["inputs","configurations"],"every processing level configuration, every single changed parameter",
  "Tests check one configuration and a few changes.",
  [PR+"aurora/decimation_level.py",PR+"fourier_coefficients/decimation.py"],[("to_fc_decimation / is_consistent_with_archived_fc_parameters",PR+"aurora/decimation_level.py")],["is_consistent_with_archived_fc_parameters"])
p("C40","Comments survive printing and parsing",
  "A comment with an author, a time and a text (texts without the separator '|' and without blanks at their ends), printed as text and given to another object, gives back the same author, time and text; a plain text without the separators is taken wholly as the text; comparing a comment with another comment, a text, a dictionary, None (taken as an empty comment) or anything else always gives a truth value and distinguishes different texts.",
  ["inputs"],"every author and text (without the separator) and time",
  "Tests parse a few strings.",
  [C+"comment.py"],[("as_string / from string",C+"comment.py")],["Comment"])
p("C41","Flattening and structuring dictionaries are inverse",
  "For every nested dictionary with nonempty string keys free of the separator and no empty levels, flattening and then structuring gives the nested dictionary back and structuring and then flattening gives the flat one, with every separator, leaving the argument unchanged; normalising an attribute name gives a name without slashes or capitals (a capital starts a word joined by an underscore) and refuses one starting with a digit, normalising a station name gives one without blanks, dashes or dots, and neither is changed by normalising again.",
  ["inputs"],"every dictionary up to the depth/width bound, any leaf values, every name up to the length bound",
  "Tests use one or two dictionaries.",
  [B+"helpers.py",U+"validators.py"],[("flatten_dict / structure_dict",B+"helpers.py"),("validate_attribute / validate_name",U+"validators.py")],["flatten_dict","structure_dict","validate_attribute","validate_name"])
p("C42","Channel naming schemes map one to one",
  "Under every channel naming scheme the five standard channels have distinct names, the forward and inverse name maps are inverse of each other, and the grouped lists (electric, magnetic, input, output, reference) hold the named channels in the standard order; the same holds for distinct names given by the user to transfer functions and Z-files, and processing levels use the names of the scheme.",
  ["configurations","inputs"],"every scheme including user given names",
  "Tests print a few schemes.",
  [PR+"aurora/channel_nomenclature.py"],[("ChannelNomenclature",PR+"aurora/channel_nomenclature.py")],["ChannelNomenclature"])
p("C43","Fourier-coefficient containers mirror their members",
  "Levels and channels added to a Fourier-coefficient description are retrievable under their names, listed once (channels of a level from the next assignment to the level on), and removed individually; the listed levels and channels correspond to the members; time periods are the least that enclose those of the members, independent of order; a description read back has a member for every listed name; levels made from decimation factors have the right sample rates and share nothing.",
  ["histories","inputs"],"every sequence of add/remove within the bound, any time periods",
  "Tests add a couple of levels.",
  [PR+"fourier_coefficients/fc.py",PR+"fourier_coefficients/decimation.py"],[("add_decimation_level / add_channel",PR+"fourier_coefficients/fc.py")],["FC","Decimation"])
if __name__ == "__main__":
    with open("/verif/properties.jsonl","w") as f:
        for r in P: f.write(json.dumps(r)+"\n")
    for r in P:
        assert len(r["title"])<=80, r["title"]
        for fn in r["anchors"]["files"]:
            if not os.path.exists("/repo/"+fn): print("missing", r["id"], fn)
    print(len(P))
