HOW = {
'P01': 'ICGEM files are generated from a random model (constants, norm and error kinds, sparse, reordered, columns and comments varied) and read with parse_header/parse_data for several degree/order requests and with the one-call loader; every coefficient is compared bit for bit with strtod of the text written, cells outside the request with the canary they held.',
'P02': 'Valid generated files are damaged line by line (dropped, doubled, cut, fields replaced, indices out of range, over-long) or byte by byte; the oracle knows which damages concern what the request needs and demands refusal; on success the values must be those of the sound lines. Sanitizers watch memory, the engine watches hangs.',
'P03': 'Histories of construction, cell and row writes, resize, move construction and assignment over three containers run against a map of cells; after each step random cells (after the last, all) are compared; a heap count after destruction detects leaks.',
'P04': 'Denormalisation is compared with sqrt((2n+1)(2-d)(n-m)!/(n+m)!) evaluated by log-gamma and products in long double, to degree 220; factorial ratios with exact products.',
'P05': 'Histories of writes through every access path, copies, moves, fills, over three storage kinds, against a map; the linear storage order against the documented formula; leaks by heap count.',
'P06': 'The potential is evaluated by an independent route (normalised Legendre recursion in long double with forward-mode dual numbers); its gradient is the oracle. Positions include poles, axes, equator and near-surface; the V/W arrays are compared with the solid harmonics.',
'P07': 'As P06 with second-order dual numbers; all nine elements, the symmetry and the trace are checked, and equality with the acceleration-only routine.',
'P08': 'Long-double closed forms of the tidal acceleration and its Jacobian; geometries on, off and near the line Earth-body.',
'P09': 'Eight families of problems with closed-form solutions (exponentials, oscillators, forced, stiff-ish, logistic, with jumps). The error at each output is compared with a multiple of the tolerance and with what a C++ transcription of the published DE/STEP/INTRP (ref/) obtains on the same problem, as are steps and derivative evaluations.',
'P10': 'Random sequences of calls (valid, invalid, bounded, reversed, with too small step limits) under a monitor recording every right-hand-side evaluation; flags, times, tolerances and the accuracy after resuming are checked against the protocol.',
'P11': 'As P09 with a transcription of RKF45, and the protocol flags of the Fehlberg integrator.',
'P12': 'The reference solution is a bisection in long double with a series near the parabolic corner; residual, quadrant, monotony and the returned status are checked for each solver.',
'P13': 'A long-double two-body model converts elements to states; conversions are compared with it, round-tripped, and with each other; tolerances scale with 1/e, 1/sin i and 1/(1-e). Separately, orbits with the node exactly on the x axis, at perigee or apogee, where every comparison is against an exact zero.',
'P14': 'Long-double two-body propagation; partials against Richardson-extrapolated central differences of it; composition as a metamorphic relation.',
'P15': 'Rotation matrices in long double, inverse and round trips; right ascension/declination by direction recovery, to a few ulp, poles and signed zeros included.',
'P16': 'The drag law in long double; partials against derivatives of it (dual numbers); the rotated form against the rotated law.',
'P17': 'Radiation pressure against the law; shadow functions against geometric constructions in long double (cylinder; overlap of two discs, closed form); agreement relations between the models where they must agree.',
'P21': 'Headers are generated from a model (all record kinds, shuffled order, trimmed lines, optional records) and every accessor compared; damaged headers must be refused.',
'P22': 'Files of up to some tens of epochs are generated from a model (values missing, flagged, scaled, with continuation lines, trimmed or not); the iterator must deliver the model; derived L1/L2 epochs and Doppler counts are compared with long-double evaluation.',
'P23': 'One structured damage (line lost or doubled, beacon count, field, station code, cut) or random bytes in generated files: all blocks before must be unchanged, the damage reported; under sanitizers.',
'P24': 'All characters and frequencies for observation codes; station record lines generated by column, placed in exactly sized buffers under ASan; printing and re-reading.',
'P25': 'Published phase-law tables (ANTEX) in the harness; linear interpolation in long double, at nodes, next to them, outside; built at -O1 and -O2 because the defect found depended on it.',
'P26': 'Frequencies from the integer definition; simulated 1/f^2 delays must cancel; the relativistic correction against long-double potential, and its Laplacian.',
'P27': 'Generated file sets; the group means are recomputed from the generator\'s model and the normal equations of the returned polynomial must vanish; the sequential filter against a batch information solution after each value.',
'P35': 'Histories on three models against plain coefficient vectors; allocation of arrays counted.',
'P36': 'History files from generated records; epochs next to, between, before and after records; damaged lines; the constants against the published table.',
'P37': 'Files from generated attitudes (smooth or not, sign flips, leap-second crossings); epochs asked forward, a little back, before and after the file; long-double great-circle interpolation up to sign.',
'P38': 'Site sets with missing, incomplete and additional sites in both block orders, all three overloads, strict or not; tables of adjoining intervals with epochs at the boundaries, +-1 ns.',
'P39': 'Histories of set/clear/query on bit sets of 8 to 64 bits, the SP3 flags and the packed word against std::set and a pair (value, flags).',
'P40': 'A server in the harness (loopback, own process) sends generated bodies by length, chunked or until close, cut at any byte, with any status; file-size limits make writes fail; the target\'s content and existence are compared.',
'P41': 'Random trees are written as YAML (block and flow style, quoting, comments, indentation) and looked up by existing and non-existing paths as int, double, string and C string with just enough room, against the tree.',
'P42': 'Increasing tables and arguments at, next to, between and outside the nodes against long-double interpolants; the status and the index.',
'P43': 'A generated series of consecutive bulletins (section 1 with its preliminary extension, sections 2 and 3) is served by a stand-in for requests; dates are drawn at and around the ends of bulletins, spans over one to five of them, the first guess on either side; the merged file is read back day by day. Damage by heading, day, number, order and length in a bulletin that is needed.',
'P44': 'Logs are written from random antennas with fields in any order, notes over several lines and with colons, other blocks with the same field names, heights in several notations, up to twelve antennas; the table is matched line by line. Missing fields, impossible dates, missing blocks.',
'P45': 'Random headers and data lines, numbers with D, d, E, e or no exponent; the output word by word. A converted file is converted again.',
'P46': 'Random bytes as the files of the server; names, directories, older files, error answers and no answer.',
'P18': 'Random rotations (not only small ones), polar motion and states; each transform against long-double matrix products, velocities against their definition and against central differences of the position transform; round trips. For epochs: generated tables; the stand-in IAU routines are injective in their arguments, so passing the wrong one shows.',
'P19': 'Epochs over 1900-2100; direction and distance against long-double transcriptions of the series written from the literature, plus agreement of the models with each other after precession. The ephemeris routines against a stand-in that answers by body, centre, frame and time.',
'P28': 'Histories of epochs (forward, back, days apart, outside) on generated CSV files; every field of the inputs recomputed from the days; damage by line and byte, with the oracle knowing whether what is needed was touched; file names of every length.',
'P29': 'ref/msise.hpp is an implementation written for this purpose (tables in ref/msise_tables.inc), validated by the seventeen published cases; several instances used in turn with changed switches and inputs; all nine densities and two temperatures to 1e-9 relative. Invariants: mass sum, finite and non-negative, periodicity in longitude and local time terms that are switched off.',
'P30': 'Altitudes over and at all layer limits +- 1 ulp-like steps; formula from the table; decay ratios within and between layers.',
'P31': 'Histories on several tables against plain vectors, heap counts; interpolation between, at and outside entries against long-double Lagrange, with stand-in corrections distinguishable from each other.',
'P32': 'C04 files from random days (integers of the last digit) with headers; every interval inside, across and outside; repeated, missing, swapped, cut, garbled lines; random bytes.',
'P20': 'Random epochs (UTC and TAI on different days too), gravity fields, Earth orientation tables, attitude and flux files, plates, masses, Sun and Moon (also far too heavy ones, so that each part shows); every part is recomputed (closed forms in long double, density by a second instance at the terrestrial position, its gradient by differences) and acceleration and all seven matrix columns compared.',
'P33': 'One-step comparison with the long-double gain form after each update of random histories; separately the final state and covariance against information-form batch least squares over the whole history; for the bare filter and through both clock models. Observations up to 1e25 times as good as what was known, of single independent parameters, must leave exactly the sum of information.',
'P34': 'All places for up to 12 beacons must be distinct; histories of settings, on a covariance full of correlations, against a plain vector and matrix, everything compared after each step, both with and without DEBUG.',
}
