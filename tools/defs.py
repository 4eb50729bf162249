"""The properties and what is claimed of each; tools/gen.py writes
properties.jsonl and MANIFEST.json from it."""
PROPS = []
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, quant, why, files, mech, technique, note,
         state=None, observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, quant=quant,
                      why=why, files=files, mech=mech, technique=technique, note=note,
                      state=state, observe=observe))


RNG = 'Sampling, not proof: '

prop('P01', 'A gravity model file is read back exactly',
     'Reading an ICGEM gravity-field file yields the header values (constants, model degree, error and norm kinds) and, up to the requested maximum degree and order, exactly the C and S coefficients written in the file (degree 1, if the file leaves it out, being zero); nothing outside the request is written. '
     'This holds for any line order, column spacing, comment, extra column and final-newline state the format allows, for each of several requests on one file, and a request beyond the model\'s degree is refused.',
     ['inputs'], 'every well-formed ICGEM file and every requested degree and order',
     'A test reads one model file; layout, optional columns, sparse or reordered records and truncated requests are combinations no fixed file has.',
     ['src/gravity/icgemio_rdhead.cpp', 'src/gravity/icgemio_rddata.cpp', 'src/gravity/parse_coefficients.cpp', 'src/icgemio.hpp', 'var/icgem/src/icgemio_rdhead.cpp', 'var/icgem/src/icgemio_rddata.cpp'],
     [('header keyword parser', 'Icgem::parse_header'), ('data record parser', 'Icgem::parse_data'), ('one-call loader', 'parse_gravity_model')],
     'property-based testing: generated ICGEM files round-tripped against the generator\'s own model',
     RNG + 'files up to degree about 70 (a few larger), both copies of the reader (src and var/icgem), under ASan and UBSan')

prop('P02', 'A damaged gravity model file is refused, never misread',
     'Whatever bytes an ICGEM file holds, reading it neither crashes, hangs nor touches memory outside its buffers. '
     'If the reader reports success, the values it returns are those of the well-formed lines of the file; damage to a header value or a coefficient record it needs is reported as an error.',
     ['inputs'], 'every byte sequence offered as a gravity model, in particular every single-line or few-byte damage of a valid one',
     'Unit tests read good files; the hostile ones are an unbounded set.',
     ['src/gravity/icgemio_rdhead.cpp', 'src/gravity/icgemio_rddata.cpp', 'var/icgem/src/icgemio_rdhead.cpp', 'var/icgem/src/icgemio_rddata.cpp'],
     [('header keyword parser', 'Icgem::parse_header'), ('data record parser', 'Icgem::parse_data')],
     'structured mutation fuzzing of generated ICGEM files under ASan/UBSan with an accept/reject oracle',
     RNG + 'line-level and byte-level mutations of small files; both copies of the reader')

prop('P03', 'Each harmonic coefficient is a cell of its own',
     'In the coefficient container every C(n,m) with m<=n and every S(n,m) with 1<=m<=n of the degree it was sized for is separate storage: a value written is the value read, through cell or row access, until that cell is rewritten or the container resized. '
     'Moving a container transfers all of it, and no sequence of construction, resize, move and destruction leaks or touches freed memory.',
     ['histories', 'inputs'], 'every sequence of construction, write, resize, move and destruction over several containers, for any degree',
     'C and S share one triangular array with opposite index directions: aliasing shows only for particular (n,m) pairs, and ownership errors only for particular operation sequences.',
     ['src/harmonic_coeffs.hpp', 'src/gravity/harmonic_coeffs.cpp', 'var/icgem/src/harmonic_coeffs.hpp', 'var/icgem/src/harmonic_coeffs.cpp'],
     [('index mapping', 'HarmonicCoeffs::C, S, C_row, S_row'), ('ownership', 'HarmonicCoeffs::resize, move constructor and assignment')],
     'stateful model-based testing against a map of cells, with heap accounting',
     RNG + 'histories of up to 25 operations over 3 containers, degrees up to 45')

prop('P04', 'Denormalised coefficients carry the standard factor',
     'Denormalising multiplies each C(n,m) and S(n,m) by sqrt((2n+1)(2-delta_0m)(n-m)!/(n+m)!), for every degree and order up to the given ones, to a few rounding errors. '
     'Coefficients beyond the given order stay as they were, and the result is finite wherever the exact value is representable. '
     'The factorials n! and ratios a!/b! such factors are made of are exact to rounding, whichever of the two is larger.',
     ['inputs'], 'every degree, order and coefficient value the container can hold',
     'The factor spans hundreds of orders of magnitude; tests look at a few low degrees, where factorials still fit a double.',
     ['src/gravity/harmonic_coeffs.cpp', 'src/factorial.hpp', 'var/icgem/src/harmonic_coeffs.cpp'],
     [('denormalisation', 'HarmonicCoeffs::denormalize')],
     'property-based testing against an exact log-gamma / extended-precision reference factor',
     RNG + 'degrees up to a few hundred, both copies')

prop('P05', 'The compact matrices store every element once',
     'In the compact 2-D matrices (row-wise, column-wise, lower trapezoid) every stored element is a cell of its own, reached alike through (i,j), row or column, slice and linear access, in the documented storage order. '
     'Copies are deep and equal to their source, moves transfer everything, and no sequence of construction, copy, move, resize and destruction leaks or touches memory outside the buffer.',
     ['histories', 'inputs'], 'every shape and every sequence of writes, copies, moves and fills of matrices of the three storage kinds',
     'A wrong packed index aliases only certain elements of certain shapes; ownership errors show only after particular copy and move sequences.',
     ['src/cmat2d.hpp', 'var/icgem/src/compact2dmat.hpp'],
     [('packed index', 'StorageImplementation::index, slice, num_elements'), ('ownership', 'Mat2D copy and move')],
     'stateful model-based testing against a plain map of cells, with heap accounting',
     RNG + 'histories of up to 25 operations on matrices up to 12x12; element access above the diagonal of a trapezoid is outside the property')

prop('P06', 'Gravity acceleration is the gradient of the potential',
     'For any coefficients, degree and order, the acceleration at a point outside the body equals the gradient of the spherical-harmonic potential truncated at that degree and order, to rounding error, also at the poles, on the axes and in the equator plane. '
     'The intermediate Cunningham V and W functions are the exterior solid harmonics in both storage layouts; coefficients beyond the requested degree or order do not contribute.',
     ['inputs'], 'every coefficient set, degree, order, reference radius and position outside the body',
     'An error in one recursion or one order\'s coupling shows only for models with that term, at general positions; a test compares a few points of one model.',
     ['src/gravity/gravity_acceleration.cpp', 'src/gravity/lagrange_poly.cpp', 'src/egravity.hpp', 'var/icgem/src/gravity_acceleration.cpp', 'var/icgem/src/lagrange_poly.cpp'],
     [('solid harmonics recursion', 'gravity::lagrange_polynomials'), ('acceleration sum', 'gravity::grav_potential_accel')],
     'property-based testing against an independent extended-precision automatic-differentiation model of the potential',
     RNG + 'degrees up to 60; both copies, with and without DEBUG')

prop('P07', 'Gravity partials are the Hessian of the potential',
     'For any coefficients, degree, order and position outside the body, the matrix of partials of the gravity acceleration equals the matrix of second derivatives of the truncated potential: every one of the nine elements, symmetric and, outside the body, trace-free. '
     'The acceleration returned together with the partials equals the one computed alone.',
     ['inputs'], 'every coefficient set, degree, order, reference radius and position outside the body',
     'Each order of the model enters the six second derivatives through its own formula (orders 0, 1, 2 and above); single-model tests cannot separate them.',
     ['src/gravity/gravity_acceleration.cpp', 'src/egravity.hpp'],
     [('second derivatives', 'gravity::grav_potential_accel with partials')],
     'property-based testing against an independent extended-precision automatic-differentiation model of the potential',
     RNG + 'degrees up to 60')

prop('P08', 'Third-body attraction and its partials are exact',
     'The perturbing acceleration of a point mass on a satellite is the difference of the attraction at the satellite and at the Earth\'s centre, GM[(s-r)/|s-r|^3 - s/|s|^3], and its partials are the derivatives of that expression with respect to the satellite position, to rounding error for every geometry.',
     ['inputs'], 'every satellite position, perturbing body position and gravitational parameter',
     'Signs and distance powers can agree in the symmetric geometries a test picks and differ elsewhere.',
     ['src/gravity/point_mass_acceleration.cpp', 'src/egravity.hpp', 'var/icgem/src/egravity.hpp'],
     [('point-mass acceleration', 'point_mass_accel')],
     'property-based testing against extended-precision reference formulas',
     RNG + 'positions from 1e-3 to 100 times the body distance, and near the body')

prop('P09', 'The Shampine-Gordon integrator delivers the accuracy asked',
     'For smooth initial-value problems, and for ones whose derivative jumps, the solution the multistep (Shampine-Gordon) integrator returns at each requested time is within a moderate multiple of the requested tolerance of the true solution, as the published DE/STEP/INTRP algorithm is, in either direction, over successive output times, reversals and bounded calls. '
     'It uses no substantially greater number of derivative evaluations than the published algorithm, takes the same steps on easy problems, and the derivative it interpolates belongs to the returned time.',
     ['inputs', 'histories'], 'every initial-value problem, tolerance and sequence of output times',
     'Order and step-size selection, failure branches and interpolation act together over thousands of steps; a test sees one problem at one tolerance.',
     ['var/ode_solvers/sgode.hpp', 'var/ode_solvers/sgode_de.cpp', 'var/ode_solvers/sgode_step.cpp', 'var/ode_solvers/sgode_intrp.cpp', 'src/integrators/sgode_de.cpp', 'src/integrators/sgode_step.cpp', 'src/integrators/sgode_intrp.cpp'],
     [('driver', 'SGOde::de'), ('one step', 'SGOde::step'), ('interpolation', 'SGOde::intrp')],
     'property-based testing over generated problems with closed-form solutions, and differential testing against a transcription of the published Fortran',
     RNG + 'systems of up to 3 components of 8 families, tolerances 1e-14 to 1e-4, up to 8 output times; src and var copies')

prop('P10', 'The Shampine-Gordon integrator keeps its calling protocol',
     'A call returns 0 with flag 2 exactly when the requested time was reached; otherwise the flag tells why (3 tolerances raised, in proportion; 4 too many steps; 5 too many and stiff; 6 invalid input) and the time, state and tolerances returned are those to continue from, after which repeated calls reach the target. '
     'An invalid call (no interval, negative or zero tolerances, flag 0) evaluates nothing and changes nothing; a bounded call never evaluates the right-hand side beyond its end time, and no call goes more than ten intervals past it. A call after a bounded one, or one that turns round, starts anew from the state passed to it.',
     ['histories', 'inputs'], 'every sequence of valid, refused, bounded, reversed and early-ending calls',
     'Restart and resume depend on what previous calls left behind; the sequences are unbounded.',
     ['var/ode_solvers/sgode_de.cpp', 'var/ode_solvers/sgode_step.cpp', 'src/integrators/sgode_de.cpp', 'src/integrators/sgode_step.cpp'],
     [('flags and restart', 'SGOde::de')],
     'stateful property-based testing with a monitor of every right-hand-side evaluation',
     RNG + 'histories of up to 10 calls; stiff and fast problems with up to 400 resumed calls; src and var copies')

prop('P11', 'The RKF45 integrator delivers the accuracy asked',
     'The Runge-Kutta-Fehlberg integrator returns, at each requested time and in either direction, a solution within a moderate multiple of the tolerance of the true one, with the steps and number of derivative evaluations of the published RKF45 algorithm, and never evaluates the right-hand side outside the interval of the call. '
     'Flag 2 is reported exactly when the target was reached; unreachable tolerances, too many evaluations (resumable) and invalid input each report their flag and leave time and state consistent.',
     ['inputs', 'histories'], 'every initial-value problem, tolerance and sequence of output times',
     'Coefficients and step control act together over many steps; one test problem hides most errors behind the error control.',
     ['var/ode_solvers/rkf45.hpp', 'var/ode_solvers/rkf45_rkfs.cpp', 'var/ode_solvers/rkf45_fehl.cpp'],
     [('step control', 'RKF45::rkfs'), ('Fehlberg formulas', 'RKF45::fehl')],
     'property-based testing over generated problems with closed-form solutions, and differential testing against a transcription of the published algorithm',
     RNG + 'systems of up to 3 components of 8 families, tolerances 1e-11 to 1e-3')

prop('P39', 'Flag sets behave as sets',
     'A set of flags kept in one integer (the enum bit set, the SP3 event flag) contains after any sequence of set and clear exactly the flags set and not cleared since, over all bits of the type, its whole-set queries agree with that set, and copies are independent. '
     'The packed measurement word keeps value and flags apart: the value read is the one stored to the word\'s resolution whatever flags are set, and every flag is read as stored.',
     ['histories', 'inputs'], 'every sequence of operations over every flag of the enumeration, for every underlying integer type',
     'Width and sign errors appear for the highest bits of wide types, and interference between two fields only for particular values.',
     ['src/enum_bitset.hpp', 'var/flags.cc', 'var/compound_measurement.cc'],
     [('enum bit set', 'EnumBitset'), ('SP3 flag', 'Sp3Flag of var/flags.cc'), ('packed flag', 'Flag of var/compound_measurement.cc')],
     'stateful model-based testing against std::set',
     RNG + 'histories of up to 20 operations; bit sets of 8 to 64 bits')

prop('P40', 'A download yields the whole remote file or an error',
     'After a successful http_get the target file holds exactly the bytes the server sent for that path, in every transfer encoding and chunking; when the server, the connection or the disk fails at any point, an error is returned. '
     'A download that fails leaves no partial target behind, and one that could not open its target leaves what was there alone.',
     ['inputs', 'crash_points'], 'every server response, including ones cut short at any byte, and every disk-full point',
     'Tests fetch one good file over a network; truncation, error statuses and write failures are never exercised.',
     ['src/web/http_get.cpp', 'src/cweb.hpp'],
     [('download', 'http_get')],
     'property-based testing against a generated loopback server, with fault injection (connection cut, file-size limit)',
     RNG + 'bodies up to some hundred kilobytes; one transfer at a time; HTTP only (no TLS)')

prop('P41', 'Settings are read where they are in the YAML file',
     'Looking up two or three nested keys gives exactly the value the YAML document has there, as number, string or C string, however the document is written; a path that does not exist, ends at a map or list, goes through a scalar or holds no number where one is asked for gives an error status, never an exception. Looking a setting up changes nothing.',
     ['inputs', 'histories'], 'every nested document, every path and every sequence of look-ups',
     'Programs are run with one settings file that has everything; missing sections, scalars in place of sections and quoted values are never tried.',
     ['src/var_utils.hpp', 'src/var/yaml_utils.cpp'],
     [('look-up', 'get_yaml_value_depth2, get_yaml_value_depth3, get_yaml_node')],
     'model-based property testing: generated documents against the tree they were written from',
     RNG + 'documents up to four levels deep; the YAML parser itself is the installed yaml-cpp')

prop('P42', 'Table interpolation is exact at and between the nodes',
     'The table interpolators return the node value at a node, the nearest, linear or quadratic interpolant of the neighbouring nodes between nodes (so linear and quadratic tables are reproduced exactly), and for an argument outside the table return the end value with a status that says on which side.',
     ['inputs'], 'every increasing table and every argument',
     'Interval search and the choice of the third node go wrong for particular positions only: the last interval, uneven tables, arguments next to a node.',
     ['var/intrp.cc'],
     [('interpolators', 'NearestNeighborInterpolator, LinearInterpolator, QuadraticInterpolator')],
     'property-based testing against an extended-precision model of the interpolants',
     RNG + 'tables of 2 to 12 nodes (3 or more for the quadratic), arguments inside, outside and at the nodes')

PYRNG = 'sampled; the Python programs run unchanged in an interpreter of their own with a stand-in for the network; '

prop('P43', 'The merged Earth orientation file holds every day asked for, once',
     'For every date and number of days before and after it, the program that fetches IERS Bulletin B files finds the files of those days, however many they are, and writes one file with every one of the days, in order and once each, with exactly the numbers of the bulletins. Files given in any order are merged in that of their days. It always ends, and reports an error when a bulletin it needs is not there, ends early, lacks a heading or a number, or has its days in disorder.',
     ['inputs', 'fault_sequences'], 'every date, number of days and series of bulletins; every damaged bulletin',
     'The search depends on where the days fall in the bulletins: first and last days, spans of three files and first guesses on either side are met on few dates; no test runs the program.',
     ['script/fetch_iers_c04.py'],
     [('search and merge', 'c04_get_final_data, c04_date_span, c04_dict_to_sorted_list, c04_cat, merge_c04_files and the main program')],
     'model-based property testing: a generated series of bulletins behind a stand-in server, and the merged file against it',
     PYRNG + 'bulletins of 28 to 32 consecutive days, up to 60 days on either side of the date')

prop('P44', 'The station table lists every antenna of the site logs',
     'From a directory of IDS site logs the program writes one line for every antenna of every log, with its identifier, its dates of installation and removal (the end of time if it is still there) and its height as they are in the antenna block of the log, whatever the other blocks and fields hold. A log in which one of them is missing or no date is reported, and ends the program with an error.',
     ['inputs', 'fault_sequences'], 'every set of site logs',
     'Logs are written by hand: values over several lines, colons in texts, fields in another order, heights without decimals or unit; a test has one of them at best.',
     ['script/ids_logs2station_info.py', 'script/pydoris/pydoris/log/ids_log_parser.py'],
     [('log parser', 'IdsLogFile, dump_log_antenna_info')],
     'model-based property testing: generated logs against the antennas they were written from',
     PYRNG + 'one to four logs of up to twelve antennas')

prop('P45', 'The file converters change the notation and nothing else',
     'Converting a gravity model file changes the FORTRAN exponents of the numbers in its data to C ones and nothing else: every line, word and value stays, the header too, and converting again changes nothing. A file without the end of the header ends in an error. Wrapping a C header for C++ keeps every line between the guards.',
     ['inputs'], 'every gravity model file and every header',
     'Numbers of unusual length, without a leading digit, with or without a sign in the exponent are in few of the published files.',
     ['script/gfc_fortran2c.py', 'var/icgem/script/gfc_fortran2c.py', 'script/jpl/c2cpp_header.py'],
     [('converters', 'the programs')],
     'property-based testing against a word-by-word model of the conversion',
     PYRNG + 'files of up to 20 lines; numbers with a decimal point and a digit after it, which is what the program is documented to convert')

prop('P46', 'Space weather files are those of the server, or an error is reported',
     'The download program saves exactly the bytes of the file asked for under the name and directory asked for, over an older file if there is one, and writes nothing else. If the file is not there, the server refuses it or cannot be reached, or the directory does not exist, the program ends with an error and no error page is saved as data.',
     ['inputs', 'fault_sequences'], 'every file, every choice of names and every answer of the server',
     'Failed downloads do not happen in a test; data that are an error page are found out much later.',
     ['script/fetch_celestrak_space_weather_data_csv.py'],
     [('download', 'the main program')],
     'property-based testing with a stand-in server and injected failures',
     PYRNG + 'files up to 300 kB')

prop('P12', 'Kepler\'s equation is solved for every orbit',
     'For every eccentricity below one and every mean anomaly, of either sign and any number of turns, the eccentric anomaly returned satisfies E - e sin E = M to rounding and is the one belonging to that M (same half turn, growing with M), by every solver offered. '
     'The solver reports success exactly when it did so, and always ends.',
     ['inputs'], 'every eccentricity in [0,1) and every mean anomaly',
     'Iterations fail at isolated places (near-parabolic orbits close to pericentre, multiples of pi) no handful of samples meets.',
     ['src/astrodynamics/kepler.cpp', 'src/astrodynamics.hpp'],
     [('solvers', 'kepler, kepler_vallado')],
     'property-based testing against an extended-precision bisection solution of the equation',
     RNG + 'eccentricities to 1-1e-9 with the corners over-sampled, mean anomalies over many turns; plain and BRANCHLESS build')

prop('P13', 'Elements and state describe the same orbit',
     'For every elliptic orbit, converting orbital elements to position and velocity gives the state of the two-body problem, and converting a state back gives elements (angles in [0,2pi), never NaN) whose orbit passes through that state with that velocity, to rounding amplified only by the geometry. '
     'All forms of the conversions offered (vector and matrix interfaces, the different authors\' formulas) agree.',
     ['inputs'], 'every elliptic orbit of any orientation, shape, size and anomaly, retrograde and near-circular ones included',
     'Quadrant and rounding faults sit at particular nodes, apsides and inclinations; tests convert a few orbits.',
     ['src/astrodynamics/state2kepler.cpp', 'src/astrodynamics/kepler2state.cpp', 'src/astrodynamics.hpp'],
     [('state to elements', 'state2elements, state2kepler and its variants'), ('elements to state', 'elements2state')],
     'property-based testing: extended-precision two-body reference, round trips and differential testing between the formulas',
     RNG + 'eccentricity 0 to 0.95; exactly circular and exactly equatorial orbits, whose elements are undefined, only where the form allows them')

prop('P14', 'Two-body propagation and its partials are those of the orbit',
     'Propagating a state over any interval, forward or back, gives the two-body state at that time; propagating over dt1 then dt2 equals dt1+dt2. '
     'The state-transition matrix and the partial derivatives of the state with respect to the elements are the derivatives of that very propagation.',
     ['inputs', 'histories'], 'every elliptic orbit and every interval',
     'A 6x6 matrix has 36 entries whose errors each show only for some orbits; tests check one.',
     ['src/astrodynamics/propagate_state.cpp', 'src/astrodynamics/state_partials.cpp', 'src/astrodynamics.hpp'],
     [('propagation', 'propagate_state'), ('element partials', 'state_partials')],
     'property-based testing against an extended-precision two-body reference and finite differences of it; metamorphic composition',
     RNG + 'eccentricity up to 0.9, intervals of up to some tens of revolutions')

prop('P15', 'Orbital-plane coordinates and directions convert exactly',
     'Perifocal coordinates turn into equatorial ones, and back, by the rotation through the node, inclination and argument of pericentre, the same in all interfaces, and the perifocal state computed from elements is that of the orbit. '
     'Right ascension in [0,2pi) and declination of any non-zero position give its direction back to full precision.',
     ['inputs'], 'every orientation, every orbit and every direction, poles and axes included',
     'A sign or a swapped angle in one of nine matrix elements vanishes for the round angles tests choose.',
     ['src/astrodynamics/perifocal.cpp', 'src/astrodynamics/pos2ra.cpp', 'src/astrodynamics.hpp'],
     [('rotation', 'perifocal2equatorial_matrix'), ('perifocal state', 'elements2perifocal'), ('direction', 'pos2ad')],
     'property-based testing against an extended-precision reference, with round trips',
     RNG + 'all octants, poles and axes over-sampled')

prop('P16', 'Drag acceleration follows the drag law, and its partials are its derivatives',
     'The drag acceleration is -1/2 CD A/m rho |u| u for the velocity u relative to an atmosphere turning with the Earth, also when computed through a true-of-date rotation. '
     'The partial derivatives returned with it, with respect to position (density gradient included), velocity and drag coefficient, are the derivatives of that acceleration.',
     ['inputs'], 'every state, density, gradient, rotation and satellite parameter',
     'Each matrix element can be wrong on its own, most visibly only for particular directions.',
     ['src/astrodynamics/drag.cpp', 'src/astrodynamics.hpp'],
     [('drag', 'drag_accel')],
     'property-based testing against an independent extended-precision evaluation of the drag law',
     RNG + 'random states with zero components over-sampled')

prop('P17', 'Radiation pressure and shadow agree with the geometry',
     'Radiation-pressure acceleration points away from the Sun with the inverse-square magnitude. '
     'Each shadow model returns a factor in [0,1], never NaN: 1 wherever the Earth hides nothing of the Sun under the model\'s geometry, 0 in full shadow, between them in the penumbra as the model defines it, whatever the direction of the Sun and including positions exactly on the Sun-Earth line.',
     ['inputs'], 'every position of satellite and Sun',
     'Shadow boundaries are thin surfaces; sampled orbits miss them and the degenerate axis.',
     ['src/astrodynamics/solar_radiation.cpp', 'src/astrodynamics/occultation.cpp', 'src/astrodynamics.hpp'],
     [('radiation pressure', 'solar_radiation_acceleration'), ('shadow models', 'vallado_shadow, conical_shadow, montebruck_shadow, bernese_shadow1')],
     'property-based testing against extended-precision geometric models, positions aimed at the shadow boundaries and the axis',
     RNG + 'satellites from just above the ground to the Moon, Sun at real distances in any direction')

prop('P21', 'A DORIS RINEX header is read exactly, or the file refused',
     'Opening a DORIS RINEX 3.0 file yields the satellite, receiver and antenna data, dates, offsets, observation codes with their scale factors (1 where none is given), stations and clock flag its header states, whatever the order of the records and whether or not trailing blanks are there; look-ups by beacon number, by station name and by observation code find what the header lists and nothing else. '
     'A header with a record that cannot be read, a wrong count, an unknown observation code or no end is refused.',
     ['inputs'], 'every DORIS RINEX header',
     'Optional, repeated and reordered records, partial scale factors and trimmed lines combine in ways no sample file shows.',
     ['src/rinex/read_rnx_header.cpp', 'src/rinex/doris_rinex.cpp', 'src/doris_rinex.hpp'],
     [('header reader', 'DorisObsRinex::read_header'), ('look-ups', 'beacon_internal_id2id, beacon_id2internal_id, get_observation_code_index')],
     'property-based testing: generated RINEX headers round-tripped against the generator\'s model, and damaged ones refused',
     RNG + 'up to 60 stations, every set and order of observation codes; stand-ins for the date and matrix libraries that are not installed')

prop('P22', 'DORIS RINEX records deliver every epoch and every observation',
     'Going through a DORIS RINEX file delivers every data block, in order, each with its epoch to the nanosecond, flags and clock offset, and for every beacon every observation divided by its scale factor with its flags, blanks and zeros being marked missing; then end of file. '
     'The corrected L1 and L2 epochs add the clock offset unless it is applied already or not recorded, and the L2 date offset; skipping a block skips exactly that block; Doppler counts are the differences since the beacon was last seen.',
     ['inputs', 'histories'], 'every DORIS RINEX file and every interleaving of reading and skipping blocks',
     'Multi-line records, missing fields and trimmed lines meet in any combination; a sample file has few of them.',
     ['src/rinex/doris_rinex.cpp', 'src/rinex/rnx_datablock_iterator.cpp', 'src/doris/extract_doppler_count.cpp', 'src/doris_rinex.hpp'],
     [('record reader', 'resolve_data_epoch, read_data_block, skip_data_block'), ('iteration', 'RinexDataBlockIterator'), ('Doppler counts', 'get_doppler_counts')],
     'property-based testing: generated RINEX files round-tripped against the generator\'s model, blocks read and skipped at random',
     RNG + 'up to 10 epochs of up to 8 beacons with up to 10 observables')

prop('P23', 'Damaged DORIS RINEX data are reported where they are',
     'Whatever bytes a DORIS RINEX file holds, reading it neither crashes, hangs nor touches memory outside its buffers, and every block it delivers has the number of beacons its header line states, each with all observables. '
     'All blocks before a damage are delivered unchanged; a lost or doubled line, a wrong number of stations, a field that is no number or a record that does not begin with its beacon is reported as an error.',
     ['inputs'], 'every byte sequence, in particular every single damage of a valid file',
     'The ways a file can be damaged are unbounded; tests read intact files.',
     ['src/rinex/doris_rinex.cpp', 'src/rinex/rnx_datablock_iterator.cpp', 'src/rinex/read_rnx_header.cpp'],
     [('record reader', 'resolve_data_epoch, read_data_block'), ('iteration', 'RinexDataBlockIterator::next')],
     'structured mutation fuzzing of generated RINEX files under ASan/UBSan with an accept/reject oracle per block',
     RNG + 'one structured damage at a time, or several random ones')

prop('P24', 'Observation codes and station records keep what they say',
     'An observation code built from a type and a frequency prints and compares as that type and, if the type has one, that frequency; unknown types and frequencies are refused. '
     'A station record line gives beacon number, code, name, DOMES number, type and shift factor as written, prints them back, and tells the antenna by the last letter of the code; a damaged line is refused.',
     ['inputs'], 'every character, frequency and record line',
     'Names filling their fields, several words, signs and unknown letters are edge cases a few samples do not have.',
     ['src/doris/doris_system_info.cpp', 'src/doris_system_info.hpp'],
     [('codes', 'ObservationCode, char_to_observationType'), ('stations', 'BeaconStation')],
     'property-based testing with round trips against a model of the record format',
     RNG + 'all characters and frequencies, record lines in buffers of their own size under ASan')

prop('P25', 'Antenna phase laws are the published ones at every angle',
     'For each ground antenna type and frequency the phase correction at any zenith angle from 0 to 90 degrees inclusive is the linear interpolation of the published table (zero where there is none), any other angle being reported as out of bounds; the phase center is the published one. '
     'A station\'s iono-free phase center is the iono-free combination of the two centers of its antenna type.',
     ['inputs'], 'every antenna, frequency and angle',
     'An error in one table entry or at one interval end shows for a sliver of the angles only.',
     ['src/antenna_pcv.hpp', 'src/doris_system_info.hpp'],
     [('phase laws', 'AntennaOffset<>::pcv'), ('phase centers', 'AntennaOffset<>::pco, iono_free_phase_center')],
     'property-based testing against an extended-precision interpolation of the published ANTEX tables',
     RNG + 'angles at and next to all nodes over-sampled; built at -O1 and -O2')

prop('P26', 'Frequencies and observation corrections obey their formulas',
     'The nominal beacon frequencies of any shift factor are those of the DORIS RINEX definition. '
     'The carrier correction removes exactly any delay inversely proportional to the square of the frequency, and the relativistic correction is (U + v^2/2)/c with U the point-mass potential, or that with the J2 zonal term, a harmonic function.',
     ['inputs'], 'every shift factor, observation pair and state',
     'A wrong latitude or ratio of frequencies is a small relative change that fixed expectations copied from the code would keep.',
     ['src/doris_system_info.hpp', 'src/doris_observation_equations.hpp', 'src/relativity/relativistic_clock_correction.cpp'],
     [('frequencies', 'beacon_nominal_frequency'), ('ionosphere', 'carrier_iono_correction'), ('relativity', 'relativistic_clock_correction')],
     'property-based testing against extended-precision evaluation of the definitions, with simulated delays',
     RNG + 'shift factors to +-100000, positions from the ground to geostationary')

prop('P27', 'The receiver frequency offset is fitted to all the data asked for',
     'Fitting the frequency offset recorded in RINEX files gives the polynomial that is the least-squares solution for the means of every so many consecutive values (the rest of a file forming a last group) at their mid-epochs, of the epochs within the interval asked for (its end excluded), in the time scale asked for. '
     'The sequential fit gives, after each value, the estimate and uncertainties that all values up to it determine together with the a-priori ones. Files that cannot be used are reported.',
     ['inputs', 'histories'], 'every set of files, group size, interval, time scale and order',
     'Left-over groups, missing values and empty epochs depend on how counts divide; one sample file has one remainder.',
     ['src/rinex/fit_rfo.cpp', 'src/doris/fit_rfo.cpp', 'src/doris_rinex.hpp', 'src/filters/models.hpp'],
     [('polynomial fit', 'fit_relative_frequency_offset(files, model, ...)'), ('sequential fit', 'LinearKalman')],
     'property-based testing: normal equations checked on an independent reading of the data; information-form batch solution as oracle of the filter',
     RNG + 'one to three generated files, polynomials of order 1 and 2 on spans where the normal equations are conditioned')

prop('P35', 'A polynomial model evaluates and copies as the polynomial it is',
     'A polynomial model of any order, over numbers or dates, evaluates at every point to its polynomial in the distance (in seconds, for dates) from its reference. '
     'After any sequence of construction, copy, move, assignment and resizing each model has its own coefficients, and none is leaked or freed twice.',
     ['histories', 'inputs'], 'every history of several models',
     'Ownership errors need particular sequences of copies and moves.',
     ['src/filters/models.hpp'],
     [('models', 'PolynomialModel, LinearModel')],
     'stateful property-based testing against a model, under ASan, counting the arrays alive',
     RNG + 'orders 0 to 6, up to 14 operations on three models')

prop('P36', 'Satellite mass and centre of gravity are those of the epoch',
     'The mass and centre of gravity corrections of a satellite at an epoch are those of the last record of its history file before the epoch (none, if there is no such record), added to the published initial values; comments are skipped. '
     'A file that cannot be opened or a needed record that is cut short or no number is reported as an error, and no file content makes the reader leave its line.',
     ['inputs'], 'every history file and epoch',
     'Several records in a day, epochs right at a record and damaged lines need particular combinations of file and epoch.',
     ['src/satellites/satellite_corrections.cpp', 'src/satellites/jason3.hpp', 'src/satellites/cryosat2.hpp'],
     [('history', 'get_satellite_corrections'), ('satellites', 'SatelliteInfo<>::mass_cog, pco, MacroModel<>')],
     'property-based testing: generated history files against the records they were made from; structured mutation under ASan/UBSan',
     RNG + 'up to 12 records; the instant of a record itself left unspecified')

prop('P37', 'Satellite attitude is interpolated between its neighbours in time',
     'For any forward-moving sequence of epochs the attitude delivered is the great-circle interpolation between the two records of the file (in UTC, over leap seconds too) around the epoch. '
     'An epoch before the first record or after the last is refused, an epoch already left behind is delivered right or refused, and neither a refusal nor a damaged record spoils what comes before it.',
     ['histories', 'inputs'], 'every quaternion file and sequence of epochs asked for',
     'The reader keeps a sliding buffer: errors depend on the history of epochs asked for and on where the file ends.',
     ['src/satellites/jason3_quaternions.cpp', 'src/satellites/jason3_quaternions.hpp'],
     [('file', 'JasonBodyQuaternionFile::get_next'), ('hunter', 'JasonQuaternionHunter::get_at, set_at, find_interval, left_shift')],
     'stateful property-based testing against an extended-precision interpolation of the records the file was made from',
     RNG + '5 to 24 records, up to 14 epochs; damage of one record; the stand-in time library decides what a date is')

prop('P38', 'Station coordinates and beacon entries are those of the epoch',
     'Extrapolated coordinates of each station asked for that the SINEX file has are its position plus its velocity times the Julian years since its reference epoch; stations not in the file are an error or left out, as asked. '
     'The beacon table delivers exactly the entries whose interval holds the epoch, and reports a damaged line or missing file.',
     ['inputs'], 'every station list, SINEX content, table and epoch',
     'Which stations are missing, in what order the file has them and where the epoch falls combine freely.',
     ['src/ids/get_pdop_crd.cpp', 'src/doris_utils.hpp', 'src/beacon_tbl/beacon_tbl.cpp', 'src/beacon_tbl.hpp'],
     [('coordinates', 'extrapolate_sinex_coordinates'), ('table', 'BeaconInformationTable::load_to_memmory')],
     'property-based testing against a model of the tables; structured mutation under ASan/UBSan',
     RNG + 'the SINEX reader is a stand-in fed with generated blocks (the library is not installed)')

prop('P18', 'Frame transforms rotate states and back without loss',
     'A state taken from the celestial to the terrestrial frame by the rotations of one epoch, and back, is the state it was; positions turn by the product polar motion * Earth rotation * precession-nutation, and velocities by the derivative of that product with the Earth rotation alone varying. '
     'The rotations delivered for an epoch are those of the Earth orientation values interpolated (and corrected) to it, with the Earth rotation angle at its UT1; an epoch the table does not cover is reported.',
     ['inputs'], 'every state, set of rotations, epoch and table',
     'A wrong order, sign or transpose agrees with the right one for the small rotations of a sample epoch.',
     ['src/itrs2gcrs.cpp', 'src/orbit_integration.hpp'],
     [('rotations of an epoch', 'dso::gcrs2itrs(mjd, eop table, ...)'), ('positions and velocities', 'rcel2ter, rter2cel, vcel2ter, vter2cel, ycel2ter, yter2cel')],
     'property-based testing against long-double products and finite differences of the position, with independent oracle of the epoch\'s rotations from stand-in IAU routines',
     RNG + 'the IAU/IERS library is not installed: its routines are stand-ins, so only what is passed to and done with them is decided')

prop('P19', 'Sun and Moon positions agree with the published series',
     'The analytic positions of Sun and Moon are, at every epoch from 1950 to 2050, those of the published low-precision series they implement (Curtis, Vallado, Montenbruck and Gill), within the accuracy claimed for these and in the frame documented. '
     'Positions read off an ephemeris are those of the body asked for, relative to the Earth, and kernels are loaded once.',
     ['inputs'], 'every epoch of the century around 2000',
     'A wrong small coefficient moves a body by less than a sample position from the same code would show.',
     ['src/planets/sunpos.cpp', 'src/planets/moonpos.cpp', 'src/planets/cspice_utils.cpp', 'src/planetpos.hpp'],
     [('analytic', 'sun_vector_curtis, sun_vector_vallado, sun_vector_montenbruck, moon_vector_approx, moon_vector_vallado'), ('ephemeris', 'sun_vector_cspice, moon_vector_cspice, get_sun_moon_GM, cspice::load_if_unloaded_lsk/spk/pck')],
     'property-based testing: differential against long-double transcriptions of the published series and between models',
     RNG + 'CSPICE is a stand-in recording what it is asked')

prop('P28', 'The atmosphere gets the flux and ap values of the day asked for',
     'For every epoch within a space-weather file, asked for in any order after any history, the model\'s inputs hold the day\'s date, the previous day\'s observed F10.7, the day\'s observed centred 81-day mean and daily Ap, and the array of ap values (daily; now, 3, 6 and 9 hours before; means of the eight of 12 to 33 and of 36 to 57 hours before) of the file. '
     'A day the file lacks or cannot give (missing, damaged, cut short) is reported, and the window of days read is the one asked for.',
     ['histories', 'inputs'], 'every file, history of epochs and damage',
     'The feed keeps a window of days which it slides: errors depend on the history of days and the three-hour interval.',
     ['src/atmosphere/nrlmsise00_get_flux_data.cpp', 'src/atmosphere/nrlmsise00_params.cpp', 'src/var/celestrak_swdata.cpp', 'src/atmosphere/nrlmsise00.hpp'],
     [('CSV file', 'celestrak::details::resolve_csv_line_records, parse_csv_for_date, get_next'), ('feed', 'nrlmsise00::InParams<ST_CSV_SW>::update_params, set_spatial_from_cartesian')],
     'stateful property-based testing: generated files and histories of epochs against the table they were made from; structured mutation under ASan/UBSan',
     RNG + 'files of up to some tens of days')

prop('P29', 'NRLMSISE-00 gives the published model\'s densities and temperatures',
     'For every date, position, altitude, solar and magnetic input and choice of switches, gtd7 and gtd7d give the densities and temperatures of the published NRLMSISE-00 model, finite and not negative, whatever the same or other instances evaluated before. '
     'Total mass density is the sum over the constituents (with anomalous oxygen for drag).',
     ['inputs', 'histories'], 'every input, switch selection and history of evaluations',
     'The model has hundreds of terms, each switched and active in a part of its domain; the published seventeen cases exercise few.',
     ['src/atmosphere/nrlmsise00_gtd7.cpp', 'src/atmosphere/nrlmsise00_gts7.cpp', 'src/atmosphere/nrlmsise00_globe7.cpp', 'src/atmosphere/nrlmsise00_glob7s.cpp', 'src/atmosphere/nrlmsise00_densu.cpp',
      'src/atmosphere/nrlmsise00_densm.cpp', 'src/atmosphere/nrlmsise00.hpp'],
     [('model', 'Nrlmsise00::gtd7, gtd7d, gts7, tselec'), ('terms', 'globe7, glob7s'), ('profiles', 'densu, densm')],
     'property-based testing: differential against an independent implementation (plus the published output), with physical invariants and metamorphic relations of the switches',
     RNG + 'altitudes 0 to 1000 km; switch 9 selected -1 means the array of ap')

prop('P30', 'The exponential atmosphere follows its table',
     'At every altitude the density is that of the layer holding it: nominal density at the layer\'s base falling by the factor e over each scale height (Vallado, table 8-4), the last layer going on without end. '
     'It falls with altitude in each layer and jumps between layers by no more than the table does.',
     ['inputs'], 'every altitude from the ground up',
     'A wrong limit, density or scale height shows in one layer only.',
     ['src/atmosphere/exponential_atmospheric_model.cpp', 'src/atmosphere.hpp'],
     [('density', 'air_density_models::exponential::density')],
     'property-based testing against the published table, and metamorphic relations of the decay',
     RNG + 'altitudes to 10000 km with all layer limits')

prop('P31', 'Earth orientation values are kept, copied and interpolated',
     'After any history of construction, copy, move, assignment, resizing and writing, each table of Earth orientation parameters holds its own values, and memory is neither leaked nor freed twice. '
     'Interpolated values at an epoch are the Lagrange polynomial through the table\'s entries around it plus (if asked) the short-period corrections, in the right units; an epoch the table cannot serve is reported.',
     ['histories', 'inputs'], 'every history of tables and every table and epoch',
     'Which columns survive a copy, and what happens at the ends of the table, is not seen by a table that is filled and read once.',
     ['src/eop.hpp', 'src/iers/eop_interpolate.cpp'],
     [('table', 'EopLookUpTable'), ('interpolation', 'EopLookUpTable::interpolate, utc2tt, regularize')],
     'stateful property-based testing against a model, under ASan; interpolation against long-double Lagrange polynomials',
     RNG + 'the IERS correction routines are stand-ins; tables of up to some tens of days')

prop('P32', 'C04 files give exactly the days asked for',
     'Parsing an IERS C04 file for an interval of days gives, for each day of it (the last excluded), the values written in the file in the units documented, with dates in the scale documented, in any history of requests. '
     'A file that lacks a day asked for (cut, doubled, out of order, damaged) is reported, and no content makes the parser write past the table or loop.',
     ['inputs'], 'every C04 file, interval and damage',
     'Doubled, missing and short lines combine with the interval asked for.',
     ['src/iers/parse_c04.cpp', 'src/eop.hpp'],
     [('parser', 'parse_iers_C04')],
     'property-based testing: generated files against the table they were made from; structured mutation under ASan/UBSan',
     RNG + 'up to some tens of days, damage in and outside of the interval')

prop('P20', 'The equations of motion sum the forces of the epoch',
     'At every epoch, state and set of models the derivative of the state is its velocity and the sum, in the celestial frame, of the accelerations by the Earth\'s gravity field, the Sun, the Moon and the drag on the satellite\'s plates in the attitude and atmosphere of the epoch at its place over the rotating Earth. '
     'The derivatives of the transition and sensitivity matrices are the products with the Jacobian of that sum (by position: gravity, Moon and drag; by velocity: drag; the cross-section and the Sun\'s part held fixed) plus the derivative by the drag coefficient.',
     ['inputs'], 'every epoch, state, gravity field, satellite and pair of matrices',
     'A frame mixed up, a unit or a date of another time scale gives plausible orbits; only comparing each part at arbitrary states shows it.',
     ['src/variational_equations.cpp', 'src/sunmoon.cpp', 'src/orbit_integration.hpp'],
     [('equations', 'VariationalEquations'), ('Sun and Moon', 'SunMoon'), ('parameters', 'IntegrationParameters')],
     'property-based testing: composition of independently computed parts in extended precision, Jacobians in closed form and by differences',
     RNG + 'gravity to degree 6; the ephemeris and IAU routines are stand-ins; epochs within a day of a leap second left out')

prop('P33', 'The Kalman filter gives the least-squares estimate',
     'After every sequence of time and observation updates of a linear system, estimate and covariance of the extended Kalman filter are those that all observations and the a-priori values determine together by weighted least squares. '
     'Each update gives the optimal gain\'s state and covariance at the epoch passed, process noise is added if given, and the covariance stays symmetric and positive semi-definite.',
     ['histories', 'inputs'], 'every sequence of updates, sizes and weights',
     'Sequences of correlated parameters and precise observations bring out errors that one observation of one parameter cannot.',
     ['src/filters/ekf.hpp', 'src/filters/filters.hpp'],
     [('filter', 'ExtendedKalmanFilter'), ('orbit filter', 'EkfFilter<Np, BeaconClockModel>::time_update, observation_update')],
     'stateful property-based testing against a batch least-squares solution and long-double steps',
     RNG + 'up to 13 parameters; rounding is bounded by the conditioning of each step')

prop('P34', 'Each filter parameter has a place of its own',
     'For every number of beacons and clock model, satellite state, force, troposphere and clock parameters have distinct places within the filter\'s size. '
     'After any sequence of a-priori settings (of one beacon or of all) the estimates and variances named hold the values set last and all others are unchanged; clock values are those of the epoch asked for.',
     ['histories', 'inputs'], 'every number of beacons and sequence of settings',
     'Strides that agree for one or two beacons, or for one clock model, differ for more.',
     ['src/filters/filters.hpp'],
     [('places', 'EkfFilter::tropo_index, rfoff_index, drag_coef_index, num_params'), ('settings', 'set_tropo_apriori(_sigma), set_rfoff_apriori(_sigma), set_drag_coef_apriori(_sigma)'), ('estimates', 'tropo_estimate, rfoff_estimate, drag_coef')],
     'stateful property-based testing against a model of the parameter vector',
     RNG + 'up to 12 beacons, one to three force parameters')
