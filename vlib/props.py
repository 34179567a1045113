"""Texts of the properties: the source of properties.jsonl, MANIFEST.json and the evidence's bounds."""
P = {}


def prop(id, title, statement, over, quant, why, files, mech, bounds, note, technique, assumptions=(), state=(), observe=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                 bounds=bounds, note=note, technique=technique, assumptions=list(assumptions), state=list(state),
                 observe=list(observe))


COMMON = "The reference models and harnesses in /verif, the compiler, numpy and the FFT library's own transforms are trusted."

prop("C01", "A simulated field is the Gaussian field of its variogram, value by value",
     "For every variogram, grid shape, spacing, padding and smoothing, the field returned by simulate and advanced.simulate is a linear "
     "filter of independent standard normal draws whose covariance between any two cells is the variogram's correlation of their lag on "
     "the (padded) torus, so it has mean zero, unit variance and the requested anisotropy, azimuth and dip. "
     "The values are the exact ones that the documented random stream of the current seed gives, in 1D, 2D and 3D alike; the C++ functions behind them "
     "(several fields per call, an own generator, other standard deviations, the covariance grids) obey the same law.",
     ["inputs", "configurations"],
     "Every variogram type, power, range triple, azimuth and dip, grid shape and spacing, padding and smoothing setting and seed.",
     "The tests compare a few stored realisations and sample moments of a few configurations; an anisotropy, wrap-around or normalisation "
     "error in an untested combination of type, dimension, parity, angle and padding passes them.",
     ["src/gaussfft.cpp", "src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/variogram/fftcovgrid.cpp", "src/nrlib/fft/fft.hpp",
      "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp", "src/nrlib/variogram/variogram.cpp", "src/nrlib/random/normal.cpp"],
     [("covariance on the torus, FFT, square root of the spectrum, product with the spectrum of white noise, inverse FFT", "src/nrlib/variogram/gaussianfield.cpp")],
     "All combinations of 8 variogram types (5 powers), 3-5 range triples, angle grid, shapes 1..7 per axis, spacings, paddings {default, 0, 1, 2, ..}, smoothing ranges and 3 seeds; covariance matrix recovered completely for grids up to 20 cells. C++: 64 variograms x 12 grids x 1-3 fields x global/own generator, covariance grids of all shapes up to 6^3 (9^3).",
     "Exhaustive product of the stated finite parameter sets on the real extension; each field compared with an independent executable model (own dSFMT, own normal transform, own torus covariance, numpy FFT) to 2e-6, and the covariance matrix A*A^T recovered without the model. Parameters off the enumerated lattice are not covered.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["gaussianfft.simulate", "gaussianfft.advanced.simulate"])

prop("C02", "Seeds and call histories determine every field",
     "After seed(s), the sequence of fields depends only on s and the sequence of simulate calls made since: restarting from the same seed "
     "reproduces it exactly, consecutive fields come from disjoint stretches of the stream, and different seeds give different fields. "
     "seed() returns the seed in force, including the one chosen from the clock when none was set before the first simulate; queries "
     "(variogram construction, corr, simulation_size, quote, seed()) and rejected calls never change it or the stream.",
     ["histories", "inputs"],
     "Every finite history of seed(s), seed(), simulate, advanced.simulate, variogram queries and rejected calls in one process, from a fresh process on.",
     "The tests run one or two calls after a seed; hidden state (a cached draw, a generator re-created or re-seeded by another call) shows only in particular call sequences.",
     ["src/gaussfft.cpp", "src/gaussfftinterface.cpp", "src/nrlib/random/random.cpp", "src/nrlib/random/randomgenerator.cpp", "gaussianfft/__init__.py"],
     [("process-wide start seed and generator; per-field generators seeded from it", "src/nrlib/random/random.cpp")],
     "All call sequences over a 14-operation alphabet up to depth 4 (5 thorough) with merging of model-equal states, all unmerged sequences of depth 3, a set of first-call histories in fresh processes under a controlled clock, and seeds at every word boundary.",
     "Explicit-state exploration of the real extension: each transition is executed and its observation compared with the model's; merging is validated by the unmerged part.",
     "explicit-state search over operation sequences on the real code, model conformance on every transition", [COMMON],
     observe=["gaussianfft.seed", "gaussianfft.simulate"])

prop("C03", "Concurrent calls from several threads are atomic",
     "When several Python threads call seed, simulate, advanced.simulate, simulation_size and corr concurrently, every outcome (all returned "
     "values, the seed and the stream left behind) equals that of some serial order of the calls that keeps each thread's own order. "
     "No interleaving crashes, deadlocks or mixes two fields.",
     ["schedules"],
     "Every assignment of call lists to threads and every preemption of one thread by another inside the extension.",
     "Tests are single-threaded; a race needs a context switch at one particular instruction.",
     ["src/gaussfftinterface.cpp", "src/gaussfft.cpp", "src/nrlib/random/random.cpp"],
     [("the extension holds the interpreter lock during each call", "src/gaussfftinterface.cpp")],
     "2 threads x 1-2 calls (3 threads x 1 call) over an 8-call alphabet; every placement of up to 2 (3 thorough) preemptions at function entry/exit points of the compiled extension.",
     "Stateless exploration of schedules of the real extension under a controlled scheduler; preemption points are function entries and exits of the instrumented build, so races inside one leaf function are out of reach.",
     "systematic schedule enumeration with a preemption bound under a controlled scheduler", [COMMON],
     observe=["gaussianfft.*"])

prop("C04", "Grid layout, calling conventions and argument rejection of simulate",
     "simulate and advanced.simulate return a fresh, writable 1-D float64 array of exactly nx, nx*ny or nx*ny*nz finite values with x varying fastest; the field is "
     "1D when ny <= 1 or dy is negative, else 2D when nz <= 1 or dz is negative, else 3D, and omitted, positional and keyword arguments mean the same. "
     "Settings of unused dimensions have no effect, earlier results are never changed by later calls, and malformed arguments (wrong types, missing sizes, negative cell counts, unknown keywords) raise TypeError; "
     "the package's advertised names all exist.",
     ["inputs", "configurations"],
     "Every shape (including axes of length 1), every subset of optional arguments, every mix of positional and keyword passing and every variogram type name.",
     "The tests use a couple of shapes, all given in full; degenerate axes and partial argument lists are not run.",
     ["gaussianfft/__init__.py", "src/gaussfftinterface.cpp", "src/gaussfft.cpp"],
     [("dimension selection", "src/gaussfft.cpp"), ("argument binding", "src/gaussfftinterface.cpp")],
     "All shapes in {1..5}x{0..5}^2 ({1..7} thorough) with five spacing sign patterns and all 16 subsets of optional arguments; all positional/keyword splits; 10 malformed argument sets x 3 functions; all sequences of 4 calls for aliasing.",
     "Exhaustive over the stated sets on the real extension, compared with the reference model.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["gaussianfft.simulate", "gaussianfft.advanced"])

prop("C05", "simulation_size is exact and padding prevents wrap-around correlation",
     "simulation_size returns, per axis, the grid the simulation really uses before rounding up to a fast transform length: the requested cells plus padding that is longer than the "
     "correlation range in that direction and long enough in total for the variogram type, growing when ranges grow and independent of the seed. "
     "Opposite edges of a default-padded field are therefore uncorrelated to the variogram's nominal level, and explicit padding arguments of advanced.simulate are honoured cell for cell, negative ones meaning the default.",
     ["inputs", "configurations"],
     "Every variogram type, power, range, angle, spacing and grid size, and every combination of explicit and default paddings.",
     "The tests check a few sizes; off-by-one and axis mix-ups appear only for particular ratios of range to extent and for rotated anisotropic variograms.",
     ["src/gaussfft.cpp", "src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/fft/fft.cpp"],
     [("padding rule per axis", "src/nrlib/variogram/gaussianfield.cpp"), ("transform length rule", "src/nrlib/fft/fft.cpp")],
     "1D: 12 type/power pairs x 9 ranges x 6 spacings x nx 1..400 (1500); 2D/3D products of smaller sets with 8 angles; all padding combinations in {-1,0,1,2,3,5} per axis for 1-3 dimensions.",
     "Exhaustive over the stated sets on the real extension against an independent statement of the rule, plus the semantic bound itself.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["gaussianfft.simulation_size", "gaussianfft.advanced.simulate"])

prop("C06", "Variogram correlation functions are the documented ones in every direction",
     "corr(dx,dy,dz) of every variogram equals its textbook function of the anisotropic, rotated distance: 1 at lag 0, symmetric under negation of the lag, within [0,1], non-increasing along each ray, "
     "and down to the type's nominal level at exactly one range along each principal axis turned by azimuth and dip. "
     "Omitted trailing lags mean zero, a perpendicular or depth range of zero or less means the main range, type names are case-insensitive, and existing variograms are unaffected by the creation or destruction of others.",
     ["inputs", "configurations"],
     "Every variogram type, power, range triple, azimuth, dip and lag vector.",
     "The tests look at a few points of a few types; a wrong branch (lag beyond the range, angle beyond 90 degrees, one axis) survives them.",
     ["src/nrlib/variogram/variogram.cpp", "src/nrlib/variogram/variogramtypes.hpp", "src/gaussfft.cpp", "src/gaussfftinterface.cpp"],
     [("rotation and scaling of the lag, per-type correlation", "src/nrlib/variogram/variogram.cpp")],
     "8 types x 5 powers x 5 range triples x 18 azimuths x 8 dips x several hundred lag vectors; C++ class: all sequences of setters up to depth 3.",
     "Exhaustive over the stated lattice on the real code, to 1e-9.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["gaussianfft.variogram.corr"])

prop("C07", "FFT grids compute the discrete Fourier transform and its inverse",
     "For every grid shape, padding and scaling mode, the 1D, 2D and 3D forward transforms give the DFT of the padded data (in 1D the padding ramps linearly from the last value back to the first, on grids it is "
     "zero or supplied), the inverse transform restores the data exactly up to rounding, and convolution with a filter is circular convolution. "
     "Real, complex, cyclic and grid-copy accessors address the same cells. "
     "The chosen transform length is always the smallest number with prime factors 2, 3, 5, 7 only that is at least the requested length (and even where an even length is required).",
     ["inputs", "configurations", "histories"],
     "Every shape, padding, scaling flag, precision and data vector; every requested length; every history of initialise/transform/convolve calls on one grid.",
     "The repository has tests for one or two shapes; parity (odd/even lengths), axes of length 1, padding and axis order errors need other shapes.",
     ["src/nrlib/fft/fft.hpp", "src/nrlib/fft/fft.cpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp", "src/nrlib/fft/fftgrid2d.cpp", "src/nrlib/fft/fftgrid3d.cpp"],
     [("FFTW plans, scaling and index arithmetic", "src/nrlib/fft/fftgrid3d.hpp"), ("search over exponents of 2, 3, 5, 7", "src/nrlib/fft/fft.cpp")],
     "Lengths 1..12000 and every 7-smooth number +-1 up to 2e6 (1..120000 and 5e7 thorough); 1D n 1..26 x 8 paddings x all impulses; 2D shapes up to 6x6 (9x9) with paddings 0..3, 3D up to 4^3 (5^3), each on all unit impulses plus one dense vector; all operation sequences up to depth 4 (2D) and 3 (3D) on one grid.",
     "The transforms are linear, so agreement on every unit impulse decides the transform for that shape (up to rounding). Compiled with FFTW; the extension itself links MKL's FFTW interface, which C01 covers.",
     "exhaustive enumeration of shapes, basis inputs and operation sequences on the real code against the DFT definition", [COMMON],
     observe=["NRLib::FFTGrid2D", "NRLib::FFTGrid3D", "NRLib::ComputeFFT1D", "NRLib::FindNewSizeWithPadding"])

prop("C08", "The public API is memory safe, initialised and leak free",
     "No call or sequence of calls of the Python API reads or writes outside its allocations, uses a freed object, or computes from uninitialised memory, for any shape "
     "(axes of length 0 and 1 included), padding and smoothing and for any order in which variograms and result arrays are created, shared and dropped. "
     "Repeating any call or pair of calls does not grow the amount of allocated memory.",
     ["inputs", "histories"],
     "Every grid shape, padding, smoothing and variogram type, and every history of creating, using, aliasing and dropping variograms and results.",
     "An out-of-bounds access or a leak does not change the values the tests compare, and freed memory usually still holds the old value.",
     ["src/gaussfft.cpp", "src/gaussfftinterface.cpp", "src/nrlib/variogram/gaussianfield.cpp", "src/nrlib/variogram/fftcovgrid.cpp",
      "src/nrlib/fft/fft.hpp", "src/nrlib/fft/fftgrid2d.hpp", "src/nrlib/fft/fftgrid3d.hpp"],
     [("ownership of variograms (take_ownership), generators and FFT buffers", "src/gaussfftinterface.cpp")],
     "Shapes {1..5}x{0..5}x{0..4} plus prime and power-of-two lengths, 5 paddings, 2 smoothings; all lifetime sequences up to length 4 (5) over 13 operations; allocation growth of each of 22 operations and all pairs.",
     "Every enumerated execution runs on an AddressSanitizer build of the real extension with pattern-filled allocations; accesses inside the FFT library are seen only when they go through intercepted functions.",
     "exhaustive bounded enumeration of call sequences on the real code under a memory monitor", [COMMON],
     observe=["gaussianfft.*"])

prop("C09", "Random generators produce their documented, independent streams",
     "The process-wide generator (Random) and every RandomGenerator object draw uniform [0,1), open (0,1), 32-bit and standard normal numbers from one dSFMT-19937 stream each, "
     "determined by its seed (taken modulo 2^32) and the draws made from it alone: re-initialising, copying or drawing from one never affects another. "
     "Initialising from a seed file uses exactly the number in it, a missing or unreadable file raises and changes nothing, saving writes the stream's next 32-bit number there, "
     "and the start seed in force is always reported back (raising when none was set).",
     ["inputs", "histories"],
     "Every seed and every interleaving of initialisations, copies and draws of all kinds on several generators; every history of seed file loads, saves and draws.",
     "The tests draw from one generator at a time with a few seeds; state shared between generators or between kinds of draws appears only in particular interleavings.",
     ["src/nrlib/random/random.cpp", "src/nrlib/random/random.hpp", "src/nrlib/random/randomgenerator.cpp", "src/nrlib/random/randomgenerator.hpp", "src/nrlib/random/dSFMT.cpp", "src/nrlib/random/dSFMT.h"],
     [("dSFMT state blocks of 382 doubles, regenerated in place", "src/nrlib/random/dSFMT.cpp"), ("Marsaglia-Bray normal sampler", "src/nrlib/random/random.cpp")],
     "All sequences of up to 4 (5) operations from 18 on two objects and the global generator; 64 draw patterns x 8 seeds x 3000 (30000) draws; 24000 (240000) seeds round the word boundaries; all seed-file histories up to 4 (5) of 9 operations.",
     "Bit-exact agreement of every draw with an independent model. The standard normal sampler is the documented Marsaglia-Bray method.",
     "exhaustive exploration of operation sequences on the real code, model conformance on every transition", [COMMON],
     observe=["NRLib::Random", "NRLib::RandomGenerator"])

prop("C10", "Empirical variogram utilities report what the simulated fields contain",
     "EmpiricalVariogram.estimate_variogram returns, for equal distance bins about a reference point, the bin centres and the average over simulations and reference points of one minus half the mean "
     "squared increment, taken over exactly the cells of each bin of the fields simulated with the given grid and padding; true_variogram and the convergence series refer to the same distances and fields. "
     "EmpiricalVariogram2, PaddingAnalyzer (deviation per range and padding, with the given seed, zero included) and ResourceExtrapolator (least-squares slope per cell) likewise report exactly what their own "
     "simulations gave, and the reference point strategies pick the documented cells.",
     ["inputs", "configurations"],
     "Every grid shape, spacing, resolution, reference point set, number of simulations, convergence interval, padding and range list.",
     "The repository has no tests of these utilities; axis order, bin and averaging errors give plausible curves.",
     ["gaussianfft/util/empirical_variogram.py", "gaussianfft/util/empirical_variogram2.py", "gaussianfft/util/padding_analyzer.py", "gaussianfft/util/resource_extrapolator.py"],
     [("binning of squared increments about reference points", "gaussianfft/util/empirical_variogram.py")],
     "12 (15) grid shapes x 3 spacings x 4 resolutions x 7 reference sets x 3 simulation counts, with synthetic and with real fields; 180 EmpiricalVariogram2 set-ups; 144 padding analyses; 36 extrapolations.",
     "Each result is recomputed by an independent loop-based oracle from the very fields the utility simulated (recorded at gaussianfft.advanced.simulate); a distance within 1e-9 of a bin edge may be counted on either side.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["gaussianfft.util"])

prop("C11", "Probability distributions and special functions are the mathematical ones",
     "Density, distribution function and quantile of every distribution class (normal, log-normal, uniform, triangular, split uniform, delta, fractal, chi-squared, Poisson, binomial, general discrete, beta, beta "
     "with end masses) and erf, erfc, their inverses, gammln, gammp, invgammp and bico equal their mathematical definitions, quantile and distribution function being inverse and monotone. "
     "Draw turns the generator's next numbers into exactly the value its documented method gives, the same from the process-wide and from an explicit generator in the same state, and truncated normal draws stay in "
     "their interval and follow the truncated law. "
     "After any history of SetParameters an object behaves as one newly constructed with the last parameters, and a clone as its original.",
     ["inputs", "configurations", "histories"],
     "Every parameter set, abscissa, probability and generator state; every history of SetParameters calls.",
     "The repository has no tests of these classes; a wrong branch in a tail, at a support boundary or after re-parametrisation is invisible to it.",
     ["src/nrlib/random/normal.cpp", "src/nrlib/random/lognormal.cpp", "src/nrlib/random/uniform.cpp", "src/nrlib/random/triangular.cpp", "src/nrlib/random/splituniform.cpp", "src/nrlib/random/delta.cpp",
      "src/nrlib/random/fractal.cpp", "src/nrlib/random/chisquared.cpp", "src/nrlib/random/poisson.cpp", "src/nrlib/random/binomial.cpp", "src/nrlib/random/generaldiscrete.cpp", "src/nrlib/random/beta.cpp",
      "src/nrlib/random/betawithendmass.cpp", "src/nrlib/random/functions.cpp", "src/nrlib/random/gamma.cpp", "src/nrlib/random/distribution.hpp"],
     [("inversion of the distribution function, rejection for Poisson", "src/nrlib/random/distribution.hpp")],
     "4-60 parameter sets per class x 60-200 abscissae and 100 probabilities (tails to 1e-12, support ends and points just outside included); 3 seeds x 10-60 draws per parameter set; all SetParameters histories up to 3 over 3 parameter sets from 4 constructions for 6 classes; bico for all n <= 60.",
     "Exhaustive over the stated lattices on the real code; oracles are libm, boost::math and closed forms, and an independent random stream. Values between lattice points are not covered.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["NRLib::Distribution"])

prop("C12", "Grid containers map indices one to one and keep values through any history",
     "Grid2D, Grid2DGeneral, Grid (3D), Grid4D and Grid5D store one value per cell with the first axis fastest: linear index, cell indices, iterators and element access are mutually inverse and address the same "
     "cell for every shape, empty axes and shifted first indices included. "
     "Through every history of construction, Resize, Assign, ResizeK, writes, Swap (with itself too), copies and assignments, shape and contents are those of a plain array treated the same way, and no grid shares cells with another. "
     "Minimum, maximum, average and logarithm disregard exactly the cells with the missing code.",
     ["inputs", "histories"],
     "Every shape, cell and history of operations on grids of every class and element type.",
     "The repository has no tests of the containers; the simulation uses them with one access pattern only.",
     ["src/nrlib/grid/grid.hpp", "src/nrlib/grid/grid2d.hpp", "src/nrlib/grid/grid2dgeneral.hpp", "src/nrlib/grid/grid4d.hpp", "src/nrlib/grid/grid5d.hpp"],
     [("index arithmetic and vector ownership", "src/nrlib/grid/grid.hpp")],
     "All shapes up to 8x8, 6^3, 4^4, 3^5 (12x12, 7^3, 5^4, 4^5); all operation sequences up to depth 4 (5) over 18-20 operations on two grids of each class with int, double and string cells; all value lists up to 5 (6) cells over 6 values x 3 missing codes.",
     "Every transition compares shape, every index map and every cell with the model.",
     "explicit-state search over operation sequences on the real code, model conformance on every transition", [COMMON],
     observe=["NRLib::Grid", "NRLib::Grid2D", "NRLib::Grid2DGeneral", "NRLib::Grid4D", "NRLib::Grid5D"])

prop("C13", "Binary number codecs are exact in every format and byte order",
     "Shorts, ints, floats and doubles written by the WriteBinary functions (scalar or array, big or little endian, to standard streams or a BigFile) occupy exactly their own bytes in that order and read back bit for bit, in any "
     "mixture; reading from a stream that holds fewer bytes raises, as does writing to a failed one. "
     "Every normalised IBM word whose value is a normal float reads as exactly that value and is written back identically, every float is written to IBM as its truncation (relative error below 2^-20), larger IBM values read as "
     "non-finite and smaller ones within 2^-126. "
     "BigFile reads, writes, seeks and reports position, end of file and size as a byte array would through any sequence of calls, and opening a missing file or a directory raises.",
     ["inputs", "histories"],
     "Every 16- and 32-bit pattern, every array length and truncation, every sequence of reads, writes and seeks.",
     "The tests convert a handful of values; sign, exponent and rounding corner cases of the IBM format are 2^32 many.",
     ["src/nrlib/iotools/fileio.hpp", "src/nrlib/iotools/fileio.cpp", "src/nrlib/iotools/bigfile.hpp", "src/nrlib/iotools/bigfile.cpp"],
     [("shift tables for the IBM exponent", "src/nrlib/iotools/fileio.hpp")],
     "All 2^32 words in both IBM directions, all 2^16 shorts, 50000 32-bit and 1.8 million 64-bit patterns; arrays of 1..64 (40000) elements of 6 kinds x byte orders x scalar/array x 3 stream kinds, all truncations; all mixed sequences up to 3 (5) items; all BigFile read sequences up to depth 4 (5) over 12 operations and write sequences up to 3 (4) over 9.",
     "Complete for 16- and 32-bit values on the real code. Unnormalised IBM words, NaN and infinity have no specified IBM form and are not judged.",
     "exhaustive enumeration of all 32-bit words and of operation sequences on the real code", [COMMON],
     observe=["NRLib::ReadBinary*", "NRLib::WriteBinary*", "NRLib::BigFile"])

prop("C14", "Text scanning, string tools and file operations do what they document",
     "For every text, ReadNextToken, ReadNext, GetTokens, GetQuotedTokens, ReadNextQuoted (non-empty quotes), DiscardRestOfLine, GetNextNonEmptyLine, FindLastNonEmptyLine, CheckEndOfFile, SkipComments and IgnoreComment deliver exactly the "
     "tokens, lines and line numbers the text contains and leave the stream where documented; the ASCII array readers return exactly the first n numbers or raise when there are fewer; TabularFile (a last line of zeros or -999 ends the table) and the vector (de)serialisers give back the table written. "
     "ParseType and IsType accept exactly the complete decimal numbers in range and ToString, Substitute, Uppercase, Chomp and the path functions return the documented strings. "
     "OpenRead, OpenWrite, CopyFile, RemoveFile, CreateDirIfNotExists, FileExists, FindFileSize and FindGridFileType act on the file system as documented through any history, and a call that raises leaves every file as it was.",
     ["inputs", "histories"],
     "Every text, number string, pattern, array length and table layout; every history of file operations.",
     "The tests scan a few well-formed files; missing final newlines, blank lines, truncated arrays and failing copies need other inputs.",
     ["src/nrlib/iotools/fileio.cpp", "src/nrlib/iotools/fileio.hpp", "src/nrlib/iotools/stringtools.cpp", "src/nrlib/iotools/stringtools.hpp", "src/nrlib/iotools/tabularfile.cpp", "src/nrlib/iotools/serialize.hpp"],
     [("character-wise scanner with line counting", "src/nrlib/iotools/fileio.cpp")],
     "All strings up to length 6-7 (7-8) over 4-5 letter alphabets with blanks, newlines, tabs, quotes and comment marks; all 5-character strings over 10 number characters; all texts and patterns over {a,b} up to 6 (8) and 3; 2592 table layouts; all file histories up to depth 4 (5) over 13 operations.",
     "Exhaustive over the stated strings on the real code against straightforward reference scanners. Texts the documentation leaves open (a comment that is never ended by text, empty or unterminated quotes) are only required to terminate.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::ReadNextToken", "NRLib::ParseType", "NRLib::CopyFile"])

prop("C15", "Log messages reach exactly the destinations that ask for them",
     "Through every history of LogKit calls, each file, screen and custom stream receives, in order and in full whatever their length, exactly the messages sent while it was attached whose level its mask for that phase selects "
     "(phases beyond its list and messages without phase use the union of its masks, or nothing when it ignores general messages), each with the prefix then set for its level. "
     "A stream attached while buffering first receives the buffered messages it selects (the screen does not), a new screen log replaces the old one, removed and ended streams are closed once and receive nothing more, "
     "and GetNMessages counts every message sent per level.",
     ["histories", "configurations"],
     "Every history of attaching, removing, buffering, prefixing, logging and ending, and every level mask and phase.",
     "The repository has no tests of the logging; which stream gets which message depends on the history.",
     ["src/nrlib/iotools/logkit.cpp", "src/nrlib/iotools/logkit.hpp", "src/nrlib/iotools/logstream.cpp", "src/nrlib/iotools/logstream.hpp"],
     [("static list of streams, message buffer and counters", "src/nrlib/iotools/logkit.cpp")],
     "All histories up to 4 operations from 24 (5 from 14 thorough); all 128 masks x 5 stream kinds x 7 levels x 7 phases; formatted messages of 0..20000 characters.",
     "Explicit-state exploration of the real code; after each operation all destinations are read back and compared with the model.",
     "explicit-state search over operation sequences on the real code, model conformance on every transition", [COMMON],
     observe=["NRLib::LogKit"])

prop("C16", "Geometry primitives and 1D interpolation are exact in every position",
     "For every configuration of points, segments, rays and infinite lines, Point, Line, Plane, Triangle and Box return the true projections, distances, nearest points, angles, sides and intersections (respecting the "
     "lines' end points, a box meeting a line in each side point once, also on edges and corners), and their parallel, overlap and containment tests agree with them. "
     "Polygon's orientation, convexity, extent, circumference, inside test, convex reduction, smallest enclosing rectangle and tangent points are those of the closed simple polygon (off its boundary), Transformation applies "
     "its operations in the order they were added, and linear and natural cubic spline interpolation pass through strictly increasing nodes, interpolate between and extrapolate (or return the given value) beyond them.",
     ["inputs", "configurations", "histories"],
     "Every position of points, line kind, plane, box size and rotation, triangle, simple polygon, sequence of transformations and node set.",
     "The tests cover two line pairs and a few interpolations; degenerate, parallel, touching and out-of-range positions each take their own branch.",
     ["src/nrlib/geometry/point.hpp", "src/nrlib/geometry/point.cpp", "src/nrlib/geometry/line.cpp", "src/nrlib/geometry/plane.cpp", "src/nrlib/geometry/box.cpp", "src/nrlib/geometry/triangle.cpp", "src/nrlib/geometry/polygon.cpp",
      "src/nrlib/geometry/transformation.cpp", "src/nrlib/geometry/interpolation.cpp"],
     [("case analysis on clamped line parameters", "src/nrlib/geometry/line.cpp")],
     "All pairs of points of a 5^3 lattice; all lines through a 3^3 lattice x 4 end kinds x 125 query points; all pairs of lines through a 3x3x2 lattice (3^3 thorough) x 16 end kinds, lines, distances and inside tests repeated in units of 2^-14 and 2^17; 504 planes x 1296 lines; 40 boxes x 15500 lines x 4; 970 (5800) triangles x 1300 lines; all polygons of 3-5 vertices on 3x3 and 3-4 on 4x4 "
     "(6 and 5 thorough); all sequences of up to 4 (5) of 15 transformations; all node sets of 2-6 (7) nodes over 3 gaps with a basis of data vectors.",
     "Exhaustive over the stated lattices on the real code; oracles work in exact integers or by minimisation. Where a contact is exact in the mathematics but not in floating point, either answer is accepted. BilinearSurface is covered for GetPoint only.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["NRLib::Line", "NRLib::Plane", "NRLib::Box", "NRLib::Triangle", "NRLib::Polygon", "NRLib::Transformation", "NRLib::Interpolation"])

prop("C17", "Linear algebra routines solve, factorise and store matrices exactly",
     "For every matrix, CholeskySolve, CholeskyInvert, CholeskyFactorize, TriangularSolve, Invert and TriangleFactorize/TriangleInvert return the solution, inverse or factor to rounding and raise when a symmetric matrix has a negative "
     "leading minor or a matrix has a zero row, column or pivot; CholeskyDeFactorize undoes CholeskyFactorize in upper and lower storage, and the eigenvalue routines (real symmetric, general with distinct real eigenvalues, Hermitian) return normed pairs with A v = lambda v. "
     "Sort3x3, FindLargestElement, Adjoint and the constructors of constant matrices do what they say for all values. "
     "A matrix or vector written to file (ASCII to 9 digits, binary exactly, symmetric ones in full) is read back the same, and a file with fewer or more numbers raises.",
     ["inputs", "faults"],
     "Every matrix, right-hand side, storage triangle and file, truncated at every byte.",
     "The repository has no tests of this layer; wrong triangles, unchecked LAPACK return codes or sentinels show for particular matrices only.",
     ["src/nrlib/flens/nrlib_flens.cpp", "src/nrlib/flens/nrlib_flens.hpp"],
     [("thin wrappers over LAPACK with manual triangle handling", "src/nrlib/flens/nrlib_flens.cpp")],
     "All symmetric matrices of order 1-3 over 4 diagonal x 4 off-diagonal values and order 4 over 2x3 (3x4 thorough); all general matrices of order 1-2 over 4 values and order 3 over 3 (4); all upper triangular ones to order 4; all Hermitian ones to order 3; files of 1x1..3x3 cut at every byte.",
     "Exhaustive over the stated alphabets (exactly representable, so definiteness and singularity are decided exactly) on the real code; LAPACK itself (OpenBLAS) is trusted as a component but its results are checked by residuals.",
     "exhaustive bounded enumeration of executions against exact determinants and residuals", [COMMON],
     observe=["NRLib::CholeskySolve", "NRLib::Invert", "NRLib::ReadMatrixFromFile"])

prop("C18", "Kriging, conditional normal distributions and statistics are the textbook ones",
     "Krig1D and Krig2D (nodal and continuous data, with trend or residuals only) give every cell trend + k'K^-1(data - trend) for every pattern of observations, none at all included; nodes with data get their data, several data in a node count as their mean, missing data (99999) not at all, "
     "and kriging in blocks honours the data and equals kriging all at once when the blocks' neighbourhoods reach all data. "
     "CondDistrMultiNormal, SecondayCondDistrMultiNormal2D (repeated observations counting once), Posterior1DNormal and MultiNormal's Potential and Draw are those of the normal distribution with the given mean and covariance, also after SetParameters. "
     "Count, Sum, Mean, Var, Cov, MinElement and MaxElement disregard exactly the missing values, and raise (or return 0) exactly when there are no data or lengths differ.",
     ["inputs", "configurations", "histories"],
     "Every pattern and number of observations, grid shape, variogram, block neighbourhood, standard deviation and covariance matrix.",
     "The tests look at three cells of one kriged surface; data near the far edge, few data, repeated data and residual output take other paths.",
     ["src/nrlib/statistics/kriging.cpp", "src/nrlib/statistics/nodalkrigingdata2d.cpp", "src/nrlib/statistics/continuouskrigingdata2d.cpp", "src/nrlib/statistics/posteriormultinormal.cpp", "src/nrlib/statistics/multinormal.cpp", "src/nrlib/statistics/statistics.hpp"],
     [("division of the grid into blocks with their own data", "src/nrlib/statistics/kriging.cpp")],
     "All known/unknown patterns of 1-8 (10) nodes x 4 variograms x 2 spacings; all placements of 0-3 data on 3x4, 1x6 and 5x2 grids and of corner data on 30 larger shapes (every node thorough), grids with 200-330 data; all sets of 1-3 continuous data on half-node lattices; all AddData histories to length 4 (5); "
     "all 243 assignments of 5 positions to known/unknown/absent, with every observation repeated at every later place; all covariance matrices to order 3 over 3x3 values; all value sequences to length 6 (7) over 5 values.",
     "Exhaustive over the stated configurations on the real code; oracle: independent Gaussian elimination in long double. Near-singular systems (repeated continuous data) are left out.",
     "exhaustive bounded enumeration of executions against an executable reference model", [COMMON],
     observe=["NRLib::Kriging::Krig2D", "NRLib::CondDistrMultiNormal", "NRLib::MultiNormal"])

prop("C19", "Surfaces interpolate, combine and survive their file formats exactly",
     "A regular or rotated surface returns at every point the bilinear interpolation of the surrounding nodes (weights renormalised over the non-missing ones, missing when none has weight; GetZInside needs all four), and its node positions, index "
     "lookups, nearest nodes, extent, minimum, maximum and average agree with its geometry after any history of SetDimensions, SetAngle, Resize, Swap, copies and (non-conform) arithmetic, which leaves missing nodes missing. "
     "ResampleSurface gives each new node the surface's value at that node. "
     "Storm binary and IRAP classic files hold the documented header and values (missing ones as -999 or 9999900) and read back the same in single and double precision, files with fewer or more numbers or a wrong header raise, Sgri files give the surfaces they describe, and file types are recognised.",
     ["inputs", "configurations", "histories", "faults"],
     "Every node grid with every pattern of missing nodes, every position, rotation, history of operations and file, cut at every byte.",
     "The repository's tests use one surface as kriging trend; missing corners, positions outside, rotation and most file paths are never run.",
     ["src/nrlib/surface/regularsurface.hpp", "src/nrlib/surface/regularsurfacerotated.hpp", "src/nrlib/surface/surface.hpp", "src/nrlib/surface/surfaceio.hpp", "src/nrlib/surface/surfaceio.cpp"],
     [("bilinear interpolation with missing corners", "src/nrlib/surface/regularsurface.hpp"), ("readers and writers", "src/nrlib/surface/surfaceio.hpp")],
     "All missing patterns on 9 shapes up to 3x3, 4x2 and 2x5 x 3 geometries x quarter- and eighth-cell query lattices from 1.25 cells outside; all value patterns over 4 values up to 6 nodes; all histories up to 3 (4) of 21 operations on two surfaces; 22 (40) angles x 20 rotated geometries; "
     "Storm and IRAP files of all shapes to 4x4 x 3 geometries x 3 missing codes, cut at every byte or token; 324 Sgri files.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). RegularSurfaceRotated::EnclosesRectangle compares bounding boxes only and is not claimed; interpolated values are compared to 1e-5 relative where the position is rotated.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::RegularSurface", "NRLib::RegularSurfaceRotated", "NRLib::FindSurfaceFileType"])

prop("C20", "Volumes and Storm grids keep their geometry, look up cells and survive files",
     "After any history of SetDimensions, SetAngle, SetSurfaces (also with the volume's own surfaces), copies and assignments a Volume reports exactly the geometry it was given: local and global coordinates, the tests for being inside (with tolerances), centre, depth extremes over cell centres and largest thickness "
     "agree with its origin, lengths, angle and surfaces, missing surface values are skipped, and surfaces that do not cover it raise. "
     "StormContGrid and StormFaciesGrid find for every point inside the cell that holds it (points on the bottom in the lowest layer) and raise outside, and the depth interpolations are linear between cell centres, constant beyond the outer ones, and ignore missing cells. "
     "Storm binary and ASCII files hold the header and the cells in x-fastest order and read back to the same grid and volume, erosion surfaces included, in both byte orders; files cut anywhere, with barriers, inconsistent facies bodies or missing surface files raise without damage.",
     ["inputs", "configurations", "histories", "faults"],
     "Every volume geometry and surface pair, every position relative to the cells, every history of operations, and every file cut at any byte.",
     "The repository's tests never construct a volume or Storm grid; lookups near edges, rotation, missing surface values and damaged files need systematic enumeration.",
     ["src/nrlib/volume/volume.cpp", "src/nrlib/volume/volume.hpp", "src/nrlib/stormgrid/stormcontgrid.cpp", "src/nrlib/stormgrid/stormcontgrid.hpp", "src/nrlib/stormgrid/stormfaciesgrid.cpp"],
     [("coordinates, inside tests and thickness", "src/nrlib/volume/volume.cpp"), ("cell lookup, depth interpolation and files", "src/nrlib/stormgrid/stormcontgrid.cpp"), ("facies bodies", "src/nrlib/stormgrid/stormfaciesgrid.cpp")],
     "50 volumes (5 angles x 5 surface pairs x 2 geometries) x 3 ways of construction x 17x17 relative positions x 8 depths; all histories up to 4 (5) of 14 operations on two volumes; 50 volumes x 4 cell shapes x lookup lattices of 0.4 x 0.4 x 0.3 cells from outside to outside; "
     "all patterns of missing layers; 52 volumes x 3 shapes x formats x byte orders of files, cut at every 7th header and every data byte; all body and facies numberings up to 3 x 3; 42 volumes x constant or regular erosion surfaces.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). WriteToSgriFile (which rescales to km and pads depth) is not claimed to read back.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::Volume", "NRLib::StormContGrid", "NRLib::StormFaciesGrid"])

prop("C21", "Wells keep their logs through any history and survive their file formats",
     "Through any history of adding, replacing, removing and changing logs, MakeLogsUppercase and copies, a Well holds exactly the logs, values, name and missing codes last given, and an absent log or index gives the missing code; BlockWell gives each cell passed, "
     "in order of first passage, the average of the non-missing values (truncated for discrete logs), with the missing codes of the well. "
     "RMS, LAS and NORSAR files give exactly the name, position, units, discrete names and log values they contain (NORSAR track and log files merged by measured depth, missing where a file has no row), and wells written as RMS (8 digits) or LAS (3 decimals) read back the same, "
     "also after logs were added or removed. "
     "Files cut short, rows too short, LAS and NORSAR records of the wrong length, and unknown or repeated LAS sections raise; reading never hangs or touches memory outside the well.",
     ["inputs", "histories", "faults"],
     "Every history of log operations, every combination of columns, rows and styles of the three formats, every one-line damage, and every path of a well through cells.",
     "The repository's well tests need data files that are not in the repository; merging, wrapping, missing values and damaged files are never run.",
     ["src/nrlib/well/well.cpp", "src/nrlib/well/rmswell.cpp", "src/nrlib/well/laswell.cpp", "src/nrlib/well/norsarwell.cpp", "src/nrlib/well/welloperations.hpp"],
     [("readers and writers with parallel tables per log", "src/nrlib/well/laswell.cpp"), ("merging of track and log files", "src/nrlib/well/norsarwell.cpp"), ("blocking", "src/nrlib/well/welloperations.hpp")],
     "All histories to 3 (4) of 20 operations x 3 constructions; RMS files of 0-3 columns of 4 kinds x 0-4 rows x 4 styles, with all one-line damages; all pairs of row subsets of 4 (5) depths x 3 measured-depth columns x 2 missing codes and all triples of 3 for NORSAR; "
     "LAS files of 1-4 curves x 1-4 records x plain, wrapped and comma forms x steps x section orders; blocking of all sequences to 5 (6) of 5 points, to 4 with 3 pairs of missing codes.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Writing wrapped LAS files (refused by an assertion), repeated log names, extra columns in RMS rows and colons inside LAS values are not claimed.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::Well", "NRLib::RMSWell", "NRLib::LasWell", "NRLib::NorsarWell"])

prop("C22", "SEG-Y surveys map positions to traces, and files keep their traces",
     "A SegyGeometry found from the traces of a regular orthogonal survey, in any order and orientation and with traces missing as long as every inline and crossline has one, or made from parameters, a surface, a copy or as part of another by inlines and crosslines, "
     "has the cells, inline and crossline range and steps of the survey, and its functions agree: inline and crossline number, cell index and position of every trace map to each other, a position belongs to the cell that contains it, and what is outside is reported or raises. "
     "SEG-Y files written by WriteTrace (with numbers, by position, with a header) or StoreTrace and WriteAllTracesToFile hold, at the bytes of the chosen header format, the numbers, the position to the file's unit, sampling, start time and samples of each trace; "
     "files in sample formats 1, 2, 3 and 5 give the same traces by GetNextTrace, by ReadAllTraces and CreateRegularGrid, and by FindAndSetGridGeometry and GetTraceData; a file cut anywhere raises or gives right traces. "
     "Header formats made in any way (own byte positions, no scaling) and every coordinate unit behave alike; a volume cuts each trace to the samples that cover it and leaves out traces outside it or under missing surfaces; "
     "GetValue reproduces values that are linear in position and is missing or zero outside the survey; data written or stored in a volume are placed from its top.",
     ["inputs", "faults"],
     "Every survey of the stated sizes, orientations, steps and orders, every subset of its traces, every combination of header format, unit, sample format and sampling, and every truncation of a file.",
     "The repository has no test of SEG-Y: no other orientation, order, header format or damaged file is ever run.",
     ["src/nrlib/segy/segygeometry.cpp", "src/nrlib/segy/segy.cpp", "src/nrlib/segy/segytrace.cpp", "src/nrlib/segy/traceheader.cpp", "src/nrlib/segy/commonheaders.cpp"],
     [("geometry from three corner traces", "src/nrlib/segy/segygeometry.cpp"), ("reading and writing of traces", "src/nrlib/segy/segy.cpp"), ("trace header formats and coordinate units", "src/nrlib/segy/traceheader.cpp")],
     "Surveys of 1-3 (4) x 1-3 (4) traces x 16 directions x 2 handednesses x 4 step pairs x 3 spacings x 8 orders; all parts of each by inlines and crosslines; all subsets of 3 x 3, 2 x 3 and 3 x 2 traces that touch every line; "
     "6 header formats x 4-5 units x 4 sample formats x 1, 2, 5 samples x 4-5 intervals x 14 surveys x orders (a fixed half in the quick run); every truncation of 4 files; repeated file headers; all coordinate scalers with old and new header objects; GetValue on lattices of positions in and around surveys; volumes with flat, sloping and partly missing surfaces.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Recognition of the header format among several, surveys that are not orthogonal, and positions off a single line are not claimed.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::SegyGeometry", "NRLib::SegY", "NRLib::SegYTrace", "NRLib::TraceHeader"])

prop("C23", "Trends interpolate their data exactly, through histories, files and resampling",
     "A Trend is the multilinear interpolation of its values on a regular lattice, constant beyond the ends, at any relative position and at any position in a volume; its smallest, largest and mean value, element access, size, increment and sign test describe those values, "
     "and stay right through any sequence of AddConstant, Truncate, ScaleToAverage and Clone. Trends in 1D, 2D and 3D text and binary files are read with every value in its place, and a file that is cut short raises. "
     "ResampleTrend1D and ResampleTrend2D sample the piecewise linear trend; LinearInterpolation and BilinearInterpolation reproduce linear data; sorting, ranking and bounds are those of the data; "
     "PreprocessData0D and PreprocessData1D keep exactly the pairs whose value is not missing; binning in one and two directions distributes every observation's weight linearly over the bins around it.",
     ["inputs", "histories", "faults"],
     "Every trend of the stated sizes and values at every position of a lattice that reaches outside, every sequence of operations, every truncation of the files, every small data vector.",
     "The repository has no test of trends at all.",
     ["src/nrlib/trend/trend.cpp", "src/nrlib/trend/trendkit.cpp"],
     [("values and scaling of trends", "src/nrlib/trend/trend.cpp"), ("files, resampling, sorting and binning", "src/nrlib/trend/trendkit.cpp")],
     "All value assignments from 4 values to 1D trends of 2-4 (5) values x 3 references x 3 increments; 2D up to 3 x 3 and 3D up to 3 x 3 x 3 with several value patterns; positions in [-0.375, 1.375] with step 1/8 (1/16) and odd fractions; all sequences of 7 operations to depth 1-3; several thousand file layouts and every truncation of them; all resamplings between subsets of 7 and 9 positions; all data vectors of up to 6 (7) values from 3-4; all subsets of 9 positions for binning.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Estimates by kernel regression, WriteTrend1D (which writes another format than is read), 2D trends along depth in a volume and 3D trends outside the unit cube without a volume are not claimed.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::Trend", "NRLib::ReadTrend1D", "NRLib::ResampleTrend1D", "NRLib::MakeBinnedDataset1D"])

prop("C24", "Point sets keep parameters with points, survive files, and have the right hull",
     "Through any history of AddPoint, Resize, Erase, adding or replacing of discrete, continuous and string parameters, SetDiscreteParameter, element assignment and copying, every point of a PointSet keeps its coordinates and its own parameter values (new points get 0, 0.0 and the empty string), and absent parameters raise. "
     "Files written as RMS internal points, Roxar text and general XYZ are recognised and give the same points, parameters and values (to the decimals that are written: 3 and 6), with or without a newline at the end; Roxar text in several parts and Jason files are read in full; "
     "undefined or omitted parameter values become -999 or UNDEF, points that are not Active are left out exactly when that is requested, and malformed files raise. A point set made from a surface has the nodes that are not missing, in order. "
     "GetConvexHull gives exactly the extreme points of the set, in order around it, for any number, order and multiplicity of points, collinear ones included.",
     ["histories", "inputs"],
     "Every operation sequence to the stated depth from three starts, every combination of point count, parameter kinds and values, and every sequence of points on a small lattice.",
     "The repository's tests sample a single set of points.",
     ["src/nrlib/pointset/pointset.cpp", "src/nrlib/pointset/pointset.hpp"],
     [("parameters that follow points", "src/nrlib/pointset/pointset.cpp"), ("file formats", "src/nrlib/pointset/pointset.cpp"), ("convex hull by angle sort and scan", "src/nrlib/pointset/pointset.cpp")],
     "All sequences of 13 operations to depth 4 (5) from 3 starts, with round trips through 3 formats; 1-3 (4) points x 8 parameter kinds x 64 value assignments; all active masks of up to 5 points; all masks of missing nodes of surfaces up to 3 x 3; all sequences of up to 5 (6) points on a 3 x 3 lattice and all subsets of a 4 x 3 (4 x 4) lattice in 3 orders.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Strings with quotes or tabs, points that equal the Roxar end mark, and the OpenWorks format are not claimed.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::PointSet"])

prop("C25", "Wavelets keep each sample at its time through any history and file format",
     "A Wavelet of n samples has time zero at index n/2. Through any history of Resize, Resample, Scale, SetSampleInterval, element assignment, copying and ReadFromFile every sample stays at its time: Resize keeps what fits and fills with zeros, Resample to a multiple of the interval keeps the samples at the new times and any other interval raises, "
     "ReadFromFile leaves nothing of the former contents. The Ricker wavelet is (1 - 2c) exp(-c), c = (pi f t)^2. Jason, Syntool, Strata and Landmark files are recognised and give their samples at their times, with zeros added until time zero is in the middle, scaled on request, with or without a newline at the end; "
     "a Jason file that is written gives the same wavelet (to 6 digits); files with too few samples, missing or repeated header lines, text for numbers or time zero outside the samples raise, and so does a file of no known format.",
     ["histories", "inputs"],
     "Every operation sequence to the stated depth from five starts, every number of samples and position of time zero up to the bound in every file format and layout variant.",
     "The repository has no test of wavelets at all.",
     ["src/nrlib/wavelet/wavelet.cpp", "src/nrlib/wavelet/wavelet.hpp", "src/nrlib/wavelet/waveletio.cpp"],
     [("resizing and resampling around time zero", "src/nrlib/wavelet/wavelet.cpp"), ("file formats", "src/nrlib/wavelet/waveletio.cpp")],
     "All sequences of 18 operations to depth 3 (4) from 5 starts; 4 formats x 1-6 samples x all positions of time zero x 6 intervals x 3 number styles x 4 layouts x 3 endings; Ricker wavelets of 0-40 samples.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Sample intervals that are not exact in binary are not resampled; data after the last sample of Syntool, Strata and Landmark files is not claimed to raise.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["NRLib::Wavelet", "NRLib::FindWaveletFileType"])

prop("C26", "Eclipse grids: cells, pillars, point location, and files read as written",
     "In an EclipseGrid of ni x nj x nk cells, cell index = i + ni (j + nj k); the corner (a,b,c) of a cell is the point of pillar (i+a, j+b), a straight line extended both ways (vertical if its two points are equal), at the depth stored for it; cell centres, faces, tops and bases follow from the corners. "
     "First and last active cell of a column, first and last active layer, active pillars (those of columns with an active cell), the range of depths at a pillar, the mean pillar distance and the neighbour in the layer direction (next active cell, if all four corners meet within 1e-4) are as in a plain model. "
     "FindPointInCell(u,v,w) is the mean, by w, of the points of the top and base of the cell whose depth is bilinear in (u,v) and which divide the four pillars at that depth as (u,v). FindIndex gives the cell of every point inside a cell of a column with an active cell, in any orientation and map coordinates, and false above, below and beside the grid. "
     "Files from WriteToFile and WriteToFiles (any split) read back with the same cells (3 decimals), parameters (5 decimals), activity and faults; hand-written files with comments, LF or CRLF, and MAPAXES with local coordinates give the right pillars; files that are cut short, with too few values or malformed faults raise, and no file makes the reader loop. "
     "Faults list every face of every segment once, and segments cross where their lines do. Resize nulls everything out.",
     ["inputs", "histories"],
     "Every cell, corner, face and pillar of every grid of the stated sizes and layouts, every position of a lattice in every cell, every truncation of the files, all pairs of fault segments.",
     "The repository has no test of Eclipse grids at all.",
     ["src/nrlib/eclipsegrid/eclipsegeometry.cpp", "src/nrlib/eclipsegrid/eclipsegeometry.hpp", "src/nrlib/eclipsegrid/eclipsegrid.cpp", "src/nrlib/eclipsegrid/eclipsegrid.hpp", "src/nrlib/eclipsegrid/eclipsefault.cpp", "src/nrlib/eclipsegrid/eclipsefaceindexer.cpp", "src/nrlib/eclipsegrid/eclipsetools.cpp"],
     [("cell geometry and point location", "src/nrlib/eclipsegrid/eclipsegeometry.cpp"), ("reading and writing", "src/nrlib/eclipsegrid/eclipsegrid.cpp"), ("faults", "src/nrlib/eclipsegrid/eclipsefault.cpp")],
     "6 (9) sizes x 9 layouts (boxes, sloping, slanted, fanning, warped, rotated, left-handed, map coordinates, steps) x 4 activity patterns, and every activity pattern of 6 (10) small sizes; 27 (125) points in every cell for point location, 48 for points in cells; 3 (7) sizes x 9 layouts x 0-3 parameters x 0-3 faults x 5 splits in files; every truncation of two files; all fault segments in a 2^3 (3^3) box, all pairs of 72 vertical segments.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Grid refinements, transmissibilities, intersection areas, layer surfaces, the enclosing volume and repeat counts in files are not part of the claim.",
     "exhaustive bounded enumeration of inputs on the real code against a reference model", [COMMON],
     observe=["NRLib::EclipseGrid", "NRLib::EclipseGeometry", "NRLib::EclipseFault", "NRLib::FaceIndexer"])

prop("C27", "XML: documents read and print back as the same tree, edits keep it whole",
     "Parse, LoadFile and operator>> give, for every well-formed document of elements, attributes (in either quotes, or none), text, comments, CDATA, declarations and other tags, exactly its tree, in document order, with consistent parent, sibling, child and document links, the five entities and decimal and hexadecimal character references decoded (as UTF-8 when a byte order mark or the declaration says so), "
     "white space in text condensed or kept as SetCondenseWhiteSpace says, line ends LF, CRLF and CR alike in files, and the row and column of every node and attribute (tabs and UTF-8 characters counted right). "
     "Print, SaveFile, TiXmlPrinter and operator<< write text that reads back as the same tree, whatever characters values hold, and a byte order mark is kept. "
     "Through any history of InsertEndChild, LinkEndChild, InsertBeforeChild, InsertAfterChild, ReplaceChild, RemoveChild, Clear, SetValue, setting and removing attributes, copying, assigning and cloning, the tree is the one of a plain model: FirstChild, LastChild, siblings, elements by value or index, IterateChildren, TiXmlHandle, attribute lists, visitors and user data agree with it; a document cannot be inserted, and nothing can be inserted next to a node of another parent. "
     "Query functions and Attribute give the numbers of attributes, and say when one is absent or not a number. "
     "No text, whether well formed or not, makes the reader touch memory it should not, abort or loop; elements that are not closed, end tags that do not match, attributes without a value or given twice, and missing or empty files are reported by Error().",
     ["inputs", "histories"],
     "Every document of the stated fragments, every tree of the stated children, every edit sequence to the stated depth, every string of the stated tokens to the stated length.",
     "The repository has no test of the XML reader at all.",
     ["src/nrlib/tinyxml/tinyxml.cpp", "src/nrlib/tinyxml/tinyxml.h", "src/nrlib/tinyxml/tinyxmlparser.cpp"],
     [("parsing", "src/nrlib/tinyxml/tinyxmlparser.cpp"), ("tree edits, searches and printing", "src/nrlib/tinyxml/tinyxml.cpp")],
     "All sequences of up to 2 (3) of 21 content fragments x 7 prologs x 3 separators x 2 white-space modes, read in up to 5 ways; all sequences of up to 3 of 8 attributes; every character reference up to U+2FFF (and a sweep of the rest); all sequences of up to 3 (4) of 21 children and 225 pairs of attribute values printed 6 ways; every byte; all sequences of 25 edits to depth 4 (5); all strings of up to 4 (5) of 32 tokens after 3 starts, in 3 encodings and 2 modes.",
     "Exhaustive over the stated sets on the real code (AddressSanitizer build). Texts that hold a literal '&#x' are passed through by design and are not claimed to print back, nor are white-space-only texts, adjacent texts, end tags with blanks, or '>' inside attribute values when read by operator>>.",
     "exhaustive bounded enumeration of inputs and operation sequences on the real code against a reference model", [COMMON],
     observe=["TiXmlDocument", "TiXmlElement", "TiXmlPrinter", "TiXmlHandle"])
