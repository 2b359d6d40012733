"""The table of properties; tools/generate.py turns it into properties.jsonl and MANIFEST.json."""

DATA = "sumpf/_data/"
SIGNAL = DATA + "_signals/_signal.py"
SPECTRUM = DATA + "_spectrums/_spectrum.py"
SPECTROGRAM = DATA + "_spectrograms/_spectrogram.py"
SAMPLED = DATA + "_sampled_data.py"

A = "shapes, offsets and bounds symbolic up to 10^6, element values symbolic"
B = "element values symbolic, shapes enumerated by the solver"
FOURIER = B + "; Fourier transforms by their definition"

FILTERS = B + "; the coefficients and the frequency are symbolic, the kinds of terms enumerated by the solver"

PERSISTENCE = "sumpf/_internal/_persistence/"
FILES = B + "; real files, in which unique numbers stand for the symbolic ones"

BOUNDS = "Holds for every value within the bounds in the evidence file; floats are treated as reals; larger shapes, NaN, infinities and rounding are outside."

FILE_BOUNDS = "Holds for every value within the bounds in the evidence file; a number in a file is identified by its digits; NaN, infinities and pickled objects are outside."

TESTS_SAMPLE = "The tests evaluate a handful of hand-picked shapes, offsets and hypothesis samples; they cannot cover every combination of lengths, offsets and channel counts, and errors hide in the combinations."

PROPERTIES = [
    dict(id="S01", title="Arithmetic between two signals is aligned on the time axis",
         statement="Adding, subtracting, multiplying, dividing, raising or reducing one signal by another yields a signal spanning from the earlier start to the later end, in which each sample combines exactly those operand samples that lie at the same time. "
                   "Where only one operand has a sample (or a channel), that sample is kept (for subtraction and division by the operand: negated or inverted), and where none has one the result is zero; a mono operand applies to all channels. "
                   "The operands are never modified.",
         over=["inputs"], quantifier="all channel counts, lengths, offsets and sample values of the two signals",
         why=TESTS_SAMPLE,
         files=[SIGNAL, SAMPLED, "sumpf/_internal/_functions.py"],
         mechanism=[("overlap regions of the operands", SIGNAL), ("zero-filled allocation", "sumpf/_internal/_functions.py")],
         encoding=A, note=BOUNDS),
    dict(id="S02", title="Arithmetic with numbers and arrays acts on every element",
         statement="Combining a signal, spectrum or spectrogram with a number or an array, on either side of the operator, applies the operator to every element with numpy's broadcasting and keeps the time and frequency axes and the labels; so do negation and absolute value. "
                   "Operands of unsuitable types are refused with a TypeError. "
                   "The operands are never modified.",
         over=["inputs"], quantifier="all shapes, offsets, element values and numbers, both operand orders, all operators",
         why=TESTS_SAMPLE,
         files=[SAMPLED, SIGNAL, SPECTRUM, SPECTROGRAM],
         mechanism=[("operator methods and their reflected forms", SAMPLED)],
         encoding=A, note=BOUNDS),
    dict(id="S03", title="Slicing keeps every sample at its place on the axes",
         statement="Slicing or indexing a signal, spectrum or spectrogram returns exactly the samples that the same slice selects from a Python sequence, with each channel keeping its label. "
                   "The offset of the result is such that every selected sample keeps its position in time, for bounds that are negative, absent or out of range, too. "
                   "Fractional bounds select the corresponding portion of the axis.",
         over=["inputs"], quantifier="all shapes and offsets, and all integer bounds; channel indices and steps from lists",
         why="The tests use a few fixed slices; positions beyond the ends and negative positions are where the offset goes wrong, and these are unbounded families.",
         files=[SIGNAL, SPECTRUM, SPECTROGRAM, "sumpf/_internal/_functions.py"],
         mechanism=[("slice normalisation", "sumpf/_internal/_functions.py"), ("__getitem__", SIGNAL)],
         encoding=A, note=BOUNDS),
    dict(id="S04", title="Shifting, padding and reversing move samples exactly as specified",
         statement="Shifting a signal or spectrogram in the offset mode moves every sample by the given number of positions; the cropping, padding and cycling modes keep, extend or rotate the samples with zeros (or the given value) appearing where nothing was. "
                   "Padding to a length keeps the first samples and fills the rest with the given value; reversing a signal reverses the order of its samples and mirrors their times. "
                   "The source data is never modified.",
         over=["inputs"], quantifier="all shapes, offsets, shifts and target lengths, all modes",
         why=TESTS_SAMPLE,
         files=[SIGNAL, SPECTROGRAM, SPECTRUM, "sumpf/_internal/_enums.py"],
         mechanism=[("shift modes", SIGNAL), ("pad", SIGNAL)],
         encoding=A, note=BOUNDS),
    dict(id="S05", title="Arithmetic between spectrums is aligned on the frequency axis",
         statement="Combining two spectrums of the same length combines the bins at equal frequencies; a mono operand applies to all channels, and channels that only one operand has are kept (negated or inverted for the second operand of a subtraction or division). "
                   "A spectrum cannot be combined with a signal or another foreign data type: this is refused with an error rather than producing data.",
         over=["inputs"], quantifier="all channel counts, lengths and bin values of the two spectrums, all operators",
         why=TESTS_SAMPLE,
         files=[SPECTRUM, SAMPLED],
         mechanism=[("algebra of spectrums", SPECTRUM)],
         encoding=A, note=BOUNDS),
    dict(id="S06", title="Arithmetic between spectrograms is aligned in time and frequency",
         statement="Combining two spectrograms yields a spectrogram that spans both operands in time and frequency and in which each value combines exactly the operands' values at the same time and frequency. "
                   "Values that exist in one operand only are kept (or negated or inverted for the second operand of a subtraction or division), and the remainder is zero.",
         over=["inputs"], quantifier="all channel counts, lengths, frequency counts, offsets and values, all operators",
         why=TESTS_SAMPLE,
         files=[SPECTROGRAM, SAMPLED],
         mechanism=[("algebra of spectrograms", SPECTROGRAM)],
         encoding=A, note=BOUNDS),
    dict(id="S07", title="Signals and spectrums combine with spectrograms along their shared axis",
         statement="Combining a spectrogram with a signal applies each time sample to all frequencies at that time, and combining it with a spectrum applies each bin to all times at that frequency, in either operand order. "
                   "Positions that only one operand covers keep that operand's value under the same rules as for operands of equal types, and a spectrum with another number of frequencies is refused.",
         over=["inputs"], quantifier="all channel counts, lengths, frequency counts, offsets and values, both operand orders, all operators",
         why=TESTS_SAMPLE,
         files=[SPECTROGRAM, SIGNAL, SPECTRUM],
         mechanism=[("mixed algebra", SPECTROGRAM)],
         encoding=A, note=BOUNDS),
    dict(id="S08", title="The Fourier transform is the discrete transform and is inverted exactly",
         statement="The spectrum of a signal has at each bin the value of the discrete Fourier transform of its samples at their times, so that the signal's offset appears as a linear phase; its resolution is the sampling rate divided by the length. "
                   "The inverse transform of a spectrum is the real signal with an even number of samples whose transform it is, so that a signal of even length comes back (rotated by its offset) and so does a spectrum. "
                   "Labels are kept and the source is never modified.",
         over=["inputs"], quantifier="all sample values, lengths, channel counts and offsets within the bounds",
         why="Tests transform a few noise and sweep signals; offsets, odd and tiny lengths are the cases that differ.",
         files=[SIGNAL, SPECTRUM], mechanism=[("fourier_transform", SIGNAL), ("inverse_fourier_transform", SPECTRUM)], encoding=FOURIER, note=BOUNDS),
    dict(id="S09", title="Convolution sums the products of all shifted samples",
         statement="Convolving two signals (or a signal with an array) returns for each channel the sum of products at each time, in every mode: full, cropped and the modes that go through spectrums; the offset is the sum of the operands' offsets, adjusted as the mode crops. "
                   "A mono operand applies to all channels and each result channel has a label. "
                   "The operands are never modified.",
         over=["inputs"], quantifier="all sample values, lengths, offsets, channel counts and modes within the bounds",
         why="The tests convolve few pairs; length and offset combinations decide whether the samples end up at the right time.",
         files=[SIGNAL, "sumpf/_internal/_convolution.py"], mechanism=[("convolve", "sumpf/_internal/_convolution.py")], encoding=FOURIER, note=BOUNDS),
    dict(id="S10", title="Correlation sums the products of equally shifted samples",
         statement="Correlating two signals (or a signal with an array) returns for each channel the sum of products at each lag, in every mode, with an offset such that the sample at a time is the one at this lag. "
                   "A mono operand applies to all channels and each result channel has a label. "
                   "The operands are never modified.",
         over=["inputs"], quantifier="all sample values, lengths, offsets, channel counts and modes within the bounds",
         why="The tests correlate few pairs; which lag belongs to which index depends on lengths, offsets and mode together.",
         files=[SIGNAL, "sumpf/_internal/_convolution.py"], mechanism=[("correlate", "sumpf/_internal/_convolution.py")], encoding=FOURIER, note=BOUNDS),
    dict(id="S11", title="The block-wise Fourier transform adds up all windowed blocks of a signal",
         statement="The Fourier transform of a signal in blocks is the sum of the transforms of all windowed blocks at their places in time (including the offset), scaled such that the overlapping windows add up to one on average; with padding, blocks that only partly cover the signal are included, without it they are not. "
                   "The resolution is that of a block, and windows may be given as lists, arrays with one window per channel or signals, with the overlap in samples (negative: relative to the window's length) or as a fraction. "
                   "The signal is not modified.",
         over=["inputs"], quantifier="all sample values, window values, lengths and overlaps within the bounds",
         why="A test compares a few window lengths; blocks at the start and the end of the signal are the ones that are missed.",
         files=[SIGNAL, "sumpf/_internal/_functions.py"], mechanism=[("fourier_transform with window and overlap", SIGNAL)], encoding=FOURIER, note=BOUNDS),
    dict(id="S12", title="Statistical values follow their definitions per channel or over all",
         statement="Mean, variance, standard deviation, level, skewness and kurtosis of a signal are those of the samples of each channel or, as a single value, those of all samples. "
                   "The level of a spectrum is the level of the signal that it is the transform of.",
         over=["inputs"], quantifier="all sample values, lengths and channel counts within the bounds",
         why="The tests evaluate fixed signals, for which different definitions coincide.",
         files=[SIGNAL, SPECTRUM], mechanism=[("level, mean, variance, ...", SIGNAL), ("level", SPECTRUM)], encoding=B, note=BOUNDS),
    dict(id="S13", title="An energy decay curve integrates the squared samples backwards",
         statement="Each sample of an energy decay curve is the sum of the squared samples of the impulse response from that sample on, with the same offset, sampling rate and labels, for every channel independently. "
                   "The reverberation time and the decay model of each channel are those of the least squares line through the curve's level in the given range. "
                   "The impulse response is not modified.",
         over=["inputs"], quantifier="all sample values, lengths and channel counts within the bounds",
         why="The test uses one decaying response; length-one and multi-channel responses and cropping matter.",
         files=[DATA + "_signals/_energy_decay.py"], mechanism=[("EnergyDecayCurve", DATA + "_signals/_energy_decay.py")], encoding=B, note=BOUNDS),
    dict(id="S14", title="Data sets are equal exactly if type, axes, values and labels are",
         statement="Two data sets are equal if and only if they have the same type, axes, labels and values; inequality is the negation of it. "
                   "Equal data sets have equal hashes, and comparing with anything else is False rather than an error.",
         over=["inputs"], quantifier="all pairs of data sets with sizes within the bounds",
         why="Tests compare data sets that differ in one chosen attribute; a comparison that broadcasts or skips an attribute passes them.",
         files=[SIGNAL, SPECTRUM, SPECTROGRAM], mechanism=[("__eq__ and __hash__", SIGNAL)], encoding=B, note=BOUNDS),
    dict(id="S15", title="The short time Fourier transform has the right times and is inverted",
         statement="The spectrogram of a signal has at each time and frequency the transform of the windowed section around that time (outside of the signal there are zeros, if padded), and the offset of the signal is represented by the spectrogram's offset and, for its remainder, by a phase shift. "
                   "The inverse transform with the same window and overlap yields the signal's samples at their times again, if the offset is a multiple of the hop size. "
                   "Labels are kept and the signal is not modified.",
         over=["inputs"], quantifier="all sample values, lengths, offsets, window and overlap sizes within the bounds",
         why="The tests compare one or two parameter sets; the offset's remainder and odd lengths go wrong only for particular combinations.",
         files=[SIGNAL, SPECTROGRAM], mechanism=[("short_time_fourier_transform", SIGNAL), ("inverse_short_time_fourier_transform", SPECTROGRAM)], encoding=FOURIER, note=BOUNDS),
    dict(id="S16", title="Axes, parts and labels describe the stored data",
         statement="The time and frequency samples, durations, lengths and maximum frequencies follow from size, sampling rate, resolution and offset, and magnitude, phase, real and imaginary parts and the conjugate are those of each value. "
                   "There is exactly one label per channel: missing ones are empty and superfluous ones dropped.",
         over=["inputs"], quantifier="all sizes and offsets up to 10^6, all values, label lists of any length",
         why=TESTS_SAMPLE,
         files=[SIGNAL, SPECTRUM, SPECTROGRAM, SAMPLED], mechanism=[("time_samples", SIGNAL), ("frequency_samples", SPECTRUM)], encoding=A, note=BOUNDS),
    dict(id="S17", title="The level over time is the level of each interval around a sample",
         statement="The level over time has for each sample of the signal the root mean square of the samples in the integration interval around it, with the interval's edges weighted by the fraction of a sample that they cover. "
                   "If padded, samples outside of the signal count as zeros, otherwise the mean is that of the covered samples only. "
                   "Sampling rate, offset and labels are kept and the signal is not modified.",
         over=["inputs"], quantifier="all sample values, lengths, offsets and integration times within the bounds",
         why="The test uses long stationary signals, for which the ends of the signal and of the interval do not matter.",
         files=[SIGNAL], mechanism=[("level over time", SIGNAL)], encoding=B, note=BOUNDS),
    dict(id="F01", title="Filter arithmetic is the arithmetic of the transfer functions",
         statement="Adding, subtracting, multiplying, dividing, negating, inverting or taking the absolute of filters (or filters and numbers) yields a filter whose value at every frequency is that operation applied to the operands' values at this frequency, "
                   "for all kinds of transfer functions and nested expressions. "
                   "A result with one operand keeps the labels, one with two filters is labelled with the operation's name.",
         over=["inputs"], quantifier="all coefficients, frequencies and expressions of up to three operators over the term classes",
         why="The operators simplify expressions (flattening, cancelling, folding constants) depending on both operands' types; the tests meet few of the combinations.",
         files=[DATA + "_filters/_base/_terms", DATA + "_filters/_base/_filter.py"], mechanism=[("factory methods of the terms", DATA + "_filters/_base/_terms")], encoding=FILTERS, note=BOUNDS),
    dict(id="F02", title="Filters are sampled and applied channel by channel",
         statement="Calling a filter with frequencies, converting it to a spectrum or multiplying it with a signal, a spectrum or a spectrogram uses for each channel its own transfer function at each frequency. "
                   "A filter or data set with one channel applies to all channels of the other one; other differing numbers of channels of two filters are refused. "
                   "Frequencies, operands and labels are not altered.",
         over=["inputs"], quantifier="all coefficients, frequencies, resolutions and values with sizes within the bounds",
         why="Channels influence each other through shared state (such as the Laplace variable) only for particular orders of terms, which tests with one channel do not show.",
         files=[DATA + "_filters/_base/_filter.py"], mechanism=[("Filter.__call__, spectrum, __mul__", DATA + "_filters/_base/_filter.py")], encoding=FILTERS, note=BOUNDS),
    dict(id="F03", title="The lowpass-to-highpass transform replaces s by 1/s and blocks 0 Hz",
         statement="A transfer function with the lowpass-to-highpass transform has at each frequency the value of the untransformed one at 1/s, and zero at 0 Hz. "
                   "Transforming twice is not transforming, also when it is spread over nested terms. "
                   "Combining a transformed with an untransformed transfer function alters neither of them at any frequency.",
         over=["inputs"], quantifier="all coefficients and frequencies (including 0 Hz) and nested terms within the bounds",
         why="The flag is carried through the simplification of expressions; only certain combinations of flags, operators and 0 Hz samples lose it.",
         files=[DATA + "_filters/_base/_terms", DATA + "_filters/_base/_s.py"], mechanism=[("transform flags of the terms", DATA + "_filters/_base/_terms")], encoding=FILTERS, note=BOUNDS),
    dict(id="F05", title="Equal filters have equal transfer functions and labels",
         statement="Two filters that compare as equal have the same transfer function in each channel at every frequency, and the same labels; filters that are built of the same terms with equal parameters and labels do compare as equal. "
                   "Equality is symmetric, inequality is its negation, a zero constant equals terms that are zero at every frequency, and comparing with any other object yields False instead of raising an error.",
         over=["inputs"], quantifier="all pairs of kinds of terms, parameters, supporting points, labels and channel counts within the bounds",
         why="Whether two different parameters are mixed up depends on their values; the tests compare a few filters.",
         files=[DATA + "_filters/_base/_terms", DATA + "_filters/_base/_filter.py"],
         mechanism=[("comparison operators", DATA + "_filters/_base/_filter.py"), ("comparison of the terms", DATA + "_filters/_base/_terms")], encoding=FILTERS, note=BOUNDS),
    dict(id="F06", title="Bands filters pass through their supporting points",
         statement="A bands filter has at each supporting point exactly that point's value and between two of them the value on the line that the interpolation function prescribes on its linear or logarithmic axes; beyond the outermost points it follows the extrapolation function. "
                   "Arithmetic with numbers and with other bands acts on the values and keeps the interpolation; the decibel conversions are each other's inverse; a dictionary of frequencies and values is sorted by frequency.",
         over=["inputs"], quantifier="all positive increasing frequencies, values, interpolation functions and sampled frequencies within the bounds",
         why="A mistake between the points or in one pair of interpolation and extrapolation functions shows at few frequencies only, which the tests seldom hit.",
         files=[DATA + "_filters/_base/_terms", DATA + "_filters/_bands.py", "sumpf/_internal/_interpolation.py"],
         mechanism=[("interpolation functions", "sumpf/_internal/_interpolation.py"), ("Bands term", DATA + "_filters/_base/_terms")], encoding=FILTERS,
         note="Holds for every value within the bounds in the evidence file; floats are treated as reals; the logarithm is an increasing function and the power its inverse, nothing else is assumed of them."),
    dict(id="F04", title="Filters are the same after saving and loading them as text or JSON",
         statement="A filter (or bands) that has been written to a JSON file or as its representation and loaded again equals the original one: each channel has the same transfer function with the same coefficients, nested terms and highpass transforms, and the same label. "
                   "This holds for real, complex, integer and numpy coefficients, for all predefined filters and for the results of operators, and for any text in the labels.",
         over=["inputs"], quantifier="all coefficients and kinds of terms within the bounds",
         why="Whether a coefficient survives depends on its type, sign and format and on the term in which it occurs; the tests save a few filters.",
         files=[PERSISTENCE + "_filter_readers.py", PERSISTENCE + "_filter_writers.py", DATA + "_filters/_base/_terms", DATA + "_filters/_base/_filter.py"],
         mechanism=[("term_from_dict, ReprReader", PERSISTENCE + "_filter_readers.py"), ("as_dict and __repr__ of the terms", DATA + "_filters/_base/_terms")], encoding=FILES, note=FILE_BOUNDS),
    dict(id="P01", title="Saving and loading a data set keeps its samples, axes and labels",
         statement="A signal, spectrum or spectrogram that has been saved to a JSON or npz file and loaded again equals the original one, and can be saved again in any other format. "
                   "CSV and npy files keep all samples exactly and the axis up to rounding, CSV files also the labels; rows of a CSV file may be in any order and with or without a header. "
                   "This holds for every file name and format that the classes offer, and saving does not alter the data set.",
         over=["inputs"], quantifier="all samples, sampling rates, resolutions and offsets, with shapes, number formats and labels within the bounds",
         why="Whether a number survives depends on its format, sign and position in the file, and whether an axis does on rounding; the tests save a few data sets.",
         files=[PERSISTENCE + f for f in ("_signal_readers.py", "_signal_writers.py", "_spectrum_readers.py", "_spectrum_writers.py", "_spectrogram_readers.py", "_spectrogram_writers.py", "_functions.py", "_auto_writer.py")],
         mechanism=[("readers of signals", PERSISTENCE + "_signal_readers.py"), ("choice of the reader and the writer", PERSISTENCE + "_functions.py")], encoding=FILES, note=FILE_BOUNDS),
    dict(id="P02", title="Audio files contain the signal's samples rounded to their resolution",
         statement="A signal with samples between -1 and 1 that has been saved to a WAV or AIFF file with 8, 16 or 32 bit integers and loaded again has the same number of channels and samples, and each sample deviates by no more than half a step of the format (one step at full scale). "
                   "The sampling rate is rounded to a positive integer, and the saved signal is not altered. "
                   "This is what the standard library's modules for audio files are used for, when no other library is installed.",
         over=["inputs"], quantifier="all sample values; lengths around the multiples of the processed chunks, 1 to 3 channels",
         why="The samples are processed in chunks and interleaved by channel; the tests save one short signal per format.",
         files=[PERSISTENCE + "_signal_readers.py", PERSISTENCE + "_signal_writers.py"],
         mechanism=[("StandardLibraryReader", PERSISTENCE + "_signal_readers.py"), ("StandardLibraryWriter", PERSISTENCE + "_signal_writers.py")], encoding=FILES, note=FILE_BOUNDS + " The C library behind the soundfile package is outside."),
    dict(id="P03", title="Tables of bands keep every channel's frequencies and values",
         statement="A bands filter that has been saved in one of the table formats (tabulators, pipes, gnuplot, CSV, npy, npz) and loaded again has in each channel the same supporting points with the same real or complex values, also if the channels have different frequencies or none at all. "
                   "CSV and npz files keep the labels, npz files also the interpolations. "
                   "Tables of other programs are read with their separators, comments, number formats and missing values.",
         over=["inputs"], quantifier="all values, with frequencies, number formats and labels within the bounds",
         why="The writers and the reader's regular expressions treat signs, exponents, missing values and separators specially; the tests save a few tables.",
         files=[PERSISTENCE + "_filter_readers.py", PERSISTENCE + "_filter_writers.py", DATA + "_filters/_bands.py"],
         mechanism=[("TableReader, CsvReader, NumpyReader", PERSISTENCE + "_filter_readers.py"), ("TableWriter", PERSISTENCE + "_filter_writers.py")], encoding=FILES, note=FILE_BOUNDS),
    dict(id="B01", title="Merging orders all channels by the mode without changing or moving them",
         statement="Merging data sets yields one whose channels are all channels of the inputs with their labels: ordered by data set or by channel number, depending on the mode. "
                   "Each sample, bin or transfer function stays at its time and frequency, and gaps are filled with zeros. "
                   "After data sets have been added, replaced or removed or after the mode has changed, the output is that of the current inputs; a single data set is passed on, and none is refused.",
         over=["inputs", "histories"], quantifier="all lengths, offsets and values of 2 to 4 data sets of 0 to 3 channels; the listed histories",
         why="The channels' places depend on the channel counts of all data sets and the output on the order of the preceding calls; the tests merge a few combinations.",
         files=["sumpf/_blocks/_merge.py"], mechanism=[("Merge.output", "sumpf/_blocks/_merge.py")], encoding=A, note=BOUNDS),
    dict(id="B02", title="Concatenating adds up data sets that follow each other",
         statement="In a concatenation each data set starts at the end of the previous one plus its own offset. "
                   "Every sample of the result is the sum of all samples at its time, channel and frequency, and zero in gaps and missing channels; the result starts with the first and ends with the last sample. "
                   "After data sets have been added, replaced or removed, the output is that of the current inputs; a single data set is passed on, and none is refused.",
         over=["inputs", "histories"], quantifier="all lengths, offsets and values of 2 to 3 data sets of 1 to 3 channels; the listed histories",
         why="Data sets may overlap, contain each other or precede the first one, which the code treats in separate branches; the tests concatenate a few.",
         files=["sumpf/_blocks/_concatenate.py"], mechanism=[("Concatenate.output", "sumpf/_blocks/_concatenate.py")], encoding=A, note=BOUNDS),
    dict(id="B03", title="Blocks in a processing chain deliver the results for their current inputs",
         statement="Merge and Concatenate blocks whose inputs are connected to the outputs of other objects deliver, whenever their result is requested, the one that belongs to the current inputs and mode in the order in which the inputs were connected. "
                   "This is so after a source has got another data set, has been disconnected or connected again, or after the mode or its source has changed, and also for data sets that were added, replaced or removed by hand.",
         over=["inputs", "histories"], quantifier="all values of the data sets and the listed histories of up to 8 changes",
         why="The results are cached lazily, so that a stale one shows only after a certain order of changes and requests; the tests use few.",
         files=["sumpf/_blocks/_merge.py", "sumpf/_blocks/_concatenate.py"],
         mechanism=[("inputs and output of Merge", "sumpf/_blocks/_merge.py"), ("inputs and output of Concatenate", "sumpf/_blocks/_concatenate.py")], encoding=B, note=BOUNDS + " The connectors package is executed as it is."),
    dict(id="B04", title="The JACK interface plays and records each sample once and keeps its connections",
         statement="After it has been started, the JACK interface plays every sample of the input signal once, in order and without gaps, and silence afterwards, and the recorded signal has in each channel the samples that arrived at the respective input port at the same time; this holds for all lengths and block sizes and for repeated recordings. "
                   "The output waits until the recording is complete and has the signal's length and offset, the server's sampling rate and the ports' names as labels. The output ports have unique names after the signal's labels. "
                   "Connections to other programs' ports persist while the client is inactive or the input signal changes and vanish with removed ports; xruns are reported with their number, the corrupted samples and the delay in seconds.",
         over=["inputs", "schedules", "histories"], quantifier="all samples, lengths, offsets and block sizes up to 10^6 with up to 3 blocks per recording; the listed histories of connections",
         why="The server determines the size and the number of blocks; the tests run with a single block size and check the recording, but not what has been played.",
         files=["sumpf/_blocks/_jack.py"], mechanism=[("on_process", "sumpf/_blocks/_jack.py"), ("connections and ports", "sumpf/_blocks/_jack.py")], encoding=A, note=BOUNDS + " The JACK server and its client library are replaced by a stand-in."),
    dict(id="F07", title="The predefined filters have the transfer functions of their definitions",
         statement="Butterworth, Bessel and Chebyshev filters of each order have the transfer function that their definition prescribes for the cutoff frequency and ripple, as a lowpass and as the corresponding highpass. "
                   "The weighting filters have the poles and zeros of their standards and neither gain nor phase at 1 kHz; a delay filter delays, also in products; the derivative filter multiplies with s and its inverse integrates.",
         over=["inputs"], quantifier="all frequencies and cutoff frequencies within the bounds, orders up to 7 (10)",
         why="The tests compare a few orders at few frequencies, while each order has its own coefficients and the highpass transform changes all of them.",
         files=[DATA + "_filters/_butterworth.py", DATA + "_filters/_bessel.py", DATA + "_filters/_chebyshev.py", DATA + "_filters/_weighting.py", DATA + "_filters/_delay.py", DATA + "_filters/_derivative.py"],
         mechanism=[("coefficients", DATA + "_filters/_butterworth.py"), ("coefficients", DATA + "_filters/_chebyshev.py"), ("coefficients", DATA + "_filters/_weighting.py")], encoding=FILTERS, note=BOUNDS),
    dict(id="G03", title="Sweeps have the phase that belongs to their instantaneous frequency",
         statement="A linear or exponential sweep passes through the start and stop frequency at the given interval's bounds and each sample is the sine of the phase that accumulates along this frequency; the inverse sweep is the same backwards, with the envelope that equalizes the spectrum and an offset that puts the impulse of their convolution at time zero. "
                   "This is the same for short sweeps and for long ones, which are computed in another way. "
                   "The instantaneous frequency is reported accordingly.",
         over=["inputs"], quantifier="all frequencies, phases, sampling rates and lengths up to 10^6, several intervals",
         why="Intervals inside and outside the signal, rising and falling frequencies and the separate code for long sweeps make up more combinations than the tests compare.",
         files=[DATA + "_signals/_sweep.py", "sumpf/_internal/_indexing.py"], mechanism=[("sweep classes", DATA + "_signals/_sweep.py"), ("index", "sumpf/_internal/_indexing.py")], encoding=A, note=BOUNDS),
    dict(id="G01", title="Fade signals rise and fall with the window's flanks at the given places",
         statement="A fade signal is the given window function's rising half where the fade in happens and its falling half where the fade out happens, one between the fade in and the fade out and the respective remaining value before and after, for every combination of starts and lengths inside or across the bounds of the signal. "
                   "Starts and lengths can be given in samples, as factors of the length or from the end; the rising edge may also follow the falling edge.",
         over=["inputs"], quantifier="all lengths up to 10^6, all starts and lengths of the fades, an arbitrary window function",
         why="Fades can be cropped by the signal's bounds, empty, or swapped, each of which has its own branch; the tests compare some of them.",
         files=[DATA + "_signals/_fade.py", "sumpf/_internal/_indexing.py"], mechanism=[("Fade", DATA + "_signals/_fade.py")], encoding=A, note=BOUNDS),
    dict(id="G02", title="Window signals consist of the window function around a plateau",
         statement="Each window signal contains the samples of the window function that it is named after, computed for the signal's length when it is symmetric and for one more sample, which is left out, when it is not. "
                   "With a plateau, the function's two halves are at the start and the end and everything between them is one. "
                   "The plateau can be given in samples, from the end, or be omitted; the functions' parameters, the coefficients of the Nuttall and flat top windows and the signal's properties are those that the documentation promises.",
         over=["inputs"], quantifier="all lengths up to 10^6, plateaus, parameters and sampling rates of all 16 classes and of an arbitrary window function",
         why="Odd and even lengths, plateaus and symmetry combine to different numbers of samples for the flanks, and the tests use few coefficients of the 27 sums of cosines.",
         files=[DATA + "_signals/_windows.py", DATA + "_signals/_windows_scipy.py"], mechanism=[("Window.__init__", DATA + "_signals/_windows.py"), ("window classes", DATA + "_signals/_windows_scipy.py")], encoding=A,
         note=BOUNDS + " The window functions of numpy and scipy other than sums of cosines, the exponential and the Gaussian one are uninterpreted."),
    dict(id="G04", title="Harmonic impulse responses are cut out where the sweep's harmonics are",
         statement="In an impulse response that was measured with an exponential sweep, the second and higher harmonics are ahead of the linear part by the time in which the sweep's frequency rises by the respective factor. "
                   "The impulse response of a harmonic starts there, at the preceding sample with the remaining fraction of a sample compensated, and ends at the preceding harmonic, or at the end of the signal if the linear part is the first sample; the first harmonic is everything from time zero. "
                   "It is padded with zeros or cropped to a given length, in all channels; the given impulse response is not altered, and the labels tell the harmonic.",
         over=["inputs"], quantifier="all samples of impulse responses within the bounds, places of the linear part, desired lengths and the first five harmonics of three sweeps and their inverses",
         why="The cut positions are rounded, may lie before the signal's start or wrap around, and depend on even or odd lengths; the tests use one sweep.",
         files=[DATA + "_signals/_sweep.py"], mechanism=[("ExponentialSweep.harmonic_impulse_response", DATA + "_signals/_sweep.py")], encoding=FOURIER, note=BOUNDS),
    dict(id="G05", title="The figures of merit of windows follow their definitions",
         statement="For overlapping repetitions of a window, the scaling factor is the window's length divided by the sum of all samples of the repetitions within that length, and the amplitude and power flatness are the ratios of the minimum and the maximum of the sum of the repetitions or of their squares. "
                   "The overlap correlation relates the correlation of neighbouring repetitions to the window's energy, the scalloping loss is the relative magnitude half a frequency bin away, the bandwidth is where the interpolated magnitude falls below -3 dB, and the recommended overlap maximizes the difference of amplitude flatness and overlap correlation. "
                   "Overlaps can be given in samples, from the end, as factors or as arrays; the limiting cases have the documented values.",
         over=["inputs"], quantifier="all windows of up to 5 samples, all overlaps and their notations",
         why="The number of overlapping repetitions and the cropping at both ends vary with the overlap; the tests use smooth symmetric windows.",
         files=[DATA + "_signals/_windows.py", "sumpf/_internal/_indexing.py"], mechanism=[("Window.scaling_factor etc.", DATA + "_signals/_windows.py")], encoding=FOURIER, note=BOUNDS),
    dict(id="G06", title="Deterministic test signals have the documented samples",
         statement="Sine and square waves follow the sine of their phase at each sample and report their number of periods; constant signals, spectrums and spectrograms have the given value everywhere. "
                   "Rudin-Shapiro noise spectrums have the signs of the Rudin-Shapiro sequence between the rounded start and stop frequency and are zero elsewhere. "
                   "A maximum length sequence has the number of bits and the length that follow from its parameters, only samples of plus and minus one, repeats after its period, never starts with an empty register and is determined by its seed.",
         over=["inputs"], quantifier="all parameters; lengths up to 10^6, Rudin-Shapiro sequences of up to 33 bins, shift registers of up to 6 bits in every state",
         why="Errors for certain lengths, frequency ranges or unlucky random states do not appear in the few sampled cases; the test of the sequence's signs asserts a bound method.",
         files=[DATA + "_signals/_waves.py", DATA + "_signals/_constant.py", DATA + "_signals/_mls.py", DATA + "_spectrums/_rudinshapiro.py", DATA + "_spectrums/_constant.py", DATA + "_spectrograms/_constant.py"],
         mechanism=[("SineWave, SquareWave", DATA + "_signals/_waves.py"), ("MaximumLengthSequence", DATA + "_signals/_mls.py"), ("RudinShapiroNoiseSpectrum", DATA + "_spectrums/_rudinshapiro.py")], encoding=A,
         note=BOUNDS + " scipy's max_len_seq and numpy's random generators are uninterpreted."),
    dict(id="G07", title="Noise signals are drawn with their own parameters and seeds",
         statement="Each of the noise signals consists of the samples that numpy's random generator draws from the distribution that the class is named after, with exactly the given parameters, number of samples and seed. "
                   "So signals with the same seed and parameters are the same. The default parameters, the seed, the axis and the label are reported as documented.",
         over=["inputs"], quantifier="all parameters and seeds, lengths up to 10^6",
         why="Exchanged or dropped parameters have no effect for symmetric choices, and a mishandled seed only for special values such as zero.",
         files=[DATA + "_signals/_noise.py"], mechanism=[("noise classes", DATA + "_signals/_noise.py")], encoding=A, note=BOUNDS + " The distributions of numpy's generators are uninterpreted functions of the parameters, the seed and the number of draws."),
]

NOTES = "See DESIGN.md. All checks run the package's own source symbolically (engine/), regenerated from /repo on each run, and replay counterexamples on the real package."
