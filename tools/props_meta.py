"""Single source of properties.jsonl and MANIFEST.json; run tools/gen.py after editing."""

NUM = ('Computed values may differ from the exact ones by rounding only: about 1e-9 relative to the range in f64 and 1e-3 in f32 '
       'unless a tighter figure is given.')

P = {}


def p(pid, title, statement, text, why, files, mech, note, over=('inputs',)):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note)


p('P01', 'Float colours quantise to the nearest 8/16-bit level, saturating',
  'Converting any floating-point RGB colour to 8 or 16 bits clamps each channel to 0..1 and gives the nearest of the 256 or 65536 levels (within 0.51 of a level; '
  'ties may go either way); channels at or below 0 and NaN give 0 and channels at or above 1, including infinity, give the highest level.',
  'every f32 and f64 bit pattern in each of the three channels (the nearest-level part: every value of magnitude up to 1e30)',
  'The existing tests convert no more than a few hex colours; a wrong rounding, scale or clamp at one value, NaN or infinity escapes them.',
  ['src/rgb.rs'], [('From<RGBf32> for RGBu8 and the other three float-to-integer conversions', 'src/rgb.rs')],
  'Bit-precise IEEE-754 queries for the special values (all bit patterns); real arithmetic with rounding bounds for the nearest level, |x| <= 1e30. Ties (distance in 0.5..0.51) are left open.')
p('P02', '8/16-bit levels survive a round trip through float',
  'Converting any 8-bit or 16-bit RGB colour to f32 or f64 gives each level divided by the highest level (within 1e-6), and converting that back gives exactly the same levels.',
  'every 8-bit and every 16-bit level in every channel, through f32 and f64',
  'A test samples a few of the 65536 levels; the identity has to hold at every level, and an off-by-one scale fails only at some of them.',
  ['src/rgb.rs'], [('From<RGBu8> for RGBf32 and the other integer-to-float conversions', 'src/rgb.rs')], 'All levels, symbolically, per channel.')
p('P03', 'Colour triples behave as component-wise arithmetic',
  'For RGB and XYZ colours, + - * / between colours and with a scalar on either side, negation, absolute value, equality, zero and one, construction and indexing act on each component independently exactly as the IEEE operation on that component does. '
  'Sums over iterators, power, linear interpolation, clamp, largest component and normalisation give the component-wise mathematical value. The least and greatest colours and the short constructors have the documented components.',
  'every f32 and f64 bit pattern for the exact operators; components up to 1000 in magnitude and 0 to 4 colours for sums and helpers (powers: bases 0.001..10, exponents 0.1..3)',
  'A swapped component or operator, an assignment form differing from the plain form, or a wrong branch in clamp shows only for particular inputs; the tests touch almost none of these operators.',
  ['src/rgb.rs', 'src/xyz.rs', 'src/math.rs'], [('operator implementations of RGB<T> and XYZ<T>', 'src/rgb.rs, src/xyz.rs'), ('hmax, normalize, clamp, lerp', 'src/math.rs, src/rgb.rs')],
  'Exact operators bit-precisely in IEEE-754 over all bit patterns; helpers in real arithmetic over stated ranges; sums of 0, 1, 4 colours (thorough: up to 16).')
p('P04', '3x3 matrices obey matrix algebra',
  'Matrix products, matrix times colour, transpose, determinant, scalar operations, negation, identity, construction and element assignment give the values of row-major linear algebra. Rounding is the only permitted difference (matrix products within 1e-8 in f64 and 0.1 in f32).',
  'every pair of matrices and vector with entries up to 100 in magnitude, and scalars of magnitude 0.01..100, in f32 and f64',
  'The tests check one or two fixed products; a wrong index or sign in one of the 9 (or 27) terms survives them for matrices with zeros or symmetry.',
  ['src/math.rs'], [('Matrix33 operators', 'src/math.rs')], 'Entries bounded by 100 in magnitude; exact polynomial identities with rounding bounds.')
p('P05', 'Matrix inverse really inverts, and singular matrices are refused',
  'Whenever a 3x3 matrix is well conditioned, both inversion methods return a matrix which multiplied on either side gives the identity, whatever the signs, zero entries and pivot order. A matrix with a zero row or column is reported as not invertible.',
  'entries up to 4 in magnitude with |determinant| >= 1/8 in f64 (2 and 1 in f32) for the direct method; for elimination, every row permutation of diagonally dominant matrices and the family whose pivot vanishes exactly during elimination',
  'Tests invert one or two fixed matrices; special-case paths (affine matrices, pivoting) are taken only for particular zero patterns and signs.',
  ['src/math.rs'], [('Matrix33::inverse', 'src/math.rs'), ('Matrix33::gj_inverse', 'src/math.rs')],
  'Elimination is decided on diagonally dominant matrices (diagonal 1..4, rest up to 0.3) in each of 6 row orders with mixed signs plus two exact-cancellation families, not on all invertible matrices; singular matrices only with a zero row/column.')
p('P06', 'Chromatic adaptation maps the source white to the destination white',
  'For Bradford, von Kries and CAT02, the adaptation matrix between any two realistic whites equals the published cone-space scaling, so it maps the source white exactly onto the destination white, and it is the identity for equal whites. The forms taking XYZ and taking chromaticities agree with this in both precisions.',
  'whites with X 70..130, Y 90..110, Z 40..140, or chromaticities x 0.28..0.36, y 0.28..0.38 with luminance 0.5..2, in f32 and f64',
  'Tests check at most one pair of standard illuminants; an error in one coefficient or in the order of the product can be invisible for one pair and wrong for others.',
  ['src/chromatic_adaptation.rs'], [('bradford, von_kries, cat02 and their _xyy forms', 'src/chromatic_adaptation.rs')],
  'Chromaticity forms decided with both whites at Y=1 (all x,y), with equal y and differing x, and with differing Y; f64 tolerance 1e-9 (von Kries 1e-3: the published inverse is rounded).')
p('P07', 'A colour space built from primaries honours its primaries and white',
  'A colour space constructed from three primary chromaticities and a white maps equal signals to the white with Y=1, maps each single signal to a colour of that primary\'s chromaticity, whatever luminances the four were given with, and its two matrices are inverse to each other in this sense. The stored chromaticities are those given.',
  'chromaticities in a neighbourhood (0.002..0.04) of the sRGB, BT.2020 and P3 primaries and whites, jointly or one at a time; luminances 0.25..4 of all four at once; in f32 and f64',
  'Tests construct only the built-in spaces and compare with reference values; a formula wrong for other primaries passes.',
  ['src/color_space_rgb.rs'], [('ColorSpaceRGB::new', 'src/color_space_rgb.rs')], 'Neighbourhoods around three published sets of primaries with Y=1; luminances with the BT.2020 chromaticities fixed.')
p('P08', 'Built-in RGB spaces match their published definition for every colour',
  'For each built-in RGB space, in both precisions, linear RGB to XYZ and back is the identity, greys have the published white point and primaries the published chromaticities (the stored primaries and white included), the encode and decode curves are the published ones, and the f32 and f64 versions agree.',
  'all linear colours with components -1..1 (most spaces -1..4), all curve inputs in 0..1 or -1..2',
  'The tests compare 24 patches of a chart per space at a loose tolerance; one wrong digit in a matrix, a curve segment or one precision variant passes.',
  ['src/color_space_rgb.rs', 'src/illuminant.rs'], [('built-in models', 'src/color_space_rgb.rs'), ('white points', 'src/illuminant.rs')],
  'Tolerances: round trip 1e-5 (sRGB 1e-3 and Adobe 1e-4: published rounded matrices); chromaticities 0.15 on XYZ scaled to 100.')
p('P09', 'Transfer curves follow the published piecewise formulas',
  'The sRGB, BT.709, BT.2020, linear and Alexa LogC v3 (EI 800) encode and decode curves equal their published formulas for every input, on scalars and per channel on colours. Within 1e-6 of the junction either piece may apply.',
  'scalars and colours with components -1..4 (encode; LogC to 32) and -1..2 (decode; LogC -0.25..1.25), and scalars -1024..1024 (encode; LogC -16..4096) and far outside 0..1 (decode), in f32 and f64',
  'Tests sample a few points; a wrong constant, threshold or comparison direction affects only one segment or a thin interval.',
  ['src/color_space_rgb.rs'], [('encode/decode functions', 'src/color_space_rgb.rs')], 'pow/log10/exp are libm calls, modelled by proved enclosures; tolerance 1e-10 f64, 1e-4 f32 (LogC decode x100).')
p('P10', 'Encode and decode curves are inverse and monotone',
  'For every curve, decoding an encoded value and encoding a decoded value return the original (up to rounding and, within 1e-3 of the junction, the step the published constants leave), and both curves are non-decreasing up to that step.',
  'scalars -1..256 (LogC to 1024; decode domain -0.25..1), all pairs for monotonicity, in f32 and f64',
  'Inverse-ness and monotonicity quantify over all values and all pairs; tests try a handful.',
  ['src/color_space_rgb.rs'], [('encode/decode functions', 'src/color_space_rgb.rs')], 'Per-curve step at the junction: sRGB 1e-6, BT.709/2020 5e-4, LogC 1e-4.')
p('P11', 'Conversions are exactly the matrix and curve the spaces imply',
  'Converting single colours and slices between XYZ and RGB applies the given matrix (with Y=100 scaling) to every element; composed matrices equal decode matrix, adaptation between the whites, encode matrix, in that order. Slice conversion between spaces converts the first min(source, destination) colours, leaves the rest untouched, and returns that count; neutral colours stay neutral between built-in spaces.',
  'all matrices with entries up to 4, colours to 200 in magnitude, slices of 0..5 (thorough 0..9), unequal lengths, every ordered pair of built-in spaces (quick: a quarter)',
  'The tests convert fixed charts of equal length with fixed matrices; composition order, remainders and unequal lengths are not reached.',
  ['src/transform.rs', 'src/color_space_rgb.rs'], [('xyz_to_rgb, rgb_to_xyz, slice forms, matrix composition', 'src/transform.rs')], 'Slices up to 5 (thorough 9) colours; whites D65, D50 and A for compositions.')
p('P12', 'Vectorised planar conversion equals the scalar conversion for every length',
  'Converting separate X, Y and Z planes with vector instructions gives for every pixel the same as the scalar matrix conversion, for every plane length including ones that are not a multiple of the vector width. Planes of Y or Z shorter than X are refused rather than read beyond their end.',
  'plane lengths 0..23 (selected; thorough 0..49), unequal lengths, all matrices with entries up to 4 and values 0..120',
  'The tests use one length; remainders and short planes are not reached.',
  ['src/transform.rs'], [('xyz_slice_to_rgb_avx_planes and the SSE variant', 'src/transform.rs')], 'Built with AVX2+FMA; lengths as listed; tolerance 1e-3.')
p('P13', 'XYZ and xyY chromaticities convert both ways',
  'Converting XYZ (white at Y=100) to xyY gives x=X/(X+Y+Z), y=Y/(X+Y+Z) and Y/100, converting back gives the original, and xyY to XYZ and back is the identity likewise. Normalising scales a colour to Y=1 or Y=100 and the short constructors store what they are given.',
  'X, Z in 0..200 with Y in 0.25..200; x in 0..0.75, y in 0.0625..0.85, Y in 0.125..2, f32 and f64',
  'A test sees one white; scale or component errors that cancel for that white pass.',
  ['src/xyz.rs', 'src/chromaticity.rs'], [('conversions between XYZ and xyY', 'src/xyz.rs, src/chromaticity.rs')], 'Near-black colours (Y < 0.25) and y < 1/16 are outside.')
p('P14', 'L*a*b* conversions follow the CIE formulas',
  'Converting XYZ to L*a*b* relative to a white, and L*a*b* to XYZ, gives the CIE 1976 value on both the cube-root and the linear segment.',
  'XYZ components 0..150, whites X 85..110, Y 95..105, Z 40..120; L* 0..110, a* and b* -128..128; f32 and f64',
  'Tests use a few chart colours; the linear segment near black and mixed-segment colours are not reached.',
  ['src/lab.rs'], [('XYZ/Lab conversions', 'src/lab.rs')], 'f32 within 0.1, f64 within 1e-8.')
p('P15', 'L*a*b* round trips are lossless and the white is (100,0,0)',
  'XYZ to L*a*b* to XYZ and L*a*b* to XYZ to L*a*b* return the original colour for every colour and white, and the reference white itself has L*=100, a*=b*=0.',
  'XYZ components 0..150 or L* 0..110, a*, b* -128..128, realistic whites; f32 and f64',
  'Requires every colour; the tests cannot sample the segment boundaries of three channels and their combinations.',
  ['src/lab.rs'], [('XYZ/Lab conversions', 'src/lab.rs')], 'f32 within 0.1, f64 within 1e-8.')
p('P16', 'The 1976 colour difference is a Euclidean distance',
  'The CIE 1976 difference of two L*a*b* colours is the Euclidean distance of their components: never negative and exactly zero for equal colours.',
  'all pairs of colours with components up to 128 in magnitude (also at scales 2 and 1/16), f32 and f64',
  'A wrong component or sign shows only when that component differs.', ['src/lab.rs'], [('delta_E_1976', 'src/lab.rs')], 'Tolerance 1e-4 f64 at scale 128, 1e-7 at scale 1/16; f32 0.5 and 5e-4.')
p('P17', 'The CIEDE2000 difference is the published formula',
  'The CIEDE2000 difference of two L*a*b* colours is the published formula (Sharma, Wu and Dalal 2005) with unit weights, whatever the hue quadrants of the colours: it includes the mean hue and hue difference conventions on both sides of 180 and 360 degrees and the convention for neutral colours. It is never negative, and exactly zero for equal colours.',
  'f64: L in 0..100, a and b of magnitude 1/16..128 in every combination of signs, colours on or near the axes, neutral colours. f32: a and b of magnitude 8..40 (8..60 with one colour on the a axis), neutral and equal colours',
  'The tests compare one pair (or the reference table of 34 pairs): the hue conventions, the rotation term and the neutral case each depend on where both colours lie, and a wrong branch shows only for such pairs.',
  ['src/lab.rs'], [('delta_E_2000, h_p, h_bar and related helpers', 'src/lab.rs')],
  'Transcendental functions are uninterpreted, with ranges and error bounds; hue differences within 1e-6 degrees (f64; 1e-2 in f32) of 180 may resolve either way. f64 within 1e-2 (1e-4 where the lightness differs); f32 within 0.1 (0.5, and 1 when one colour is neutral).')
p('P18', 'Daylight chromaticities follow the CIE locus; other inputs are errors',
  'A correlated colour temperature from 4000 K to 25000 K gives the CIE daylight chromaticity with Y=1, using the published polynomial below and above 7000 K; every other number, including NaN and infinities, is an error.',
  'every f32 and f64 bit pattern for acceptance; 4000..25000 K for the formula',
  'Tests sample one temperature; boundaries, NaN and the second polynomial segment are unreached.', ['src/illuminant.rs'], [('cct', 'src/illuminant.rs')], 'Acceptance bit-precise over all floats; formula within 1e-11 (f64), 1e-4 (f32).')
p('P19', 'A spectrum reports its range and whether its spacing is uniform truthfully',
  'A spectrum built from samples reports the first and last wavelengths as its range and keeps every sample; it reports a uniform interval only when every gap, including the last, equals that interval, and reports varying spacing only when some gap differs.',
  'spectra of 2 to 5 samples whose wavelengths lie anywhere within 0.5 nm of a 10 nm grid, values -2..2',
  'The tests build spectra with one spacing; a difference in a single gap at one position is not sampled.', ['src/vspd.rs'], [('VSPD::new, calculate_shape, calculate_interval', 'src/vspd.rs')],
  '2..5 samples (thorough up to 9), spacing near 10 nm; gaps equal within 1e-13 must be uniform, uniform gaps equal within 1e-9.')
p('P20', 'A shape enumerates exactly the wavelengths of its grid',
  'Iterating a uniform wavelength shape yields start, start+interval, ... up to the last grid point not beyond its end, where an end on the grid up to rounding error counts as reached. A constant spectrum and one built from a slice of values have exactly those wavelengths, the given values and the given shape; a slice of any other length, fewer than two samples or a varying interval is refused.',
  'every start 300..500, interval 1..20 (symbolic) with the end on the grid up to rounding or strictly between grid points, 0..9 steps (thorough 0..39), values -10..10, f32 and f64',
  'Whether (end-start)/interval rounds just below a whole number depends on the exact floats; tests use integers.',
  ['src/vspd.rs'], [('SpdShape::iter, VSPD::constant, VSPD::from_values', 'src/vspd.rs')], 'Step counts as listed; end within 1e-10 (f64) or 2e-5 (f32) of the grid.')
p('P21', 'A spectrum gives back, compares and scales exactly its samples',
  'The accessors and forward and reverse iterators of a spectrum return its samples, values and wavelengths in order; collecting pairs or samples builds the same spectrum; multiplying or dividing by a number scales every value and no wavelength. Two spectra are equal exactly when all their samples are, and approximately equal exactly when every sample is within the margin.',
  'spectra of 2, 3 and 5 samples (thorough to 16) with any values -2..2 and scale factors 0.01..100 of either sign; comparisons of up to 3 samples bit-precisely',
  'Tests compare one spectrum with itself; a comparison or iterator that skips one sample passes.',
  ['src/vspd.rs'], [('accessors, FromIterator, Mul, Div, PartialEq, ApproxEq', 'src/vspd.rs')], 'Lengths as listed; comparisons with one symbolic wavelength.')
p('P22', 'Linear interpolation and constant extrapolation of spectra',
  'The linear interpolator returns at every wavelength the value on the straight line between the two neighbouring samples, and the end samples outside them; the constant extrapolator returns the nearest end sample outside the range.',
  'all wavelengths from 20 nm before to 20 nm beyond the samples, values -2..2, symbolic irregular spacing for 2 and 3 samples, fixed irregular spacing for 5 (thorough 4..12)',
  'Every segment and both sides must be right; nothing in the tests evaluates the linear interpolator.',
  ['src/interpolation.rs'], [('InterpolatorLinear, ExtrapolatorConstant', 'src/interpolation.rs')], 'Sample counts as listed.')
p('P23', 'Sprague interpolation follows its definition',
  'On a uniform spectrum of six or more samples the Sprague interpolator returns between any two samples the quintic that meets both with the fourth-order central first and second differences, with the CIE boundary values beyond the ends. On any number of samples it meets every sample and keeps a straight line straight.',
  'every wavelength in every segment, values -2..2, 6, 7 and 9 samples (thorough to 20) on grids of 1, 5 and 10 nm; straight lines of 2..8 (thorough ..19) samples',
  'One sign or weight in thirty-six matters only for spectra whose corresponding sample differs; the tests interpolate a straight line.',
  ['src/interpolation.rs'], [('InterpolatorSprague', 'src/interpolation.rs')], 'Sample counts and grids as listed; tolerance 1e-8.')
p('P24', 'Aligning and interpolating put a spectrum on the requested grid',
  'Aligning a uniform spectrum with a shape gives exactly one sample for each wavelength of that shape, with that shape: the Sprague interpolated value inside the spectrum and the nearest end value outside, also when the ranges do not overlap or the ends of the spectrum are off the grid. Interpolating does the same on the narrower of the two ranges.',
  '16 (thorough 196) combinations of source and target grids, some with a symbolic grid offset of several nm and on fractional grids, all values -2..2',
  'Grid alignment, partial overlap and end points make many combinations; the tests use one aligned grid.',
  ['src/vspd.rs', 'src/interpolation.rs'], [('VSPD::align, VSPD::interpolate', 'src/vspd.rs')], 'Grids as listed in props/spectra.py; 6 to 12 samples.')
p('P25', 'Extrapolating and trimming keep the samples and report the range truthfully',
  'Extrapolating a spectrum keeps all its samples, adds end values at most one interval apart until the range is covered (on its own grid if the range is) and reports the range of its samples, and a uniform interval only if they are evenly spaced. Trimming keeps exactly the samples inside the range and reports the first and last of them as its range.',
  'ranges narrower and wider than the spectrum on either side (10, thorough 266 combinations), every trim range as symbolic ends between any two samples of grids from 400 by 10, 400.5 by 0.5 and 399.75 by 2.25 nm, all values -2..2',
  'Narrower requests and one-sided cases are not in the tests.',
  ['src/vspd.rs'], [('VSPD::extrapolate, VSPD::trim', 'src/vspd.rs')], 'Grids as listed; trim ranges with at least one sample inside.')
p('P26', 'Spectrum to XYZ equals the CIE integral for any regular spectrum',
  'Converting a regularly sampled spectrum under a built-in or any other illuminant gives the XYZ of the CIE 1931 observer over 360 to 780 nm: the sum at 1 nm (5 nm for 5 nm data) of Sprague-interpolated, end-extended spectrum, illuminant and observer, or the ASTM E308 weighting factors for 10 nm data on multiples of 10 nm, scaled so that a perfect diffuser has Y=100.',
  '20 grids (thorough 160) of 7 to 421 samples with all values -2..2 at once, four built-in illuminants, and three grids under every illuminant of 7 or 8 samples 0.5..1',
  'The conversion is one of several code paths chosen by interval and range; the tests use charts at a single interval, 380 nm to 730 nm.',
  ['src/vspd.rs', 'src/cmf.rs', 'src/illuminant.rs'], [('VSPD::to_xyz, spd_to_xyz_integration, tristimulus weighting factors', 'src/vspd.rs'), ('observer table', 'src/cmf.rs'), ('illuminant tables', 'src/illuminant.rs')],
  'Grids as listed in props/spectra.py; within 1e-5 of an exact rational computation from the published tables (props/data/cie.json).')
p('P27', 'A perfect diffuser has the colour of the illuminant, Y=100',
  'A constant spectrum of any sampling, regular or irregular, sparse or dense, wider or narrower than the observer, converts to that constant times the white point of the illuminant with Y=100, for the built-in illuminants and, for Y, under any illuminant whatever.',
  'constants 0..1, regular and irregular samplings including 10 nm data of 14 starts with 3 lengths (thorough: all starts), built-in illuminants, and every illuminant of 6 or 8 samples 0.5..1',
  'Irregular and off-grid samplings are not in the tests, and normalisation must hold for every illuminant.',
  ['src/vspd.rs'], [('VSPD::to_xyz', 'src/vspd.rs')], 'Samplings as listed; Y within 1e-5, X and Z within 0.01.')
p('P28', 'The compact spectrum agrees with the precise one, with and without AVX',
  'Converting a 40-sample spectrum to XYZ applies the ASTM E308 D65 weights of 380 to 770 nm to every sample, equally in the scalar and the vectorised code. Products, constants, iteration, in-place changes and equality act on all forty samples.',
  'all sample values -1..1 at once and each sample alone (XYZ), all values -4..4 (others), both builds',
  'A wrong lane, offset or weight is visible only for spectra whose affected samples matter; vector code is not compared with scalar code for such inputs.',
  ['src/spd.rs'], [('spd_to_xyz_scalar, spd_to_xyz_avx, Mul, constant, PartialEq', 'src/spd.rs')], 'Within 1e-3 (all samples) and 5e-6 (single samples) of exact weights; built plainly and with AVX2+FMA.')
p('P29', 'Luminance of a spectrum weighs every sample by luminous efficiency',
  'The luminance of a regular spectrum is 683 times the mean over its samples of value times the CIE 1931 y-bar at that wavelength (end values beyond the table).',
  '7 grids (thorough 82) of 2 to 81 samples inside, across and outside the table, all values -2..2',
  'There is no test of it.', ['src/photometry.rs', 'src/vspd.rs'], [('spd_to_nit', 'src/photometry.rs')], 'Grids as listed; within 1e-6.')
p('P30', 'Indexing and slice reinterpretation never go out of bounds',
  'Indexing a colour or a matrix returns the addressed component and any out-of-range index is refused. Viewing a flat slice as colours gives one third as many colours with the same values in order, and a length not divisible by three is refused.',
  'all 64-bit indices; slices of 0..9 elements (thorough 0..24) of u8, f32 and f64 with any contents',
  'Out-of-range and odd lengths are not tested, and unsafe code is behind the cast.', ['src/rgb.rs', 'src/xyz.rs', 'src/math.rs', 'src/math.rs'], [('Index implementations; slice casts', 'src/rgb.rs')], 'Matrix indices 0..8 per axis.')
p('P31', 'Evenly spaced values and Lagrange weights',
  'A linear range of n values starts at its start, ends at its end and is evenly spaced, including for one value. The Lagrange coefficients for an interval are the weights of the 3- or 4-point Lagrange polynomial at each whole nanometre inside the interval.',
  'starts and ends -1000..1000, 1 to 21, 33, 50 and 64 values (thorough 1..100); intervals 2..30 and some to 100 (thorough 2..200), degrees 3 and 4',
  'Small intervals and single values are not in the tests.', ['src/vspd.rs'], [('linspace, lagrange_coefficients_astm_e2022', 'src/vspd.rs')], 'Counts and intervals as listed.')
p('P32', 'Uplifting is linear in the colour',
  'Uplifting an RGB colour to a spectrum gives on 380 to 780 nm by 5 nm the sum of the three basis spectra weighted by the components. The basis spectra, as constants and as returned by the basis function, are the published ones.',
  'all colours with components -4..4', 'A swapped or shifted basis shows only for coloured inputs; the test checks nothing.', ['src/uplifting.rs'], [('uplift_my, my_basis', 'src/uplifting.rs')], 'Within 1e-9; basis as published in props/data/uplift.json.')
p('P33', 'Approximate colour equality is decided on every component',
  'Two colours compare approximately equal under a margin (absolute, in units in the last place, or both) exactly when each of the three components does; under an absolute margin alone that is when each component is within the margin or equal.',
  'every f32 and f64 component bit pattern and every margin (absolute margins alone: components and margins up to 1e30)', 'A comparison ignoring one component passes every test whose colours agree there.', ['src/rgb.rs', 'src/xyz.rs'], [('ApproxEq implementations', 'src/rgb.rs')],
  'What one component compares to under a margin in units in the last place is taken from float-cmp itself.')
p('P34', 'The scalar helper functions are the mathematical ones',
  'In both precisions each generic helper of the math module is the function of its name: square root, square, absolute value, trigonometric functions and their inverses, exponential, power, hypotenuse and the two-argument arctangent with its arguments in order. Integer powers multiply that often, and clamping gives the limit beyond a limit and the value itself between.',
  'every f32 and f64 bit pattern; integer powers -2..7 (thorough -8..12) of bases 0.5..2 of either sign', 'Swapped arguments, a wrong function in one precision or a clamp returning the wrong limit is visible only for particular arguments; no test calls most of them.',
  ['src/math.rs'], [('sqrt .. hypot, powi, clamp', 'src/math.rs')], 'That the C library\'s functions are accurate is assumed, not checked.')
p('P35', 'Narrowing a colour or matrix to f32 rounds every component to nearest',
  'Converting an RGB colour, an XYZ colour or a 3x3 matrix from f64 to f32 gives in every component the f32 nearest to that same component, for all values including infinities and NaN.',
  'every f64 bit pattern in every component', 'A swapped or repeated component shows only for values that differ; no test converts a matrix whose nine entries all differ.',
  ['src/rgb.rs', 'src/xyz.rs', 'src/math.rs'], [('From conversions between precisions', 'src/rgb.rs, src/xyz.rs, src/math.rs')], 'All bit patterns.')
p('P36', 'Custom observers are aligned and applied like the built-in one',
  'A custom observer (colour matching functions) reports the range and interval of its samples, and aligning it with a shape aligns each of its three curves, whatever range and spacing each of them has. Converting a spectrum to XYZ or to luminance with it uses that observer throughout, including in the normalisation to Y=100.',
  'five alignments, and two (thorough four) of each of several sets of differently sampled curves; 5 (thorough 7) combinations of spectrum, built-in illuminant and observer grids for XYZ and two for luminance; all spectrum and observer values at once', 'Tests use only the built-in observer; using it in one place instead of the given one, or mixing up curves, passes them all.',
  ['src/cmf.rs', 'src/vspd.rs', 'src/photometry.rs'], [('CMF::align, CMF::shape', 'src/cmf.rs'), ('VSPD::to_xyz', 'src/vspd.rs'), ('spd_to_nit', 'src/photometry.rs')],
  'Spectrum values -1..1, observer values 0.5..1 (XYZ, within 1e-4 relative) or -2..2; grids as listed in props/spectra.py.')
p('P37', 'A neutral reflectance stays neutral through the whole pipeline',
  'Converting a constant spectrum of any reflectance to XYZ under a built-in illuminant and on to linear RGB of any built-in space with the matrix for that illuminant\'s white gives three equal components of that reflectance (within 0.0002 for D65, 0.0006 for D50 and D55, 0.0015 for D60, whose constants are rounded), whatever the sampling of the spectrum. The compact spectrum does so for every space with a D65 white.',
  'all four illuminants with all ten f64 spaces, six samplings (thorough: each combination), and six f32 spaces; all reflectances 0..1 at once', 'No test combines an illuminant spectrum with the white point constant of the same name or a space with another white.',
  ['src/vspd.rs', 'src/illuminant.rs', 'src/transform.rs', 'src/color_space_rgb.rs', 'src/spd.rs'], [('illuminant::spd, illuminant::xy', 'src/illuminant.rs'), ('VSPD::to_xyz', 'src/vspd.rs'), ('xyz_to_rgb_matrix, xyz_to_rgb', 'src/transform.rs'), ('SPD::to_xyz', 'src/spd.rs')],
  'Samplings as listed in props/spectra.py; reflectances 0..1.')
p('P38', 'Uplifting an sRGB colour preserves it and gives a reflectance',
  'A linear sRGB colour with components in 0..1 uplifted to a spectrum and converted back under D65 is the same colour within 0.0003, and every value of that spectrum lies in 0..1 (within 1e-6). Each of the seven Smits basis spectra has 1.07 times the linear sRGB colour of its name, within 0.05, at any scale.',
  'all colours in the unit cube at once; all scales 0..1', 'The test converts 24 colours and prints the result without asserting anything; the Smits spectra are not tested.',
  ['src/uplifting.rs', 'src/vspd.rs', 'src/transform.rs'], [('uplift_my, my_basis, SMITS_*', 'src/uplifting.rs'), ('VSPD::to_xyz', 'src/vspd.rs')], 'Components 0..1, scales 0..1.')
p('P39', 'Converting to another colour space and back returns the colour',
  'Converting an encoded colour with components in 0..1 to a space whose curve takes every number (ACES, ACEScg, Alexa) with rgb_to_rgb and back returns the same colour within 0.0025, in both precisions; via f64, converting 8-bit colours that way and back gives exactly the same levels for all 16.7 million of them.',
  '17 (thorough 21) ordered pairs of built-in spaces in f64 and f32 and four for 8-bit; all colours 0..1 (P3 and Adobe RGB: 0.05..1) at once', 'Tests convert one way and 24 colours; an adaptation in the wrong direction, swapped curves or a wrong matrix in one precision shows only when going both ways.',
  ['src/transform.rs', 'src/color_space_rgb.rs', 'src/chromatic_adaptation.rs', 'src/rgb.rs'], [('rgb_to_rgb, rgb_to_rgb_matrix', 'src/transform.rs'), ('ColorSpaceRGB::encode, decode', 'src/color_space_rgb.rs'), ('From conversions to and from RGBu8', 'src/rgb.rs')],
  'Pairs as listed in props/spaces.py. Pure power curves (P3, Adobe RGB) are not defined below black, so colours within 0.05 of it are excluded for those.')

NA = {}
