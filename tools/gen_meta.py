#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, tech, note, hook=None, claimed=True, reason=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                   why_tests_cant=why, anchors=a), tech, note, claimed, reason))


SMOKE = 'The existing tests are smoke runs of one hand-picked configuration each and compare nothing, so '
PYOCT = ['the Python extension modules', 'the Octave functions']
PBT = 'property-based testing (Hypothesis) of the built Python and Octave modules against '
TRUST = 'Sampled, not exhaustive; trusts the NumPy reference model in lib/vf, written from the manual.'

prop('C01', 'Flat apertures: the response is the discrete-representation sum',
     'For a line, rectangular or circular piston the returned impulse response equals, sample by sample, the sum over the aperture cells (midpoint grid of pitch dx, dy) of v*dx*dy/(2*pi*r)/dt, converted to SI units, each placed at the sample nearest to the propagation time r/cp minus the start delay. '
     "In an absorbing medium each contribution is the medium's response (C12) for that distance instead of a single sample, and contributions outside the window are left out and nothing else changes. "
     'This holds for every observation point, aperture size, sampling, sound speed, velocity and scalar or per-point start delay, and without absorption no other sample is non-zero. Inputs are never modified.',
     ['inputs', 'configurations'], 'all geometries, sampling parameters, materials, observation point sets, delays, thread counts, and both language bindings',
     SMOKE + 'no test looks at the values of a response at all.',
     ['src/dreamline.cc', 'src/dreamrect.cc', 'src/dreamcirc.cc', 'python/src/py_dreamrect.cc', 'oct/oct_dreamrect.cc'],
     [('dreamline_serial', 'src/dreamline.cc'), ('dreamrect_serial', 'src/dreamrect.cc'), ('dreamcirc_serial', 'src/dreamcirc.cc')],
     PYOCT, PBT + 'an independent discrete-representation model', TRUST)

prop('C02', 'Curved apertures: concave and convex responses follow the curved surface',
     'For a spherical or cylindrical transducer the response equals the discrete-representation sum over cells that lie on the curved surface: z = Rc - sqrt(Rc^2 - rho^2) for a concave (positive) radius of curvature and the mirrored surface for a convex (negative) one, with the cylinder sampled in equal angles of arc. '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'It therefore tends to the flat circular or rectangular response as the radius of curvature grows.',
     ['inputs', 'configurations'], 'all curvatures of both signs up to a full half-sphere or half-cylinder, geometries, samplings, observation points and delays',
     SMOKE + 'a wrong sign of the curvature or a wrong arc element would pass.',
     ['src/dreamsphere.cc', 'src/dreamcylind.cc'],
     [('dreamsphere_serial, sphere_f, sphere_d', 'src/dreamsphere.cc'), ('dreamcylind_serial, cylind_f, cylind_d', 'src/dreamcylind.cc')],
     PYOCT, PBT + 'an independent discrete-representation model, and the flat-aperture limit', TRUST)

prop('C03', 'Focused single elements delay every cell by the documented focusing law',
     'For dreamrect_f and dreamcirc_f each aperture cell is delayed by the difference between the longest and its own distance to the focus, over x, y, both (xy), or x and y separately (x+y), so that with method off the response equals the unfocused one. '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'The law depends only on the cell position, the focal depth, the aperture size and the sound speed.',
     ['inputs', 'configurations'], 'all focusing methods and focal depths, geometries, samplings, observation points and delays',
     SMOKE + 'no focusing method is compared with anything.',
     ['src/dreamrect_f.cc', 'src/dreamcirc_f.cc'],
     [('focus_delay_rect', 'src/dreamrect_f.cc'), ('focus_delay_circ', 'src/dreamcirc_f.cc')],
     PYOCT, PBT + 'an independent model of the focusing law, and equality with the unfocused function', TRUST)

prop('C04', 'An array response is the superposition of its element responses',
     'The response of an array of rectangular, circular or cylindrical elements with focusing, steering and apodization off equals the sum of the responses of the single element moved to every grid position (x, y and z), and does not depend on the order of the grid rows. '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'A grid split in two gives two responses that add up to the whole.',
     ['inputs', 'configurations'], 'all element grids of any size and arrangement, geometries, samplings, observation points and delays',
     SMOKE + 'array tests use one fixed grid and only plot.',
     ['src/dream_arr_rect.cc', 'src/dream_arr_circ.cc', 'src/dream_arr_cylind.cc', 'src/arr_functions.cc'],
     [('dream_arr_*_serial', 'src/dream_arr_rect.cc'), ('center_pos', 'src/arr_functions.cc')],
     PYOCT, PBT + 'superposition of a discrete-representation model, plus metamorphic permutation and partition relations', TRUST)

prop('C05', 'Array focusing delays follow the documented law for every method',
     'With focusing x, y, xy or x+y the response of element n is delayed by (distance of the outermost element to the focus minus that of element n)/cp, and with ud by exactly the n-th user-supplied delay in microseconds. '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'All other aspects of the response are as without focusing.',
     ['inputs', 'configurations'], 'all methods, focal depths, user delays (of either sign), grids, samplings and observation points',
     SMOKE + 'only one method with one focal depth is ever run.',
     ['src/arr_functions.cc', 'include/arg_parser.h', 'include/arg_parser_python.h'],
     [('focusing', 'src/arr_functions.cc'), ('max_dim_arr', 'src/arr_functions.cc'), ('parse_focus_args', 'include/arg_parser.h')],
     PYOCT, PBT + 'an independent model of the focusing law', TRUST)

prop('C06', 'Array steering delays are linear in element position and sine of the angle',
     'With steering x, y or xy the response of element n is delayed by (aperture extent + element coordinate)*sin(angle)/cp in the steered direction(s), angles in degrees, and steering by zero degrees equals no steering. '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'Steering composes with focusing by adding the delays.',
     ['inputs', 'configurations'], 'all methods, angles of either sign, grids, focusing methods, samplings and observation points',
     SMOKE + 'steering is only run with one angle.',
     ['src/arr_functions.cc'], [('beamsteering', 'src/arr_functions.cc'), ('parse_steer_args', 'include/arg_parser.h')],
     PYOCT, PBT + 'an independent model of the steering law', TRUST)

prop('C07', 'Apodization weights every element by the selected window',
     'Each element response is multiplied by the weight of the selected method (ud, triangle, gauss, raised, hann, hamming, simply, clamped) evaluated at the distance of the element from the array centre relative to the aperture radius, with the window parameter the caller gave. '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'With apodization off every weight is one, and the response is linear in user-defined weights.',
     ['inputs', 'configurations'], 'all methods, window parameters, user weights (any sign), grids, focusing and steering settings',
     SMOKE + 'all tests run with apodization off.',
     ['src/arr_functions.cc', 'include/arg_parser.h', 'python/src/py_dream_arr_rect.cc'],
     [('apodization', 'src/arr_functions.cc'), ('parse_apod_args', 'include/arg_parser.h')],
     PYOCT, PBT + 'an independent model of the windows', TRUST)

prop('C08', 'Annular arrays: rings are disc differences, weighted and delayed',
     'The annular array response is the sum over the rings of (response of the outer disc minus response of the inner disc), times the ring weight, delayed by the whole number of samples nearest to the ring focusing delay (computed from the mean ring radius, or user-defined, of either sign). '
     "The same holds with absorption, where each contribution is the medium's response for its distance (C12), and when the window holds only part of the response. "
     'With one radius and everything off it equals dreamcirc with that radius.',
     ['inputs', 'configurations'], 'all odd-length radii vectors (with or without gaps), focusing and apodization methods, samplings, observation points and delays',
     SMOKE + 'one fixed set of radii is plotted; the one-disc identity is never tried.',
     ['src/dream_arr_annu.cc', 'oct/oct_dream_arr_annu.cc', 'python/src/py_dream_arr_annu.cc'],
     [('resp_annular, superpos_annular, focusing_annular, apodization_annular, annular_disc_radii', 'src/dream_arr_annu.cc')],
     PYOCT, PBT + 'a disc-difference model and the one-disc identity with dreamcirc', TRUST)

prop('C09', 'Scaling, symmetry and window laws hold for every SIR function',
     'For every SIR function the response is proportional to v; advancing the start delay by k samples shifts the response k samples; a longer window keeps the samples of a shorter one; and a per-point delay vector with equal entries equals the scalar delay. '
     'When the spatial sampling divides the aperture into whole cells, mirroring observation points (and the array grid) through the x or y axis leaves the response unchanged, and scaling all lengths and times together scales it accordingly.',
     ['inputs', 'configurations'], 'all eleven SIR functions with all their options, over all parameters',
     SMOKE + 'relations between two runs are never examined.',
     ['src/dreamrect.cc', 'src/dreamcirc.cc', 'src/dreamsphere.cc', 'src/dreamcylind.cc', 'src/dream_arr_rect.cc', 'src/dream_arr_annu.cc'],
     [('*_serial functions', 'src')], PYOCT,
     'metamorphic property-based testing (Hypothesis): two related calls of the same built function are compared',
     'Sampled; relations compare the implementation with itself under a known input change, with ties tolerated through the reference bounds.')

prop('C10', 'Observation points are independent and the thread count is invisible',
     'Column n of the response depends only on observation point n and its delay: computing points together, separately, permuted or duplicated gives bit-identical columns. '
     'The result is bit-identical for every DREAM_NUM_THREADS and every repetition of the call, for all SIR, analytic and delay-and-sum functions.',
     ['inputs', 'schedules', 'configurations'], 'all functions, numbers of observation points, permutations, thread counts and thread schedules',
     SMOKE + 'tests run on the default thread count only and never repeat a call.',
     ['src/dreamrect.cc', 'src/dream_arr_annu.cc', 'extra_src/das.cc', 'extra_src/rect_sir.cc', 'src/affinity.cc'],
     [('work split start = n*No/nthreads in every threaded driver', 'src, extra_src')], PYOCT,
     'metamorphic property-based testing (Hypothesis) over partitions, permutations, thread counts and repetitions',
     'Sampled schedules only: the operating system decides the interleavings (see C32 for the race detector).')

prop('C11', 'Out-of-window contributions are handled as the error level says',
     "When some contribution falls outside the time window: 'ignore' and 'warn' return the response with exactly the outside contributions left out and a non-zero error output ('warn' also prints a warning, 'ignore' prints nothing), and 'stop' reports an out-of-bounds error and returns no response. "
     'When all contributions are inside, every level returns the same response, a zero error output and prints nothing; none of this depends on the number of threads or on which observation point or element is affected.',
     ['inputs', 'configurations', 'schedules'], 'all SIR functions, windows that miss part or all of the response of some or all points, thread counts and error levels',
     SMOKE + 'every test uses a window that holds the whole response.',
     ['src/dream_error.cc', 'src/dreamrect.cc', 'src/dreamsphere.cc', 'src/dream_arr_rect.cc', 'oct/oct_dreamrect.cc', 'python/src/py_dreamrect.cc'],
     [('dream_out_of_bounds_err', 'src/dream_error.cc'), ('collection of D[].err in the threaded drivers', 'src')], PYOCT,
     PBT + 'a model that knows which contributions are outside', TRUST)

prop('C12', 'Attenuation filters every contribution by the causal absorption law',
     'With alpha > 0 every contribution is replaced by the sampled impulse response of the documented absorbing, dispersive medium over its own propagation distance and arrival sample, so that the zero-frequency content is preserved, higher frequencies lose alpha dB/(cm MHz), and the result is linear in v. '
     'With alpha = 0 the response is the lossless one; this holds for all SIR functions including arrays with focusing, steering and apodization.',
     ['inputs', 'configurations'], 'all SIR functions, attenuation coefficients, window lengths (even and odd), distances and samplings',
     SMOKE + 'attenuated responses are only plotted.',
     ['src/attenuation.cc', 'include/attenuation.h', 'include/fft.h', 'src/dreamrect.cc', 'src/dream_arr_rect.cc'],
     [('Attenuation::att', 'src/attenuation.cc'), ('FFT::ifft', 'include/fft.h')], PYOCT,
     PBT + 'a NumPy model of the absorption law', TRUST)

prop('C13', 'dream_att returns the medium response the transducer functions apply',
     'For every observation point dream_att returns the sampled impulse response of the absorbing medium over the distance from the origin, arriving at the sample nearest to r/cp minus the start delay (an arrival inside the window), identical to what a small piston at the origin with the same attenuation coefficient applies. '
     'Its samples sum to one and for alpha = 0 it is a unit impulse.',
     ['inputs'], 'all observation points, samplings, window lengths, delays (scalar or vector) and attenuation coefficients', 'No test calls dream_att.',
     ['oct/oct_dream_att.cc', 'src/attenuation.cc'], [('dream_att', 'oct/oct_dream_att.cc')], ['the Octave function dream_att'],
     PBT + 'a NumPy model, plus a differential relation with dreamrect', TRUST)

prop('C14', 'Discrete and analytic responses agree',
     'As the spatial sampling is refined, the cumulative response of dreamcirc converges to that of the analytic circular response and the one of dreamrect to that of the analytic rectangular response, for points on axis, off axis, inside and outside the projection of the aperture. '
     'The integrated response never depends on the choice of temporal sampling.',
     ['inputs'], 'all observation points, aperture sizes, materials and samplings',
     'The tests never compare the analytic functions with the numerical ones.',
     ['src/dreamcirc.cc', 'src/dreamrect.cc', 'extra_src/circ_sir.cc', 'extra_src/scirc_sir.cc', 'extra_src/rect_sir.cc'],
     [('circ_sir', 'extra_src/circ_sir.cc'), ('scirc_sir', 'extra_src/scirc_sir.cc'), ('rect_sir', 'extra_src/rect_sir.cc')], PYOCT,
     'differential property-based testing (Hypothesis) of the numerical against the analytic functions',
     'Sampled; agreement is judged through cumulative sums within a bound derived from the cell size.')

prop('C15', 'Analytic circular responses match the closed form',
     'circ_sir returns at every sample the closed-form piston response (v*cp on the plateau, the arccosine law between first and last edge arrival, zero elsewhere) for points inside, on and outside the projection of the aperture, and scirc_sir returns its mean over each sampling interval. '
     'Values are finite, never negative and never exceed v*cp.',
     ['inputs'], 'all observation points, radii, samplings, delays, materials and integration lengths', 'No test calls these functions.',
     ['extra_src/circ_sir.cc', 'extra_src/scirc_sir.cc', 'extra_src/oct_circ_sir.cc', 'extra_src/oct_scirc_sir.cc'],
     [('circ_sir', 'extra_src/circ_sir.cc'), ('scirc_sir', 'extra_src/scirc_sir.cc')], ['the Octave functions circ_sir and scirc_sir'],
     PBT + 'the closed form', TRUST)

prop('C16', 'The analytic rectangular response matches the closed form',
     'rect_sir returns at every sample the exact rectangular piston response: v*cp/(2*pi) times the total angle under which the circle of radius sqrt((cp*t)^2 - z^2) around the projected point lies inside the aperture. '
     'Values are finite, never negative, never exceed v*cp, are proportional to v, and are symmetric in x and y.',
     ['inputs'], 'all observation points (inside, outside, beside corners and edges), aperture sizes, samplings, delays and materials', 'No test calls rect_sir.',
     ['extra_src/rect_sir.cc', 'extra_src/oct_rect_sir.cc', 'include/rect_sir.h'], [('rect_sir_serial', 'extra_src/rect_sir.cc')], ['the Octave function rect_sir'],
     PBT + 'an arc-length model computed by a different method', TRUST)

prop('C17', 'SAFT images are the delay-and-sum of the A-scans',
     'The SAFT image value at each point is the sum over the transmit elements of the A-scan sample at the two-way travel time plus the delay (rounded down to a sample), for every set of element positions and observation points, in double and single precision. '
     'The image is linear in the data and does not depend on the order of the elements when the A-scans are permuted likewise.',
     ['inputs', 'configurations'], 'all data, element grids, observation points, samplings, sound speeds and delays',
     'One data set with one reflector is beamformed and plotted.',
     ['extra_src/das.cc', 'include/das.h', 'python/include/py_das.hpp', 'extra_src/oct_das.cc'], [('das_saft_serial', 'extra_src/das.cc')],
     ['das and das_f in Python, das in Octave'], PBT + 'a NumPy delay-and-sum model', TRUST)

prop('C18', 'TFM images are the delay-and-sum over all transmit-receive pairs',
     'The TFM image value at each point is the sum over all transmitter-receiver pairs of the sample of their A-scan at transmit time plus receive time plus the delay (rounded down), A-scans being ordered with the receiver index fastest. '
     'Transmit and receive arrays may differ in size and position, and exchanging them together with the data order leaves the image unchanged.',
     ['inputs', 'configurations'], 'all data, pairs of element grids of unequal size, observation points, samplings, sound speeds and delays, in both precisions',
     'One data set with one reflector is beamformed and plotted, always with identical arrays.',
     ['extra_src/das.cc', 'include/das.h', 'python/include/py_das.hpp', 'extra_src/oct_das.cc'], [('das_tfm_serial', 'extra_src/das.cc')],
     ['das and das_f in Python, das in Octave'], PBT + 'a NumPy delay-and-sum model', TRUST)

prop('C19', 'Row-column images use the nearest point of each stripe electrode',
     'With rca_coltx (rca) and rca_rowtx the travel time of each stripe electrode is measured to the nearest point of the stripe, the stripe ending at the outermost elements of the crossing array, and the image is the sum over all column-row pairs of the sample at the sum of both times plus the delay (rounded down). '
     'This holds for unequal numbers of rows and columns, points above and beside the array, and both transmit directions.',
     ['inputs', 'configurations'], 'all data, row and column grids of any (unequal) size, observation points, samplings, sound speeds and delays, in both precisions',
     'One symmetric data set is beamformed and plotted.',
     ['extra_src/das.cc', 'include/das.h', 'opencl/das_double.cl'], [('das_rca_serial_coltx, das_rca_serial_rowtx', 'extra_src/das.cc')],
     ['das and das_f in Python, das in Octave'], PBT + 'a NumPy delay-and-sum model with stripe clamping', TRUST)

prop('C20', 'Delay-and-sum handles out-of-range samples and delays as documented',
     "Travel times before or beyond the A-scan contribute nothing under 'ignore' and 'warn' and make 'stop' fail with an error; a per-point delay vector uses each point's own delay, and a constant vector equals the scalar. "
     'The outcome does not depend on the number of threads or on which point or element is out of range.',
     ['inputs', 'configurations', 'schedules'], 'all methods, delays, A-scan lengths, error levels, thread counts, both precisions', 'Tests never leave the range of the data.',
     ['extra_src/das.cc', 'extra_src/oct_das.cc', 'python/include/py_das.hpp'], [('index range check in das_*_serial', 'extra_src/das.cc'), ('error collection', 'extra_src/das.cc')],
     ['das and das_f in Python, das in Octave'], PBT + 'a NumPy delay-and-sum model that knows which samples are out of range', TRUST)

prop('C21', 'Delay-and-sum gives the same image in every session and language',
     'A sequence of das calls with changing sizes, methods, grids and precisions in one session gives for every call the same image as a fresh session gives, and Python and Octave agree. '
     'Double and single precision agree within single-precision accuracy wherever no travel time lies within rounding distance of a sample boundary.',
     ['histories', 'inputs'], 'all sequences of calls mixing methods, precisions, sizes and error outcomes within one session',
     'Every test script runs one method once per session.',
     ['include/das.h', 'extra_src/oct_das.cc', 'python/include/py_das.hpp', 'python/src/py_das.cc'], [('cached DAS object and das_setup_has_changed', 'include/das.h')],
     ['das and das_f in Python, das in Octave'], 'stateful property-based testing (Hypothesis call histories) against a NumPy model and the other binding', TRUST)

prop('C22', 'conv_p is the column-wise linear convolution',
     'conv_p(A,B) returns the full linear convolution of every column of A with the matching column of B, or with the single vector B, for all lengths including one, for row and column vectors and any number of threads. ',
     ['inputs', 'configurations'], 'all matrix sizes, contents, vector orientations and thread counts', 'The test uses a single size and compares nothing.',
     ['extra_src/conv.cc', 'extra_src/oct_conv_p.cc'], [('conv', 'extra_src/conv.cc')], ['the Octave function conv_p'], PBT + 'NumPy convolution', TRUST)

prop('C23', 'fftconv_p equals linear convolution, with or without wisdom',
     'fftconv_p(A,B) returns the full linear convolution of every column of A with the matching column of B, or with the single vector B, within floating-point accuracy, in Octave and in Python. '
     'Supplying FFT wisdom, or asking for it, changes nothing in the result.',
     ['inputs', 'configurations', 'histories'], 'all matrix sizes (any prime or composite length), contents, vector orientations, thread counts and wisdom states',
     'The tests use one size.', ['extra_src/fftconv_p.cc', 'extra_src/oct_fftconv_p.cc', 'extra_src/fftconv.cc', 'include/fft.h', 'python/include/py_fftconv_p.hpp'],
     [('fftconv', 'extra_src/fftconv.cc'), ('FFT', 'include/fft.h')], ['the Octave and Python functions fftconv_p'], PBT + 'NumPy convolution', TRUST)

prop('C24', 'Overlap-add convolution does not depend on the block length',
     'fftconv_ola(A,B,block_len) returns the full linear convolution of every column of A with the matching column of B, or with the single vector B, for every block length from one to the number of rows of A, dividing that number or not, smaller or larger than B, and any number of threads. ',
     ['inputs', 'configurations'], 'all matrix sizes, contents, block lengths and thread counts', 'No test calls fftconv_ola.',
     ['extra_src/oct_fftconv_ola.cc', 'extra_src/fftconv.cc'], [('smp_dream_fftconv_ola', 'extra_src/oct_fftconv_ola.cc')], ['the Octave function fftconv_ola'], PBT + 'NumPy convolution', TRUST)

prop('C25', 'sum_fftconv sums the convolutions over the inputs',
     'sum_fftconv(H,U) returns for every output column the sum over the inputs of the convolution of the impulse response page column with the input column, scaled by the inverse transform length as documented, for every number of inputs (two or more) and of outputs. '
     'Supplying wisdom changes nothing, and the in-place form adds the same values to the given matrix.',
     ['inputs', 'configurations'], 'all sizes of the three-dimensional response and of the inputs, contents and thread counts', 'No test calls sum_fftconv.',
     ['extra_src/oct_sum_fftconv.cc', 'extra_src/fftconv.cc'], [('add_fftconv', 'extra_src/fftconv.cc')], ['the Octave function sum_fftconv'], PBT + 'NumPy convolution', TRUST)

prop('C26', "In-place convolutions obey '=', '+=' and '-=' over any call history",
     "A convolution given an output matrix (a full double matrix of at least two elements) replaces its contents with the result ('=', the default), adds the result ('+=') or subtracts it ('-='), touching nothing else, so that after any sequence of such calls the matrix holds the algebraic combination of the individual convolutions. "
     'This holds for conv_p, fftconv_p and fftconv_ola with and without wisdom and for every thread count.',
     ['histories', 'inputs', 'configurations'], 'all sequences of in-place calls mixing the functions, modes, sizes and threads', 'Only the plain form is tested.',
     ['extra_src/oct_conv_p.cc', 'extra_src/oct_fftconv_p.cc', 'extra_src/oct_fftconv_ola.cc', 'extra_src/conv.cc', 'extra_src/fftconv.cc'],
     [('ConvMode', 'include/dream.h'), ('conv', 'extra_src/conv.cc'), ('fftconv', 'extra_src/fftconv.cc')], ['the Octave functions'],
     'stateful property-based testing (Hypothesis call histories) against a NumPy matrix', TRUST)

prop('C27', 'copy_p and add_p touch exactly the addressed sub-matrix',
     'copy_p writes, and add_p adds, the source matrix (its first rows, if it has more) into rows r1..r2 and columns k1..k2 of the destination (a full double matrix of at least two elements) in place and changes nothing else; ranges that do not fit the destination or the source are rejected and leave the destination as it was. '
     'The number of threads makes no difference.',
     ['inputs', 'histories', 'configurations'], 'all matrix sizes, ranges (valid or not), contents, thread counts and sequences of calls', 'No test calls these functions.',
     ['extra_src/oct_copy_p.cc', 'extra_src/oct_add_p.cc'], [('smp_dream_copy_p / add_p', 'extra_src/oct_copy_p.cc')], ['the Octave functions copy_p and add_p'],
     'stateful property-based testing (Hypothesis call histories) against a NumPy matrix', TRUST)

prop('C28', 'dream_apodwin returns the documented windows',
     'dream_apodwin returns for every method, length and parameter the window function that the array functions use as element weight, sampled at 1-2n/N for n = 0..N-1 (symmetric about sample N/2), ones for off, and the given weights for ud.',
     ['inputs'], 'all methods, lengths and parameters', 'No test calls dream_apodwin.', ['oct/oct_dream_apodwin.cc', 'src/arr_functions.cc'],
     [('apodization', 'src/arr_functions.cc')], ['the Octave function dream_apodwin'], PBT + 'a NumPy model of the windows', TRUST)

prop('C29', 'Results do not depend on what the process computed before',
     'Any sequence of toolbox calls in one process, including failing ones and ones that stop on an error, gives for each call the same bits (results computed with FFTs: the same values within floating-point accuracy) as that call gives in a fresh process, and never modifies an argument except the output matrix of in-place functions.',
     ['histories'], 'all interleavings of calls to all functions with valid, failing and out-of-window arguments', 'Every test script makes one or two calls per process.',
     ['src/dreamrect.cc', 'src/attenuation.cc', 'include/fft.h', 'extra_src/oct_fftconv_p.cc', 'include/das.h'],
     [('static running flags', 'src'), ('global FFT wisdom and plans', 'include/fft.h')], PYOCT,
     'stateful property-based testing (Hypothesis call histories) against fresh-process results', 'Sampled histories.')

prop('C30', 'Malformed arguments are rejected without computing',
     'A call whose arguments have a wrong number, shape or type, an unknown method, error level or mode name, or a delay, focus, weight or grid vector of the wrong length reports an error (raises it or prints it) and returns no result; it never crashes the process and never returns numbers. '
     'The next correct call works.',
     ['inputs'], 'all functions and all single malformations of a valid argument list', 'Tests only make correct calls.',
     ['include/arg_parser.h', 'include/arg_parser_python.h', 'extra_src/oct_das.cc', 'extra_src/oct_fftconv_p.cc'], [('ArgParser', 'include/arg_parser.h')], PYOCT,
     'structured fuzzing (Hypothesis): valid calls mutated in one argument', 'Sampled mutations.')

prop('C31', 'No call reads or writes outside its buffers',
     'For every call, valid or rejected, within or outside the window, no function reads or writes outside the memory of its arguments, results and own buffers, uses freed or uninitialised memory, or performs undefined arithmetic on indices.',
     ['inputs', 'configurations', 'histories'], 'all functions, sizes, options, error levels and thread counts', 'Tests run without sanitizers on a few benign sizes.',
     ['src', 'extra_src', 'include', 'oct', 'python'], [('index checks and buffer sizes', 'src, extra_src, include')], PYOCT,
     'structured fuzzing (Hypothesis) of an AddressSanitizer and UndefinedBehaviorSanitizer build', 'Sampled inputs; sanitizers see heap, stack and global accesses of the toolbox code.')

prop('C32', 'Parallel computation is free of data races',
     'No two threads of one call access the same memory without synchronisation unless both only read, for every function and split of the work.',
     ['schedules', 'inputs'], 'all threaded functions, numbers of points and threads, attenuated or not, normal and stopping runs', 'Tests cannot observe races.',
     ['src', 'extra_src', 'include/fft.h', 'src/affinity.cc'], [('disjoint column ranges per thread', 'src, extra_src'), ('atomic running flag', 'src')], ['C++ level entry points'],
     'property-based generation of calls under ThreadSanitizer', 'Happens-before race detection on sampled calls.')

prop('C33', 'Python and Octave return the same numbers',
     'For every function available in both languages the same arguments give bit-identical responses in Python and in Octave, and the same calls succeed or fail in both; memory layout (row- or column-major), row or column orientation of parameter vectors make no difference.',
     ['inputs', 'configurations'], 'all shared functions with all options, argument layouts, error levels', 'The test scripts of the two languages are never compared.',
     ['python/src', 'oct', 'include/arg_parser.h', 'include/arg_parser_python.h'], [('gateway functions', 'python/src, oct')], PYOCT,
     'differential property-based testing (Hypothesis) between the two bindings', 'Sampled.')

prop('C34', 'OpenCL results equal the CPU results',
     'Every function with an OpenCL path (das in all methods and both precisions, dreamrect, dreamcirc, rect_sir, and das_uni, which has only that path) gives on the device the values the CPU algorithm gives for the same elements and points, within the accuracy of the device functions, for any number of observation points, for scalar and per-point delays, with and without attenuation, and whatever calls came before. Out-of-window parts contribute nothing (the device code has no error reporting).',
     ['inputs', 'configurations'], 'all inputs the device path accepts', 'The OpenCL build is never run by the tests.',
     ['opencl/cl_das.cc', 'opencl/das_double.cl', 'opencl/das_float.cl', 'opencl/dreamrect.cl', 'opencl/dreamcirc.cl', 'opencl/rect_sir.cl', 'opencl/cl_dreamrect.cc', 'opencl/das_uni_double.cl', 'extra_src/oct_das_uni.cc', 'include/das_uni.h'],
     [('kernels', 'opencl')], ['das in Python and Octave, das_uni, dreamrect, dreamcirc and rect_sir in Octave'],
     PBT + 'the NumPy models of the CPU algorithms, the OpenCL kernels running on a CPU OpenCL device', 'Uses the pocl CPU device through a shim that answers the request for a GPU.')

prop('C35', 'The helper scripts compute what they document',
     'arr_focus_delays returns for every grid the focusing delays the array functions use, and h2o_soundspeed the documented polynomial for the sound speed of water, for scalars, vectors and matrices alike.',
     ['inputs'], 'all grids, focal depths and methods; all temperatures', 'No test calls them.', ['m_files/arr_focus_delays.m', 'm_files/h2o_soundspeed.m'],
     [('m-files', 'm_files')], ['the Octave m-files'], PBT + 'a NumPy model', TRUST)

prop('C36', 'Repeated calls do not accumulate memory or threads',
     'Calling any function again and again in one process, with changing sizes and with failing calls, does not make the memory in use grow with the number of calls, and leaves no thread behind.',
     ['histories'], 'all functions, call counts and outcomes', 'Test processes make a few calls and exit.',
     ['src', 'extra_src', 'include/fft.h', 'include/attenuation.h'], [('allocation of per-thread data and FFT plans', 'src, include/fft.h')], PYOCT,
     'property-based generation of call histories with resource accounting', 'Growth is measured over hundreds of repetitions against a fixed bound.')

prop('C37', 'An interrupt stops a computation without damaging the session',
     'SIGINT during a long computation of a transducer response (and of das in Python) makes the call return early with an error and no result, from any number of threads; the process survives and the next call computes the same bits as before. After any call, SIGINT raises KeyboardInterrupt in Python again.',
     ['crash_points', 'schedules'], 'all threaded functions, interrupt times and thread counts', 'No test sends a signal.',
     ['src/dreamrect.cc', 'extra_src/das.cc', 'python/src/py_dreamrect.cc'], [('abort handlers and running flag', 'src')], PYOCT,
     'fault injection (generated interrupt times) with property-based testing', 'Sampled interrupt times.')

prop('C38', 'The MATLAB gateways compute what the Octave functions compute',
     'Every MEX gateway (transducers, arrays, analytic responses, dream_att, dream_apodwin, das, das_uni, the convolutions, copy_p) returns for the same arguments the same numbers and error codes as the Octave function of that name, succeeds or fails for the same calls, modifies exactly the in-place argument and no other, and rejects malformed calls. With a "gpu" device das and das_uni return the images of the CPU algorithm, whatever calls came before.',
     ['inputs', 'configurations', 'histories'], 'all functions and arguments, in-place modes, thread counts and sequences of das calls', 'The tests never build the MEX gateways.',
     ['mex/mex_dreamrect.cc', 'mex/mex_dream_arr_annu.cc', 'mex/mex_dream_att.cc', 'extra_src/mex_das.cc', 'extra_src/mex_fftconv_ola.cc', 'extra_src/mex_copy_p.cc', 'extra_src/mex_das_uni.cc', 'include/arg_parser.h'],
     [('mexFunction', 'mex, extra_src/mex_*.cc')], ['the MEX gateways, compiled against the MEX interface of Octave'],
     'differential property-based testing (Hypothesis) between the MEX gateways and the Octave functions',
     'Sampled. MATLAB is not installed: the gateways are built with the repository\'s mex/CMakeLists.txt against the mex.h of Octave (lib/gw) and run in Octave.')

prop('C39', 'The Julia gateways compute what the Python functions compute',
     'Every Julia gateway (transducers, arrays, das in both precisions, conv_p, fftconv_p) returns for the same arguments the same numbers as the Python (convolutions: Octave) function of that name, succeeds or fails for the same calls, leaves its arguments unchanged, and rejects malformed calls. With a "gpu" device das returns the image of the CPU algorithm.',
     ['inputs', 'configurations'], 'all functions and arguments and thread counts', 'The tests never build the Julia gateways.',
     ['julia/src/jl_dreamrect.cc', 'julia/src/jl_dream_arr_annu.cc', 'julia/include/jl_das.hpp', 'julia/src/jl_conv_p.cc', 'julia/src/jl_fftconv_p.cc', 'include/arg_parser_julia.h'],
     [('gateway functions', 'julia/src, julia/include')], ['the functions the Julia gateways register, compiled against a stand-in of CxxWrap'],
     'differential property-based testing (Hypothesis) between the Julia gateways and the Python / Octave functions',
     'Sampled. Julia and CxxWrap are not installed: the gateways are built with the repository\'s julia/CMakeLists.txt against a stand-in of the Julia array interface (lib/gw), so the Julia side (dispatch, garbage collection) is not covered.')


def main():
    have = lambda i: os.path.exists(os.path.join(V, 'checks', i + '.py'))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p, *_ in P:
            p['statement'] = p['statement'].strip()
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
    for p, tech, note, claimed, reason in P:
        if claimed and have(p['id']):
            c = './check ' + p['id']
            th = c + ' --thorough'
            m['checks'].append(dict(property=p['id'], quick_cmd=c, thorough_cmd=th, technique=tech, level='exploration', level_note=note))
        else:
            m['not_applicable'].append(dict(property=p['id'], reason=reason or 'The check is still being built.'))
    m['notes'] = 'Each check builds what it needs from /repo with the repository\'s own CMake files into /verif/build (keyed by a hash of the sources). No hooks are needed.'
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
