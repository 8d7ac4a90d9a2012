"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB, DP = 'src/pynlo/light/PulseBase.py', 'src/pynlo/light/DerivedPulses.py'
FI, FC, FJ = 'src/pynlo/media/fibers/fiber.py', 'src/pynlo/media/fibers/calculators.py', 'src/pynlo/media/fibers/JSONFiberLoader.py'
SS = 'src/pynlo/interactions/FourWaveMixing/SSFM.py'
OD = 'src/pynlo/util/ode_solve/'
TW = 'src/pynlo/interactions/ThreeWaveMixing/'
CR = 'src/pynlo/media/crystals/'
FF = 'src/pynlo/util/pynlo_ffts.py'
BE, WG, GC = 'src/pynlo/light/beam.py', 'src/pynlo/light/high_V_waveguide.py', 'src/pynlo/devices/grating_compressor.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, note, technique='property-based testing (Hypothesis) against a reference model'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))


prop('P01', 'Pulse grids stay mutually consistent under any sequence of changes',
     'After any sequence of changes of number of points, time or frequency window, centre wavelength and repetition rate, in picosecond/nanometre/THz or SI units and interleaved with reads, every time, frequency, offset-frequency and wavelength axis and every scalar a pulse reports equals the one defined by its current settings (a pulse that has none refuses). '
     'The time axis starts at minus half the window and is equally spaced, the frequency axes are equally spaced by the reciprocal of the window around the centre frequency, and the SI and practical-unit forms of each quantity agree. '
     'Arrays handed out are the caller\'s own: changing them does not change what the pulse reports later.',
     ['histories', 'inputs'], 'All sequences of setters and reads; grids of 2 to 3000 points, windows 0.05 to 500 ps, centres 200 to 10000 nm; grids of every analytic pulse class.',
     'The tests read each axis once from one freshly built pulse; cached axes that survive a later change need a change after a read.',
     [PB, DP], [('cached grid axes and their invalidation', PB + ': __get_W, __get_T, __get_V, set_* methods')],
     'Random setter/read histories against a closed-form grid model, relative tolerance about 1e-9.')
prop('P02', 'Time and frequency fields are one Fourier pair on the reported axes',
     'For every grid and every complex field, the time-domain and frequency-domain fields of a pulse are the discrete Fourier transform of each other on the axes it reports, whichever of the two was set, with an energy that is the same in both domains. '
     'Setting one field replaces both, and neither arrays passed in nor arrays read out are shared with the pulse.',
     ['inputs', 'histories'], 'All fields on grids of 2 to several hundred points (even and odd), all sequences of sets, reads and in-place changes of caller arrays, transforms along either axis of two-dimensional arrays.',
     'The tests look at the peak and width of two sech pulses; sign, shift, normalisation and aliasing errors cancel there.',
     [PB, FF], [('storage in one domain and transform on access', PB + ': set_AW, set_AT, _get_AW, _get_AT'), ('shifted FFTs', FF)],
     'Oracle: directly summed Fourier series, independent of any FFT; relative tolerance about 1e-9.',
     'property-based testing (Hypothesis) against a directly summed transform')
prop('P03', 'Pulse energy and average power are what was asked for',
     'The energy a pulse reports is the integral of its power over the time window, and scaling a pulse to a requested energy produces that energy without changing its shape or phase. '
     'A pulse generated from a requested average power and repetition rate has that average power, and one generated from a peak power has that peak power.',
     ['inputs'], 'All fields and grids; all pulse classes, widths, powers from microwatts to megawatts, chirps, repetition rates.',
     'One test checks one sech pulse with one power.',
     [PB, DP], [('energy quadrature and scaling', PB + ': calc_epp, set_epp'), ('power_is_avg branches', DP)],
     'Independent quadrature; relative tolerance 1e-6 or better.')
prop('P04', 'Generated pulses have the documented shape, phase and line position',
     'Sech, Gaussian and sinc pulses have the documented closed-form field with the requested width, centred in the time window, with the requested second- and third-order spectral phase and temporal chirp. '
     'A continuous wave occupies exactly one frequency bin, has the requested average power, and lies at the requested absolute wavelength to within half a bin, wherever the grid is centred; a line that would fall outside the grid is refused. '
     'Omitted arguments mean the documented defaults.',
     ['inputs'], 'All classes, widths, chirps, grid sizes, windows, centre and line wavelengths.',
     'Tests check three pulses without chirp (one CW).',
     [DP, PB], [('closed-form fields and chirp', DP), ('CW bin selection', DP + ': CWPulse.gen_OSA')],
     'Closed forms evaluated independently, chirp applied by direct summation.')
prop('P05', 'Phase, delay and chirp operations are exact and keep the energy',
     'Spectral chirps (about the pulse centre or any other given frequency), arbitrary spectral phases, temporal chirps and time offsets multiply the field by exactly the documented phase factor and so keep the energy, compose in any order, and are undone by the opposite operation. '
     'Removing the delay or the chirp of a pulse takes away the linear, or the linear and quadratic, spectral phase that best fits its bright part and leaves the spectral power unchanged.',
     ['inputs', 'histories'], 'All fields, grids, phase coefficients and sequences of operations.',
     'No test applies any of these operations.',
     [PB], [('phase operations', PB + ': chirp_pulse_W, chirp_pulse_T, apply_phase_W, add_time_offset, dechirp_pulse, remove_time_delay')],
     'Phase factors computed independently; tolerance about 1e-9, for estimated chirps about 1e-3.')
prop('P06', 'Changing the grid moves the field without altering it',
     'Enlarging the time window by a power of two places the old samples, unchanged, at the documented place in the new window and zeros elsewhere. '
     'Moving to a new centre wavelength, by rotation or interpolation, and cutting out a sub-grid keep every spectral component at its own absolute frequency (interpolated between bins where asked, zero outside the old band), and a wavelength filter keeps exactly the bins inside its band. '
     'Invalid requests raise an error and leave the pulse as it was.',
     ['inputs'], 'All fields, grids, factors, shifts (including beyond the old band), sub-grid sizes and bands.',
     'No test changes the grid of a pulse that has a field.',
     [PB], [('grid changes', PB + ': expand_time_window, rotate_spectrum_to_new_center_wl, interpolate_to_new_center_wl, create_subset_pulse, filter_by_wavelength_nm')],
     'Sample-by-sample comparison with an index model.')
prop('P07', 'Copied, saved and loaded pulses are equal and independent',
     'A copy of a pulse, by cloning, by creating a clone or through its dictionary form, equals the original in every grid and in the field, whatever grid the receiver had before, and later changes to one never show in the other; a pulse cloned from itself, or refused a copy of one without a field, stays as it was. '
     'A pulse written to a FROG-style text file and read back on the same grid has the same field up to a constant phase and the requested power; tabulated amplitude and phase are interpolated linearly in wavelength and are zero outside the table.',
     ['inputs', 'histories'], 'All pulses, all receivers (other sizes and windows), all later histories; all tables in any wavelength order.',
     'No test copies, saves or loads a pulse.',
     [PB, DP], [('copying', PB + ': clone_pulse, get_pulse_dict, load_pulse_dict, create_cloned_pulse'), ('files', PB + ': write_frog; ' + DP + ': FROGPulse')],
     'Equality to 1e-12 for copies; file round trips to the precision written.')
prop('P08', 'Added quantum noise has the documented statistics',
     'Noise added to a spectrum is independent from bin to bin, with uniformly distributed phase and normally distributed amplitude whose standard deviation is photon energy times bin width for one-photon noise and that times the square root of the photons in the bin for shot noise (so empty bins stay empty). '
     'Noise is reproducible from the random seed, is added to the field already there, and unknown types are rejected with the pulse unchanged.',
     ['inputs', 'histories'], 'All grids, fields and seeds; moments over thousands of bins per case.',
     'No test adds noise.',
     [PB], [('noise', PB + ': add_noise')],
     'Statistical: thresholds at more than six standard deviations with fixed seeds.',
     'property-based testing with statistical oracles')
prop('P09', 'Autocorrelation, mean frequency and spectrogram equal their definitions',
     'The intensity autocorrelation is the correlation of the intensity with itself; the weighted average frequency and wavelength are those of the power spectrum. '
     'A spectrogram equals the magnitude of the directly summed Fourier transform of the gated field on the returned delay and frequency axes, for fixed-width and self gates, and unknown gates are rejected.',
     ['inputs'], 'All fields and grids, gate widths, numbers of delays.',
     'No test computes any of them.',
     [PB], [('diagnostics', PB + ': calculate_intensity_autocorrelation, calculate_weighted_avg_*, spectrogram')],
     'Direct summation; relative tolerance about 1e-9.')
prop('P10', 'Fiber dispersion equals its definition at every frequency',
     'The propagation constant a fiber gives for a pulse equals the Taylor series of its coefficients about the fiber\'s reference wavelength, or the tabulated D curve, or the effective index times frequency over c, evaluated at the pulse\'s absolute frequencies whatever the pulse centre, with the value and slope at the pulse centre removed. '
     'The reported second-order dispersion and D parameter agree with that curve, and coefficients fitted from a D table generated by known coefficients are those coefficients.',
     ['inputs', 'configurations'], 'Coefficients of order 2 to 8 in ps^n/m or ps^n/km, pulse centres away from the reference wavelength, tables in arrays and files, all three dispersion formats, the shipped database fiber.',
     'No test reads the dispersion of a fiber.',
     [FI, FC, FJ], [('dispersion formats', FI + ': get_betas, load_dispersion, Beta2, Beta2_to_D'), ('table fit', FC + ': DTabulationToBetas')],
     'Independent series summation; tolerance 1e-6 of the grid-edge phase or better.')
prop('P11', 'Fibers are independent objects and describe their latest configuration',
     'Several fibers generated, loaded from databases or files and reconfigured in any order each keep describing their own latest configuration: name, length, dispersion, nonlinear coefficient and gain; unknown database names are refused without changing the fiber. '
     'Reading a fiber changes neither the fiber nor the pulse, and position-dependent dispersion and nonlinearity are evaluated at the position asked for.',
     ['histories'], 'All interleavings of configuring and reading several fibers.',
     'No test uses two fibers.',
     [FI, FJ], [('per-instance state', FI), ('database', FJ)],
     'Model-based histories, one model per fiber.', 'stateful property-based testing against a model')
prop('P12', 'Fiber gain is what was specified',
     'A scalar gain applies equally at every frequency and independently of the pulse. '
     'A tabulated gain is interpolated smoothly through the table, is zero outside it, and is scaled so that linear amplification of the pulse over the fiber length gives the requested output power.',
     ['inputs'], 'All gains, tables, fiber lengths, pulses and requested powers.',
     'No test uses gain.',
     [FI], [('gain', FI + ': get_gain')],
     'Spline and power integral computed independently.')
prop('P13', 'Linear propagation is exact',
     'Without nonlinearity the propagated field at every saved position equals the input spectrum multiplied by the exponential of gain and dispersion over that distance, at every frequency, whatever the step settings; the energy then follows the gain alone.',
     ['inputs', 'configurations'], 'All fields, dispersion coefficients, gains, lengths, step counts, solver settings.',
     'No test runs the split-step solver.',
     [SS, FI], [('linear step', SS + ': LinearStep, Calculate_expD'), ('loop', SS + ': propagate, integrate_over_dz')],
     'Closed form; output pulse to about 1e-7, saved columns to single precision.')
prop('P14', 'Nonlinear propagation solves the generalised nonlinear Schroedinger equation',
     'Propagation through a fiber, with the interaction-picture or the split-step method, gives, to within an error that shrinks with the requested local error and whatever the first trial step, the solution of the generalised nonlinear Schroedinger equation with dispersion, gain, Kerr effect, delayed Raman response and self-steepening, each of the last two only when enabled.',
     ['inputs', 'configurations'], 'Random pulses, dispersion, gain, nonlinear phase up to several radians, both Raman models and their parameters, every combination of switches, tolerances and initial steps.',
     'No test runs the split-step solver.',
     [SS], [('RK4IP step and nonlinear operator', SS + ': RK4IP, NonlinearOperator, Deriv'), ('Raman response', SS + ': CalculateRamanResponseFT'), ('adaptive step', SS + ': integrate_over_dz')],
     'Oracle: independent method-of-lines integration (scipy) with its own transforms and Raman response.',
     'differential property-based testing against an independent integrator')
prop('P15', 'Propagation conserves energy or photon number; Raman only red-shifts',
     'Without gain, the energy (self-steepening off, Raman off) or the photon number (self-steepening on) is conserved at every step, and with flat gain it follows that gain exactly. '
     'Enabling the Raman response moves the mean frequency of a pulse down, never up, and by the first-order rate over short distances.',
     ['inputs', 'histories'], 'All pulses, dispersion, gains, nonlinearities and switches, checked after every saved step.',
     'No test runs the split-step solver.',
     [SS], [('nonlinear operator', SS + ': NonlinearOperator'), ('Raman response', SS + ': CalculateRamanResponseFT')],
     'Drift bounded by the requested local error; Raman direction checked where the grid resolves the response.',
     'property-based testing of conservation laws')
prop('P16', 'Propagation respects the symmetries and exact solutions of the equation',
     'A circular time shift, a constant phase, rescaling of power, length or time against the matching fiber parameters, a change of repetition rate, and splitting the fiber in two commute with propagation, and propagating back through the fiber with all coefficients negated restores the input. '
     'Without dispersion a field acquires only its own instantaneous intensity as phase, and a fundamental soliton keeps its shape and acquires half its nonlinear phase.',
     ['inputs', 'configurations'], 'All pulses, fibers and transformations; intensities high enough that the first trial step fails.',
     'No test runs the split-step solver.',
     [SS], [('propagation', SS + ': propagate, integrate_over_dz, RK4IP')],
     'Metamorphic relations within the requested local error; closed forms.', 'metamorphic property-based testing')
prop('P17', 'Propagation results are consistent, repeatable and free of side effects',
     'Propagating returns equally spaced positions from zero to the fiber length and, for each step, one time and one frequency column that are transforms of each other, the last being the returned pulse. '
     'The input pulse and the fiber are unchanged, repeating the propagation (on a new or an already used solver) gives the same result, and neither the number of steps, nor the transform library or data order used internally, nor progress output changes the physics. A fiber of zero length hands the input through and leaves the solver usable.',
     ['inputs', 'histories'], 'All fields, fibers, step counts, solver settings and orders of reuse.',
     'No test runs the split-step solver.',
     [SS], [('result arrays and loop', SS + ': propagate, setup_fftw')],
     'Exact or single-precision comparison; reuse compared with a fresh solver.')
prop('P18', 'Position-dependent fibers are followed, or frozen, as requested',
     'When reloading the fiber at each step is requested, each step uses the dispersion and nonlinearity given at its own position along the fiber; otherwise the values at the input are used throughout.',
     ['inputs', 'configurations'], 'All dispersion (three formats) and nonlinearity profiles along the fiber, step counts, reload on or off.',
     'No test runs the split-step solver.',
     [SS, FI], [('reload', SS + ': load_fiber_parameters, propagate'), ('profiles', FI + ': get_betas(z), get_gamma(z)')],
     'Closed form for purely linear and purely nonlinear propagation.')
prop('P19', 'Coherence runs are reproducible and give the degree of coherence',
     'The computed degree of first-order coherence lies between zero and one and equals the normalised average over all pairs of the returned trial spectra, at every position and frequency, including very weak ones. '
     'Trials differ by the requested noise, are reproduced by the same random seed and differ for other seeds or without one, and requested output power and reloading are honoured.',
     ['inputs', 'configurations'], 'All fields, seeds, trial counts, noise types, step counts, fibers with gain.',
     'No test computes coherence.',
     [SS, PB], [('coherence', SS + ': calculate_coherence'), ('noise', PB + ': add_noise')],
     'Pair average recomputed directly from the returned trials.')
prop('P20', 'Amplifier runs reach the requested power',
     'Propagation to a gain goal returns a pulse whose average output power lies within the tolerance of the requested power wherever power grows smoothly with the scale factor so that successive estimates converge, together with the result of propagating through that amplifier.',
     ['inputs', 'configurations'], 'Gain tables, pulses, goals, nonlinearities that make the first guess miss.',
     'No test uses it.',
     [SS, FI], [('search', SS + ': propagate_to_gain_goal')],
     'Output power measured from the returned field.')
prop('P21', 'The adaptive integrator returns the true solution within tolerance',
     'Integrating a system of ordinary differential equations, real or complex, forwards or backwards, gives the exact solution to within a modest multiple of the requested tolerances, and tightening them reduces the error. '
     'Every accepted step is a Dormand-Prince 8(5,3) step whose error estimate is within tolerance, and rejected steps (including ones that overflowed) are retried smaller. '
     'A solution that cannot be continued, a step below the allowed minimum or too many steps raise an error instead of returning.',
     ['inputs', 'configurations', 'histories'], 'Families of linear, oscillating, rational and stiff systems with known solutions, tolerances 1e-11 to 1e-2, trial steps from tiny to many times the range.',
     'One test integrates one oscillator with one setting.',
     [OD + 'steppers.py', OD + 'dopr853.py', OD + 'dopr853_controller.py', OD + 'dopr853_constants.py'], [('driver', OD + 'steppers.py: ODEint'), ('step, error and interpolation', OD + 'dopr853.py'), ('step-size control', OD + 'dopr853_controller.py')],
     'Closed-form solutions and an independent implementation of the same pair (scipy DOP853) step by step.',
     'property-based testing against closed forms and a reference implementation')
prop('P22', 'Integrator output is complete, ordered and independent between integrations',
     'Dense output holds exactly the requested number of equally spaced positions from start to end, starting with the initial state and ending with the final one, each value being the solution there; saving at steps holds the initial state and every accepted step once, in order, for any number of steps; no output holds nothing and still returns the final state. '
     'Unsupported combinations are refused, the data type is kept, and integrations running at the same time, or one after another into the same Output, do not influence each other.',
     ['inputs', 'histories', 'schedules'], 'All save counts (also beyond the initial storage), modes, directions, data types and interleavings of integrations.',
     'One test reads one dense output.',
     [OD + 'steppers.py', OD + 'dopr853_controller.py'], [('output storage', OD + 'steppers.py: Output'), ('controller state', OD + 'dopr853_controller.py')],
     'Positions compared exactly, values against closed forms, interleaved runs bit for bit.')
prop('P23', 'Three-wave mixing conserves energy and photon number',
     'In a waveguide of constant mode area and a lossless crystal, for arbitrary broadband pump, signal and idler fields at any position, power gained by signal and idler is lost by the pump, and photons gained by signal and idler are equal in number to photons lost by the pump; after integration through a poled crystal both balances still hold.',
     ['inputs', 'histories'], 'Random broadband fields, grids, crystals, temperatures, poling, positions; integrated pulses with substantial conversion.',
     'Two tests compare the gain of one continuous wave with a formula.',
     [TW + 'DFG_integrand.py', BE, WG], [('coupled equations', TW + 'DFG_integrand.py: deriv, gen_jl'), ('power/field conversion', WG + ': rtP_to_a')],
     'Algebraic conservation to about 1e-9 of the exchanged power; integrated to about 1e-6.',
     'property-based testing of conservation laws')
prop('P24', 'Three-wave mixing evaluates the coupled-wave equations',
     'The rate of change of each field, at any position and for any fields, equals the sum over all frequency triples of the coupled-wave equations with the dispersion, beam size (free-space focus or waveguide), Gouy phase, nonlinear coefficient and poling of the problem, and does not depend on earlier evaluations. '
     'Three continuous waves integrated through a poled crystal agree with an independent solution of the three-wave equations.',
     ['inputs', 'configurations', 'histories'], 'Random fields, grids, crystals of both kinds, beams, positions, Gouy phase on or off, caching on or off.',
     'Two tests compare one continuous-wave gain, to a few percent, on one grid.',
     [TW + 'DFG_integrand.py', BE, WG, CR + 'CrystalContainer.py'], [('coupled equations', TW + 'DFG_integrand.py: deriv, gen_jl, fftcomputer')],
     'Direct triple sum without FFTs; relative tolerance about 1e-8.',
     'differential property-based testing against direct summation')
prop('P25', 'Three-wave problems and results are isolated and faithful',
     'A mixing problem copies its inputs, places the idler at the difference frequency, starts from the given fields (with an empty idler unless one is given), and refuses fields whose bands overlap or whose sizes differ. '
     'The result gives at each saved position the fields with the dispersion up to that position put back, in the frame moving with the pump\'s phase velocity, for any order of reads, without altering the solver\'s data.',
     ['inputs', 'histories'], 'All inputs, later changes to inputs and to the problem, grids with and without overlap, orders of reading.',
     'The tests read the last signal and idler once.',
     [TW + 'DFG_integrand.py', TW + 'field_classes.py'], [('problem set-up', TW + 'DFG_integrand.py: dfg_problem.__init__'), ('results', TW + 'DFG_integrand.py: process_stepper_output, dfg_results_interface'), ('containers', TW + 'field_classes.py')],
     'Exact comparison for isolation, independent dispersion for results.')
prop('P26', 'Saved three-wave runs are read back as written',
     'Runs written to a file, under one or several parameters, over existing files and over existing data, are read back with their parameter value, positions, fields and repetition rate, run by run in order, and reading past the last run raises an index error.',
     ['inputs', 'histories'], 'Sequences of writers, runs, parameters and reads.',
     'No test writes a file.',
     [TW + 'multi_run_rw.py'], [('writer and reader', TW + 'multi_run_rw.py')],
     'Round trip compared with the solver\'s own output.', 'model-based round-trip testing')
prop('P27', 'Poled domains have the sign and length of the poling that was set',
     'At every position of the crystal the sign of the nonlinearity is that of a domain pattern laid out period by period from the poling period given as a number, a pair of period and wavelength, a linear chirp over the crystal length, or a function of position, each domain being half the period at its start, for positions visited in any order. In a crystal that is not poled the sign is positive throughout.',
     ['inputs'], 'All periods, chirps, functions, crystal lengths and positions, in any order.',
     'The tests use one constant period.',
     [TW + 'DFG_integrand.py', CR + 'CrystalContainer.py', CR + 'XTAL_PPLN.py'], [('poling', TW + 'DFG_integrand.py: poling, precompute_poling'), ('setters', CR + 'CrystalContainer.py: set_pp_chirp; ' + CR + 'XTAL_PPLN.py: set_pp')],
     'Sign compared away from domain walls by a small guard band.')
prop('P28', 'Crystal indices and dispersion are the published ones for the current state',
     'The refractive index of a crystal equals the published Sellmeier equation of its material for the current temperature, data source, axis and angle, group velocity, group delay and dispersion parameter equal derivatives of that index, and the nonlinear coefficient is that of the material. '
     'This holds for index and wave number on pulse grids after any sequence of changes to several crystals and pulses, with caching on or off.',
     ['inputs', 'histories'], 'Wavelengths over the transparency range, temperatures 15 to 220 C, angles, and histories of several crystals and pulses.',
     'The tests use one crystal at one temperature.',
     [CR + 'XTAL_PPLN.py', CR + 'XTAL_AgGaSe2.py', CR + 'XTAL_AgGaS.py', CR + 'CrystalContainer.py'], [('Sellmeier equations', CR + 'XTAL_*.py: n'), ('caches', CR + 'CrystalContainer.py: get_pulse_n, get_pulse_k')],
     'Equations written out again from the publications; derivatives by complex step.')
prop('P29', 'Phase-matching calculations satisfy the phase-matching condition',
     'The poling period calculated for three waves makes the wave-vector mismatch, and any requested phase over the crystal, vanish; the signal found for a given grating and the angle found for birefringent phase matching satisfy the same condition, and an angle is found exactly when one exists. '
     'The acceptance bandwidth is the smaller of the two set by the group-velocity differences over the crystal length.',
     ['inputs'], 'Pump, signal and idler wavelengths (any one left out), temperatures, crystal lengths, angles.',
     'One test uses one calculated period.',
     [CR + 'XTAL_PPLN.py', CR + 'XTAL_AgGaSe2.py', CR + 'XTAL_AgGaS.py', CR + 'CrystalContainer.py'], [('calculators', CR + 'XTAL_PPLN.py: calculate_poling_period; ' + CR + 'XTAL_AgGa*.py: phasematch; ' + CR + 'CrystalContainer.py: invert_dfg_qpm_to_signal_wl, calculate_mix_phasematching_bw')],
     'The condition is evaluated with independently written indices.')
prop('P30', 'Beams follow Gaussian optics, in vacuum and in crystals',
     'Spot size, radius of curvature, Gouy phase, Rayleigh range and confocal parameter equal those of the complex beam parameter for the beam\'s waist, wavelength and index, at any distance before or behind the focus and at every wavelength of a pulse. '
     'Conversion between power and field, matching of waists, and mode overlap of two beams in a crystal equal their defining integrals, the waist for best overlap maximises that integral (also for beams of equal color), and a waveguide mode keeps its area everywhere.',
     ['inputs'], 'Waists, distances, wavelengths, indices, crystals, pairs of beams.',
     'No test checks a beam directly.',
     [BE, WG], [('Gaussian beam', BE), ('waveguide mode', WG)],
     'Complex-q formulas; relative tolerance about 1e-9.')
prop('P31', 'Grating compressor dispersion is that of the geometry',
     'The diffraction angle obeys the grating equation (with colors that have no first order given grazing diffraction), and the group delay and the second- to fifth-order dispersion of a double pass equal derivatives of the optical path between the gratings for that line density, incidence angle, separation and wavelength. '
     'Applied to a pulse, the compressor gives it exactly the integrated group delay as spectral phase, keeps its spectrum and is proportional to the separation.',
     ['inputs'], 'Line densities, angles, wavelengths, separations for which a diffracted order exists.',
     'One test checks one angle and one second-order value.',
     [GC], [('compressor', GC)],
     'Ray tracing differentiated by contour integrals.')

WHY = ' The property quantifies over all of them, so no fixed set of examples settles it.'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'] + WHY,
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --thorough' % p['id'],
                      technique=p['technique'], level='exploration',
                      level_note=p['note'] + ' Generated-input search: evidence, not proof, outside the cases drawn.') for p in P],
         not_applicable=[],
         notes='No hooks. Library code is imported from /repo/src; nothing is built. known_findings.txt lists repaired defects.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P))
