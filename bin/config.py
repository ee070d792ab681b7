"""Per property: executions (phases), case counts, texts for the evidence and the manifest."""
def ph(variant, quick, thorough, **kw):
    return dict(variant=variant, quick=quick, thorough=thorough, **kw)

PROPS = {
    'C01': dict(level='exploration', phases=[ph('asan', 18000, 200000)],
        technique='AddressSanitizer + UndefinedBehaviorSanitizer over randomized calls with exact-size buffers',
        rule='random call of one of the five transforms with random documented options, all arrays of exactly the documented length; non-trivial: the call returned success'),
    'C02': dict(level='exploration', phases=[ph('plain', 10000, 200000), ph('msan', 5000, 60000, name='C02m')],
        technique='MemorySanitizer; differential execution with opposite heap/stack/output fill patterns and different call histories, compared bitwise',
        rule='the same random call executed twice (memory filled with 0x00 / 0xFF, other calls in between), or once under MemorySanitizer; non-trivial: the call returned success'),
    'C03': dict(level='exploration', phases=[ph('tsan', 600, 20000, parallel=3), ph('plain', 2000, 40000, parallel=3)],
        technique='ThreadSanitizer; concurrent calls compared bitwise with the same calls made alone',
        rule='2-4 threads performing 3 random calls each (or the same calls on shared inputs), twice; every case is non-trivial'),
    'C04': dict(level='exploration', phases=[ph('plain', 30000, 200000)],
        technique='read-only pages for pure inputs, byte comparison of options and defaults around every call (also failing ones)',
        rule='random call (valid, invalid, or with a failing allocation); non-trivial: all'),
    'C05': dict(level='exploration', phases=[ph('asan', 1500, 30000)],
        technique='fault injection: every allocation of a call fails in turn, alone and with all later ones, under ASan+UBSan with an allocation ledger',
        rule='random small call whose allocations are enumerated; non-trivial: at least one allocation and success without faults'),
    'C06': dict(level='exploration', phases=[ph('plain', 30000, 200000)],
        technique='allocation ledger (link-time interposition of malloc/calloc/realloc/free) checked after every call',
        rule='random valid or invalid call; non-trivial: all'),
    'C07': dict(level='exploration', phases=[ph('asan', 40000, 100000)],
        technique='negative testing monitor: one precondition of a valid call is violated; return code and output bytes are checked, under ASan+UBSan',
        rule='random valid call with one violated precondition; non-trivial: all'),
    'C08': dict(level='exploration', phases=[ph('plain', 40000, 100000)],
        technique='monitor on the message function, the return codes and the standard streams',
        rule='random call (valid, invalid, failing allocation), with or without a message function; non-trivial: all'),
    'C09': dict(level='exploration', phases=[ph('plain', 8000, 100000)],
        technique='conservation-law monitor on every spectral sample, output layouts and sub-grids compared with each other',
        rule='random signal, discretization, grid and sign; the three output types and a sub-grid are requested; non-trivial: nonzero signal'),
    'C10': dict(level='exploration', phases=[ph('plain', 12000, 60000)],
        technique='online comparison with an independent implementation of the documented step matrices; convergence-order monitor against a Magnus integrator',
        rule='random signal, discretization, grid and sign; every value of a and b is compared, or the error is observed on two grids; non-trivial: nonzero signal / order observable'),
    'C11': dict(level='exploration', phases=[ph('plain', 2000, 60000)],
        technique='metamorphic monitor: results of transformed signals against transformed results',
        rule='random signal and discretization, six exact symmetries applied (continuous and discrete spectrum); non-trivial: nonzero signal / at least one eigenvalue'),
    'C12': dict(level='exploration', phases=[ph('plain', 2400, 30000)],
        technique='oracle monitor: independent evaluation of a, its derivative, the Jost solutions and the argument principle; closed-form spectra; energy balance',
        rule='random focusing signal, discretization and localization method; every eigenvalue, norming constant and residue is judged; non-trivial: at least one eigenvalue'),
    'C13': dict(level='exploration', phases=[ph('plain', 1200, 20000)],
        technique='differential monitor: filtered, limited and refined results against the unfiltered, unlimited result of the same signal',
        rule='random focusing signal, discretization, localization method, all filters, several capacities; non-trivial: at least one candidate'),
    'C14': dict(level='exploration', phases=[ph('plain', 2400, 60000)],
        technique='online comparison with independently combined full-resolution and subsampled results; error monitor against exact or highly accurate spectra',
        rule='random signal, discretization and grid for the three vanishing-boundary transforms; every extrapolated value is judged; non-trivial: nonzero signal / at least one bound state'),
    'C15': dict(level='exploration', phases=[ph('plain', 6000, 80000)],
        technique='online comparison with an independent implementation of the documented KdV step matrices; conservation and symmetry monitors; convergence-order monitor',
        rule='random real signal, discretization and grid; every value of a, b and the reflection coefficient is judged; non-trivial: nonzero signal'),
    'C16': dict(level='exploration', phases=[ph('plain', 2200, 40000)],
        technique='oracle monitor: independent zero search of a on the imaginary axis, Jost solutions for norming constants and residues, closed-form soliton spectra',
        rule='random real signal with bound states, discretization and localization method; every bound state is judged, and every zero of a has to be found; non-trivial: at least one bound state'),
    'C17': dict(level='exploration', phases=[ph('plain', 3000, 60000)],
        technique='online comparison with an independent implementation of the documented Manakov step matrices; conservation, reduction and rotation monitors; convergence-order monitor',
        rule='random two-component signal, discretization, grid and sign; every value is judged; non-trivial: nonzero signal'),
    'C18': dict(level='exploration', phases=[ph('plain', 600, 12000)],
        technique='oracle monitor: every reported bound state against independently evaluated a, completeness by the argument principle, filter relations',
        rule='random focusing two-component signal and discretization; every bound state is judged; non-trivial: at least one bound state'),
    'C19': dict(level='exploration', phases=[ph('plain', 2400, 60000)],
        technique='oracle monitor: every reported point against the independently evaluated trace of the monodromy matrix, completeness by the argument principle, closed-form plane-wave spectra, transformed signals',
        rule='random periodic signal with phase rotation, discretization and localization method; every main spectrum or spine point is judged, rectangles are counted; non-trivial: at least one point'),
    'C20': dict(level='exploration', phases=[ph('plain', 2400, 60000)],
        technique='oracle monitor for the auxiliary spectrum (argument principle); differential monitor for boxes, counts and capacities',
        rule='random periodic signal, discretization, localization method, filter and capacities; every auxiliary point and every box and count is judged; non-trivial: at least one point'),
    'C21': dict(level='exploration', phases=[ph('plain', 5600, 100000)],
        technique='round-trip monitor: signals recovered from independently computed spectra, layer peeling in extended precision, forward scattering of b-modulated signals, convergence order, linear limit, phase rotation',
        rule='random signal or spectrum, discretization, type of spectrum, inversion method and sign; every generated signal is judged; non-trivial: all but invalid reflection coefficients'),
    'C22': dict(level='exploration', phases=[ph('plain', 3200, 100000)],
        technique='oracle monitor: closed-form K-fold Darboux transform in extended precision; independent forward scattering of the generated signals',
        rule='random bound states, norming constants or residues, seed or continuous spectrum; every generated signal is judged; non-trivial: all'),
    'C23': dict(level='exploration', phases=[ph('plain', 20000, 400000, exe='monx'), ph('asan', 2000, 30000, exe='monx')],
        technique='oracle monitor: products of polynomials and polynomial matrices against direct evaluation in extended precision; AddressSanitizer + UndefinedBehaviorSanitizer on exact-size buffers',
        rule='random number of factors, degrees, magnitudes, normalization; the product is judged coefficient by coefficient or by values; non-trivial: all but zero polynomials'),
    'C24': dict(level='exploration', phases=[ph('plain', 60000, 1500000, exe='monx'), ph('asan', 8000, 100000, exe='monx')],
        technique='oracle monitor: direct evaluation in extended precision, round trips, metamorphic relations; AddressSanitizer + UndefinedBehaviorSanitizer on exact-size buffers',
        rule='random polynomial, spiral, signal or list of points handed to a numerical building block; every output value is judged; non-trivial: all'),
    'C25': dict(level='exploration', phases=[ph('plain', 30000, 600000, exe='monx'), ph('asan', 2000, 30000, exe='monx')],
        technique='oracle monitor: reported roots against constructed roots, backward error in extended precision, completeness by counting sign changes and crossings',
        rule='random polynomial with known or unknown roots; every root and every missing root is judged; non-trivial: at least one root'),
    'C26': dict(level='exploration', phases=[ph('plain', 24000, 400000, exe='monx'), ph('asan', 2000, 30000, exe='monx')],
        technique='round-trip monitor: samples recovered from transfer matrices; spectral factors judged on the unit circle with an independently computed aliasing bound and by their winding number',
        rule='random signal or polynomial; every sample is compared, every factor is judged on a dense grid; non-trivial: nonzero signal / well-posed factorization'),
    'C27': dict(level='exploration', phases=[ph('plain', 24000, 400000, exe='monx'), ph('asan', 2000, 30000, exe='monx')],
        technique='invariant monitor on transfer matrices: determinant, composition, symmetries, Cauchy-integral derivative, scaling, batch independence, extended-precision reference',
        rule='random samples, discretization and spectral parameters for the slow and fast scattering of the NSE, KdV and Manakov equations; every matrix is judged; non-trivial: all'),
    'C28': dict(level='exploration', phases=[ph('plain', 8000, 200000)],
        technique='differential monitor: the same call with fewer or more outputs, larger arrays, other layouts, other normalization',
        rule='random valid call requesting everything, and up to eight reduced or enlarged requests; every common value is compared; non-trivial: the call succeeded'),
}
