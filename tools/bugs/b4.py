# fourth batch: internal building blocks
N='src/private/'
BUGS=[
dict(id='t01',prop='C24',edits=[(N+'fnft__misc.c','const UINT nskip_per_step = (UINT) ROUND((REAL)D / Dsub);\n    Dsub','const UINT nskip_per_step = D / Dsub;\n    Dsub')]),
dict(id='t02',prop='C24 C20',edits=[(N+'fnft__misc.c','if (!(FABS(CIMAG(vals[i])) > tol_im))','if (!(CIMAG(vals[i]) > tol_im))')]),
dict(id='t03',prop='C24',edits=[(N+'fnft__misc.c','    for (j=0; j<lenB; j++) {\n        dist = INFINITY;\n        for (i=0; i<lenA; i++) {','    for (j=0; j<lenB; j++) {\n        for (i=0; i<lenA; i++) {')]),
dict(id='t04',prop='C23',edits=[(N+'fnft__poly_fmult.c','    *d = deg - n_excess*(*d);\n    if (W_ptr != NULL)\n        *W_ptr = W;','    *d = deg - n_excess*(*d);\n    if (W_ptr != NULL)\n        *W_ptr += W;',0)]),
dict(id='t05',prop='C23',edits=[(N+'fnft__poly_fmult.c','memset(&buf0[deg+1], 0, (len - (deg+1))*sizeof(COMPLEX));','memset(&buf0[deg+1], 0, deg*sizeof(COMPLEX));')]),
dict(id='t06',prop='C24',edits=[(N+'fnft__poly_chirpz.c','fft_wrapper_next_fft_length(N + M - 1)','fft_wrapper_next_fft_length(N + M - 2)')]),
dict(id='t07',prop='C09 C24 C10',edits=[(N+'fnft__poly_chirpz.c','fft_wrapper_next_fft_length(N + M - 1)','fft_wrapper_next_fft_length(N > M ? 2*N : N + M - 1)')]),
dict(id='t08',prop='C24',edits=[(N+'fnft__misc.c','    UINT result = 1;\n    while (result < number)','    UINT result = 1;\n    while (result <= number - (number > 64))')]),
dict(id='t09',prop='C24',edits=[(N+'fnft__misc.c','    return 2.0 / (CEXP(Z) + CEXP(-Z));','    return 1.0 / CCOSH(Z);')]),
dict(id='t10',prop='C19 C20',edits=[('src/fnft_nsep.c','Dsub = (UINT) POW(2.0, ROUND(LOG2(Dsub)));','Dsub = Dsub;')]),
dict(id='t11',prop='C10 C09',edits=[(N+'fnft__nse_discretization.c','if (nse_discretization == nse_discretization_2SPLIT2A ||\n        nse_discretization == nse_discretization_2SPLIT2_MODAL) {','if (nse_discretization == nse_discretization_2SPLIT2A) {')]),
dict(id='t12',prop='C24 C10',edits=[(N+'fnft__misc.c','for (i = 0; i < (D+1)/2; i++)\n        freq[i] = i/scl_factor;\n    for (i = (D+1)/2; i < D; i++)','for (i = 0; i < D/2 + D%4/3; i++)\n        freq[i] = i/scl_factor;\n    for (i = D/2 + D%4/3; i < D; i++)')]),
]
