# third batch, written from the statements and the code alone; screened with the quick checks
N='src/fnft_nsev.c'; P='src/fnft_nsep.c'; K='src/fnft_kdvv.c'; MK='src/fnft_manakovv.c'; V='src/fnft_nsev_inverse.c'
BUGS=[
dict(id='s01',prop='C13',edits=[(N,'for (i = 0, j = 0; i < D_given; i++, j+=3)\n                    q_tmp[i] = q[j];','for (i = 0, j = 0; i < D_given; i++, j+=3)\n                    q_tmp[i] = q[i];')]),
dict(id='s02',prop='C13',edits=[(N,'bounding_box[1] = re_bound(eps_t, map_coeff);','bounding_box[1] = re_bound(eps_t, 2.0);')]),
dict(id='s03',prop='C13 C12',edits=[(N,'return 1.5 * 0.25 * misc_l2norm2','return 0.98 * 0.25 * misc_l2norm2')]),
dict(id='s04',prop='C13 C08',edits=[(N,'WARN("Found more than *K_ptr bound states. Returning as many as possible.");\n            K = *K_ptr;','K = *K_ptr;')]),
dict(id='s05',prop='C20 C19',edits=[(P,'const REAL eps_t_sub = nskip_per_step*eps_t;','const REAL eps_t_sub = (T[1]-T[0])/Dsub;')]),
dict(id='s06',prop='C19 C28',edits=[(P,'p[deg/2] += 2.0 * POW(2.0, -W);','p[deg/2] += 2.0;'),(P,'p[deg/2] -= 4.0 * POW(2.0, -W);','p[deg/2] -= 4.0;')]),
dict(id='s07',prop='C19 C20',edits=[(P,'        opts_ptr->bounding_box[0] -= Lam_shift;\n        opts_ptr->bounding_box[1] -= Lam_shift;','        opts_ptr->bounding_box[0] -= Lam_shift;\n        opts_ptr->bounding_box[1] += Lam_shift;')]),
dict(id='s08',prop='C16',edits=[(K,'for (i = 0; i < D; i++)\n            bound_squared','for (i = 0; i < D-1; i++)\n            bound_squared')]),
dict(id='s09',prop='C16',edits=[(K,'xi[M-1] = I*nexttoward(bounding_box[3],bounding_box[2]);','xi[M-1] = I*CIMAG(eps_xi*(M-2));')]),
dict(id='s10',prop='C14',edits=[(K,'if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){','if (XI[0]+dxi*i < 0.9*PI/(2.0*eps_t_sub)){')]),
dict(id='s11',prop='C14',edits=[(K,'bs_err_thres = bs_err;\n                        loc = j;','loc = j;')]),
dict(id='s12',prop='C20',edits=[(P,'if (warn_flags[0] == 1)\n                break;','if (warn_flags[0] == 1 && nval > 0)\n                break;')]),
dict(id='s13',prop='C20 C19',edits=[(P,'tol_im /= oversampling_factor*(D - 1);','tol_im /= oversampling_factor*(Dsub - 1);')]),
dict(id='s14',prop='C09 C10',edits=[(N,'                H21_vals[i] *= scl;','                if (Ws[i] > 0) H21_vals[i] *= scl;')]),
dict(id='s15',prop='C12',edits=[(N,'ret_code = misc_merge(&K, buffer, SQRT(EPSILON));','ret_code = misc_merge(&K, buffer, SQRT(SQRT(EPSILON)));')]),
dict(id='s16',prop='C02 C13 C01',edits=[(N,'if (*K_ptr >= K) {\n                buffer = bound_states;','if (*K_ptr + 1 >= K) {\n                buffer = bound_states;')]),
]
