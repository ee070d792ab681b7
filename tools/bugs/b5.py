# fifth batch: interactions of options
N='src/fnft_nsev.c'; V='src/fnft_nsev_inverse.c'; M='src/fnft_manakovv.c'; K='src/fnft_kdvv.c'; P='src/private/'
BUGS=[
dict(id='u01',prop='C21',edits=[(V,'    const UINT i0 = (deg <= M-1) ? 0 : deg - (M-1);\n    for (i=0; i<i0; i++) {\n        transfer_matrix[1*(deg+1) + i] = 0.0;','    const UINT i0 = (deg < M-1) ? 0 : deg - (M-2);\n    for (i=0; i<i0; i++) {\n        transfer_matrix[1*(deg+1) + i] = 0.0;')]),
dict(id='u02',prop='C21',edits=[(V,'    for (i=0; i<=M/2; i++)\n        contspec_reordered[i] = contspec[i + (M/2 - 1)];\n    for (i=M/2+1; i<M; i++)','    for (i=0; i<M/2; i++)\n        contspec_reordered[i] = contspec[i + (M/2 - 1)];\n    contspec_reordered[M/2] = contspec[M-2];\n    for (i=M/2+1; i<M; i++)')]),
dict(id='u03',prop='C08 C21',edits=[(V,'if (iter == max_iter)\n        WARN','if (iter > max_iter)\n        WARN')]),
dict(id='u04',prop='C21',edits=[(V,'if (cur_phase_change_diff > 0.9*prev_phase_change_diff)','if (cur_phase_change_diff > 0.1*prev_phase_change_diff)')]),
dict(id='u05',prop='C22 C07',edits=[(V,'for (j = 0; j < i; j++) {\n            if (bound_states[i] == bound_states[j])','for (j = (i > 0) ? i-1 : 0; j < i; j++) {\n            if (bound_states[i] == bound_states[j])')]),
dict(id='u06',prop='C14',edits=[(M,'if (FABS(XI[0] + dxi * i) < 0.9 * PI','if (XI[0] + dxi * i < 0.9 * PI')]),
dict(id='u07',prop='C17',edits=[(M,'result[offset + 2 * M + i] = H31_vals[i] * scale * CEXP(I * xi[i] * phase_factor_b);','result[offset + 2 * M + i] = H31_vals[i] * (opts->contspec_type == manakovv_cstype_BOTH ? 1.0 : scale) * CEXP(I * xi[i] * phase_factor_b);')]),
dict(id='u08',prop='C18',edits=[(M,'ret_code = misc_merge(&K, buffer, SQRT(EPSILON));','')]),
dict(id='u09',prop='C18 C08',edits=[(M,'if (*K_ptr < K) {\n			WARN("Found more than *K_ptr bound states. Returning as many as possible.");\n			K = *K_ptr;\n		}','if (*K_ptr < K)\n			K = *K_ptr;')]),
dict(id='u10',prop='C07',edits=[(M,'if (XI == NULL || XI[0] >= XI[1])\n			return E_INVALID_ARGUMENT(XI);\n	}\n	if (abs(kappa) != 1)','if (XI == NULL || XI[0] > XI[1])\n			return E_INVALID_ARGUMENT(XI);\n	}\n	if (abs(kappa) != 1)',0)]),
dict(id='u11',prop='C28 C18',edits=[(M,'ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,','opts->normalization_flag = opts->normalization_flag && M > 0;\n		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,')]),
dict(id='u12',prop='C12 C13',edits=[(N,'            nskip_per_step = (UINT) ROUND((REAL)D / Dsub);' if 0 else 'Tsub[1] = T[0] + first_last_index[1] * eps_t;','Tsub[1] = T[1];',0)]),
dict(id='u13',prop='C16 C14',edits=[(K,'normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];\n                    }','normconsts_or_residues_reserve[K+i] = normconsts_or_residues_sub[loc]/normconsts_or_residues_reserve[K+i];\n                    }')]),
dict(id='u14',prop='C08 C03',edits=[(P+'fnft__errwarn.c','__thread','static_placeholder')]) if 0 else dict(id='u14',prop='C24',edits=[(P+'fnft__misc.c','if (dist < tol)\n                break;\n        }\n        if (dist < tol)','if (dist <= tol)\n                break;\n        }\n        if (dist <= tol)')]),
]
