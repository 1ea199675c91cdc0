"""Property table: source of properties.jsonl and MANIFEST.json (via meta.py)."""
T_ENG = ('symbolic execution of the clang IR of the real functions (vfe engine); obligations over exact reals and bit-vectors decided by '
         'ring normal form (rechecked by z3) and z3 nonlinear arithmetic; counterexamples replayed on a native build of the same sources')
T_CB = 'bounded model checking of the real C functions with CBMC (SAT), unwinding assertions on; counterexamples replayed natively under ASan/UBSan'
T_BOTH = T_ENG + '; plus ' + T_CB


def P(id, title, statement, over, text, why, files, mech, tech=T_ENG, level='model_checking', note='', observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, level=level, note=note, observe=observe or []))


IN = ['inputs']
WHY_TF = 'The tests draw some random samples and compare with a loose tolerance; an error that vanishes for unit or generic samples, or that lives in one branch (axis, sign, small or near-pi angle), is never sampled.'
TFB = 'Doubles idealised as exact reals (rounding ignored); the bounds on angles and magnitudes are in the harnesses and in the evidence.'
PROPS = []
NOT_APPLICABLE = []


P('P01', 'Quaternion algebra: products, conjugate, inverse and norms',
  'Every quaternion and dual-quaternion algebra operation of the API computes the exact algebraic result: Hamilton product in all its forms (full, by vector, by pure quaternion, conjugate-left/right, as left/right multiplication matrices, with separate vector/scalar storage), conjugate, inverse, norms, normalisation and the minimising sign. The results satisfy the group laws (associativity, identity, inverse, |ab|=|a||b|) and hold in place where in-place use is offered.',
  IN, 'for all real quaternion and dual quaternion operands (all components symbolic, unbounded)', WHY_TF,
  ['src/tf/quat.c', 'src/tf/quat_duqu.c', 'src/tf/quat_qutr.c', 'include/amino/tf.h', 'include/amino/tf/spatial.h'],
  [('aa_tf_qmul, aa_tf_qconj, aa_tf_qinv, aa_tf_qmatrix_l/r', 'src/tf/quat.c'), ('aa_tf_duqu_mul, aa_tf_duqu_conj', 'src/tf/quat_duqu.c')])
P('P02', 'Rotation representations all denote the same rotation',
  'Converting a rotation between unit quaternion, rotation matrix, axis-angle and rotation vector, in any direction, yields the same rotation (up to quaternion sign and the representation singularity at pi), including the principal-axis, half-turn, small-angle and identity branches; rotating a point, composing, inverting and taking relative rotations agrees in every representation; constructed rotation matrices are orthonormal with determinant one.',
  IN, 'for all unit quaternions / unit axes and angles within the stated ranges, all points, every branch of each conversion', WHY_TF,
  ['src/tf/conv.c', 'src/tf/quat.c', 'src/tf/tfmatrix.c', 'src/tf.c', 'include/amino/tf/spatial.h'],
  [('aa_tf_rotmat2quat, aa_tf_quat2rotmat, aa_tf_axang2quat, aa_tf_rotvec2quat, aa_tf_rotmat2axang', 'src/tf/conv.c'), ('aa_tf_qrot, aa_tf_rotmat_rot, aa_tf_rotmat_mul', 'src/tf/tfmatrix.c')])
P('P03', 'Rigid transforms form one group across four representations',
  'Transformation matrices, quaternion-translation pairs (array and split form) and dual quaternions denote the same rigid transform under every conversion, and composition, inverse-composition on either side, inversion, relative transform, point transformation (single, batched and adjoint/conjugate forms) give the same result in every representation, equal to the homogeneous-matrix definition.',
  IN, 'for all unit rotations and all real translations and points', WHY_TF,
  ['src/tf/quat_qutr.c', 'src/tf/quat_duqu.c', 'src/tf/tfmatrix.c', 'src/tf/conv.c', 'src/tf.c'],
  [('aa_tf_qv_chain, aa_tf_qutr_mul, aa_tf_duqu_mul, aa_tf_tfmat_mul', 'src/tf/'), ('aa_tf_duqu2tfmat, aa_tf_tfmat2duqu, aa_tf_qv2duqu', 'src/tf/conv.c')])
P('P04', 'Exponential and logarithm are exact, inverse and consistent',
  'The exponential maps of quaternions, rotation vectors, twists and dual quaternions equal the closed-form (Rodrigues) exponential, the logarithms invert them on their principal domain, and matrix, quaternion-translation and dual-quaternion versions agree with each other, including quaternion powers, negative-scalar quaternions, non-unit scalars, pure translations and the small-angle and near-half-turn branches.',
  IN, 'for all unit axes, all angles in the stated interval, all translations; small-angle branches for the whole branch interval', WHY_TF,
  ['src/tf/quat.c', 'src/tf/quat_qutr.c', 'src/tf/quat_duqu.c', 'src/tf/tfmatrix.c', 'src/tf/conv.c'],
  [('aa_tf_qexp, aa_tf_qln, aa_tf_qpow', 'src/tf/quat.c'), ('aa_tf_qv_expv, aa_tf_qv_lnv, aa_tf_duqu_exp, aa_tf_duqu_ln', 'src/tf/'), ('aa_tf_tfmat_expv, aa_tf_tfmat_lnv', 'src/tf/tfmatrix.c')])
P('P05', 'Velocities, derivatives and twists convert consistently',
  'Angular/spatial velocity, quaternion / rotation-matrix / dual-quaternion time derivative and twist are interconvertible exactly as the kinematic equations say (dq/dt = 1/2 w q, dR/dt = [w] R, dS/dt = 1/2 twist S): each conversion equals the derivative of the defining product, forward and backward conversions invert each other, and a velocity Jacobian maps column by column to the dual-quaternion derivative Jacobian.',
  IN, 'for all unit rotations, translations and velocities (unbounded reals)', WHY_TF,
  ['src/tf/quat_ord.c', 'src/tf/quat_qutr.c', 'src/tf/quat_duqu.c', 'src/tf/tfmatrix.c'],
  [('aa_tf_qvel2diff, aa_tf_qdiff2vel, aa_tf_qutr_*', 'src/tf/quat_ord.c, src/tf/quat_qutr.c'), ('aa_tf_duqu_twist2vel, aa_tf_duqu_vel2twist, aa_tf_duqu_jac_vel2diff', 'src/tf/quat_duqu.c')])
P('P06', 'Constant-velocity integration steps are the exponential',
  'One integration step of an orientation or pose under constant velocity, twist, or matching derivative equals multiplication by the exact exponential in every representation (quaternion, rotation matrix, quaternion-translation, dual quaternion, transformation matrix); constant acceleration along the axis integrates to v t + a t^2/2; the Euler and RK4 quaternion steps equal the first- and fourth-order truncation of the exponential; zero velocity leaves the pose unchanged.',
  IN, 'for all poses and velocities with rotation angle per step in the stated interval', WHY_TF,
  ['src/tf/quat_ord.c', 'src/tf/quat_qutr.c', 'src/tf/quat_duqu.c', 'src/tf/tfmatrix.c'],
  [('aa_tf_qsvel, aa_tf_qsdiff, aa_tf_qvelrk4', 'src/tf/quat_ord.c'), ('aa_tf_qutr_svel, aa_tf_duqu_svel, aa_tf_duqu_stwist, aa_tf_tfmat_svel', 'src/tf/')])
P('P07', 'Euler-angle conversions match their axis convention',
  'For each of the twelve axis conventions, converting Euler angles to a rotation matrix or quaternion gives the product of the three elementary rotations in the named order, the quaternion being unit; and the ZYX angles are recovered exactly from matrix and quaternion (either sign) away from gimbal lock.',
  IN, 'for all angle triples in [-6,6] rad (ZYX recovery: |yaw|,|roll| <= 3.1, |pitch| <= 1.5)', WHY_TF + ' The code is generated by maxima from src/mac at build time; the check regenerates it.',
  ['src/mac/euler.mac', 'src/mac/euler77.mac', 'src/mac/amino.mac', 'src/mac/euler_f2c.c', 'src/tf/conv.c'],
  [('aa_tf_eulerxyz2rotmat, aa_tf_eulerxyz2quat and the 11 others', 'src/mac/euler.mac'), ('aa_tf_rotmat2eulerzyx, aa_tf_quat2eulerzyx', 'src/tf/conv.c')])
P('P08', 'Planar rotations and transforms form SE(2) in both representations',
  'Planar rotations and rigid transforms, as complex numbers or as 2x2 / 2x3 matrices, compose, invert and transform points exactly as SE(2) requires and identically in both representations; angle, complex number and matrix convert into each other without loss, and exponential/logarithm are inverse.',
  IN, 'for all unit complex numbers, translations, points; angles in (-3.1,3.1) for the logarithm', WHY_TF,
  ['src/tf/tfp.c', 'include/amino/tf/planar.h'], [('aa_tf_cmul, aa_tf_cv_mul, aa_tf_tfmatp_mul, aa_tf_tfmatp_inv2', 'src/tf/tfp.c')])
P('P09', 'Denavit-Hartenberg parameters give the standard link transform',
  'Proximal and distal Denavit-Hartenberg parameters produce the documented product of screw motions along x and z, with the same result as transformation matrix, quaternion-translation and dual quaternion.',
  IN, 'for all angles in the stated interval and all link lengths/offsets', WHY_TF,
  ['src/tf/conv.c', 'include/amino/tf/spatial.h'], [('aa_tf_dhprox2tfmat, aa_tf_dhdist2tfmat, aa_tf_dhprox2duqu, aa_tf_dhdist2qv', 'src/tf/conv.c')])
P('P10', 'Quaternion interpolation follows the short great arc at constant rate',
  'Spherical interpolation between two unit quaternions (trigonometric and algebraic form) lies on the shorter great arc, starts at the first and ends at the second rotation, turns proportionally to the parameter (also outside [0,1]), and its derivatives (with respect to the parameter, and by the chain rule when the end points and the parameter move) are the exact derivatives; equal end points are handled.',
  IN, 'for all unit quaternion pairs at relative half-angle in [0.05,1.5] rad (end points down to 0.001 and up to 1.57), either sign; all parameters with swept angle up to 1.6 rad; all end-point derivatives', WHY_TF,
  ['src/tf/quat_ord.c'], [('aa_tf_qslerp, aa_tf_qslerpalg, aa_tf_qslerpdiff, aa_tf_qslerpdiffalg, aa_tf_qslerpchaindiff', 'src/tf/quat_ord.c')], note='aa_tf_qslerp3diff is Fortran and not covered.')
P('P11', 'Frames and helper matrices built from geometric data are the right ones',
  'The rotation aligning one vector with another is the minimal one (identity for parallel, a half turn for antiparallel vectors of any length); a frame built from two axes, a camera look-at frame in every representation, and orthonormalisation of a rotation or transform keep the documented axes and are orthonormal; projection and orthogonal rejection split a vector; cross-product and skew matrices, the weighted quaternion outer-product (Davenport) matrix, relative translations (mean, median) and variadic matrix chains equal their definitions for every leading dimension.',
  IN, 'for all frames, directions, lengths in [1e-3,1e3], up to 4 samples / 4 chained factors', WHY_TF,
  ['src/tf/tfmatrix.c', 'src/tf/conv.c', 'src/tf.c', 'src/tf/quat_ord.c'],
  [('aa_tf_vecs2quat, aa_tf_quat_davenport_matrix', 'src/tf/quat_ord.c'), ('aa_tf_rotmat_xy, aa_tf_rotmat_normalize, aa_tf_skewsym_scal2', 'src/tf/tfmatrix.c'), ('aa_tf_rotmat_mzlook, aa_tf_qutr_mzlook', 'src/tf/conv.c'), ('aa_tf_relx_mean, aa_tf_proj, aa_tf_v12chain', 'src/tf.c')])
P('P12', 'Derivatives of exponential and logarithm are the exact derivatives',
  'The Jacobians and directional derivatives of the quaternion logarithm, the unit-quaternion logarithm, the pure-quaternion exponential, the dual-quaternion logarithm (including its second-order block) and conjugate are the exact derivatives of those maps, at generic points, at the identity and in the small-angle branches, for matrices of any leading dimension.',
  IN, 'for all (non-unit) quaternions with half-angle in [0.01,3.1] and magnitude in [0.1,10], all tangent directions; the small-angle branch interval', WHY_TF,
  ['src/tf/quat_pde.c', 'src/tf/quat_ord.c'], [('aa_tf_qln_jac, aa_tf_duqu_ln_jac, aa_tf_duqu_conj_jac', 'src/tf/quat_pde.c'), ('aa_tf_qduln, aa_tf_qdulnj, aa_tf_qdpexp, aa_tf_qdpexpj', 'src/tf/quat_ord.c')])


HIST = ['histories', 'inputs']
WHY_MEM = 'The tests run one fixed sequence; the bookkeeping errors of an allocator need a particular order of requests, sizes relative to the chunk, and pops.'
INTB = 'Integers are exact bit-vectors; sequence length, sizes and counts are bounded as stated in the harness and the evidence; one heap layout (ascending, non-adjacent blocks).'
P('P17', 'Memory regions never hand out overlapping or dead memory',
  'For every sequence of region operations (allocate, zero-allocate, duplicate, temporary allocate / reallocate then allocate, take a mark, pop to an allocation or mark, release): each allocation is aligned, has room for the requested size, lies outside every other live allocation and the allocator\'s own headers, and stays allocated with its contents until it is popped or released; zero-allocation zeroes, duplication copies, temporary space is what the next fitting allocation returns, and growing temporary space keeps its contents; popping frees exactly what was allocated at or after the popped pointer; the reported free size really is usable.',
  HIST, 'for all sequences of up to 4 free choices (6 in the thorough tier) and fixed longer shapes, symbolic initial size 0..64 and request sizes 0..100', WHY_MEM,
  ['src/mem.c', 'include/amino/mem.h'], [('aa_mem_region_alloc, _pop, _release, _tmpalloc, _tmprealloc', 'src/mem.c')], note=INTB)
P('P18', 'Object pools and region lists keep live elements intact and in order',
  'A pool hands out distinct aligned objects large enough for its element size, never one that is live, reuses freed objects before growing, and keeps live objects\' contents across any alloc/free/release sequence; a region list behaves as a double-ended sequence: push adds at the front, enqueue at the back (by copy or by pointer), pop removes the front element or returns NULL when empty, map visits every element in order.',
  HIST, 'for all sequences of up to 4 operations (6 in the thorough tier), element sizes 1..40, any values', WHY_MEM,
  ['src/mem.c', 'include/amino/mem.h'], [('aa_mem_pool_alloc, aa_mem_pool_free, aa_mem_pool_release', 'src/mem.c'), ('aa_mem_rlist_push_cpy, aa_mem_rlist_enqueue_ptr, aa_mem_rlist_pop, aa_mem_rlist_map', 'src/mem.c')], note=INTB)
P('P19', 'Bit arrays, memory swap, growable vectors and copies do exactly what they say',
  'Setting, reading and combining (and/or/xor) bit arrays affects exactly the addressed bits of the n-bit array and nothing beyond its words, and word/octet counts are the smallest that hold n bits; swapping memory exchanges exactly n octets for any n; pushing to a vector keeps all elements in order and within its storage; alignment rounding gives the smallest aligned value; duplicate / borrow / steal, zeroed and local allocations give the promised ownership and contents.',
  IN, 'for all bit patterns and positions in arrays up to 128 bits, all octet counts up to 40, up to 7 pushes', WHY_MEM,
  ['include/amino/mem.h', 'src/mem.c'], [('aa_bits_get/set/and/or/xor/getn/words/size, aa_memswap, AA_VECTOR_PUSH, AA_MEM_DUPOP', 'include/amino/mem.h'), ('aa_flexbuf_alloc', 'src/mem.c')], note=INTB)
P('P20', 'Heap sort sorts and permutes elements of any size',
  'Heap-sorting an array leaves it sorted by the comparison function, as a permutation of the original elements, each element moved whole together with its key, for any element size and any ties, with nothing outside the array written; building the heap establishes the heap order.',
  IN, 'for all key arrays (every ordering and tie pattern) of up to 5 elements (6 thorough) and element sizes 1..24', WHY_MEM,
  ['src/heap.c', 'include/amino/heap.h', 'include/amino/mem.h'], [('aa_aheap_sort, aa_aheap_build, aa_aheap_heapify', 'src/heap.c')], note=INTB)
P('P21', 'Time and modulo arithmetic are exact',
  'Adding, subtracting and normalising times gives the exact instant with nanoseconds in [0,1e9); comparison, minimum and maximum follow the chronological order; conversion to micro- and milliseconds truncates the exact value; validation of a time accepts exactly the closed interval; the modulo functions return the representative with the divisor\'s sign, the remainder functions that with the dividend\'s.',
  IN, 'for all seconds within +-3e9 and nanoseconds (normalisation: +-40e9); modulo: all dividends within +-1e5 and 16 divisors of either sign', 'Tests sample a couple of times; borrow/carry across the second boundary and negative operands are rarely hit.',
  ['include/amino/time.h', 'include/amino/math.h', 'src/validate.c'], [('aa_tm_make_norm, aa_tm_add, aa_tm_sub, aa_tm_cmp, aa_tm_min, aa_tm_timespec2usec', 'include/amino/time.h'), ('aa_imodulo, aa_lmodulo', 'include/amino/math.h'), ('aa_valid_timespec', 'src/validate.c')], note='Machine integers as bit-vectors; aa_tm_sec2timespec and aa_tm_timespec2sec (floating point) are outside.')
P('P22', 'Endian conversion is byte-exact and invertible for every width',
  'For every supported type (16/32/64-bit signed and unsigned integers, float, double), loading and storing in little or big endian agrees with the byte-by-byte definition, conversion to and from the host order are inverse, and stores write exactly the width of the type.',
  IN, 'for all byte patterns of every width (float/double: patterns that are finite)', 'Tests use a few constants; sign extension of a high byte and shifts in one width are easily missed.',
  ['include/amino/endconv.h'], [('aa_endconv_ld_le_*, aa_endconv_st_be_*, aa_endconv_h_to_be_*', 'include/amino/endconv.h')], note='Bit-vectors; only the little-endian host branch is compiled here.')
P('P23', 'Text input reads lines, vectors and matrices completely and within bounds',
  'Reading a line returns exactly its characters, NUL-terminated, in memory that stays allocated, whatever the line length relative to the region; parsing a vector stores exactly the leading numbers up to the requested count, a comment, or other text, at the requested stride; reading a matrix places every row correctly, skips blank and comment lines, reports row count or the number of the offending line, and never writes outside the (growing) buffer; raw reads grow the buffer and lose no data.',
  IN, 'for all line contents up to 4 symbolic characters and lengths 14..35 across chunk boundaries; 0..3 numbers x separators x endings; matrices up to 3x3 from buffers of 0..3 elements; streams up to 40 octets', WHY_MEM,
  ['src/io.c', 'src/mem.c'], [('aa_io_getline, aa_io_d_parse, aa_io_parsevector, aa_io_fread_matrix_heap, aa_io_fread_matrix_fix, aa_read_realloc', 'src/io.c')], note=INTB + ' strtod is a decimal model over the characters of the path; aa_io_d_print (printf formatting) is outside.')
P('P24', 'Reference counts are atomic',
  'Incrementing and decrementing a reference count from concurrent threads, with the C11-atomic or the mutex implementation, is equivalent to some sequential order: no update is lost and each call returns the count just before its own update.',
  ['schedules', 'inputs'], 'for all interleavings of two concurrent operations (any mix of increment and decrement) and all start counts 3..1000', 'A race shows only under a particular interleaving.',
  ['src/refcount.c', 'include/amino/refcount.h'], [('aa_mem_ref_inc_atomic, aa_mem_ref_dec_atomic, aa_mem_ref_inc_mutex, aa_mem_ref_dec_mutex', 'src/refcount.c')], tech=T_CB, note='Sequentially consistent interleavings of two threads; replay runs the same operations in real threads repeatedly.')
WHY_LA = 'Tests use a few square, contiguous, well-conditioned matrices; a wrong leading dimension, stride, transpose, pivot or border case (singular, negative, rank edge) is not sampled.'
LAB = 'Doubles idealised as exact reals; dimensions up to 3 (vectors up to 4). BLAS/LAPACK are modelled by their specification: level 1-3 BLAS and LU by reference code run symbolically, decompositions (SVD, QR, least squares, eigenvalues, Schur) by registering a symbolic factorisation and checking that the routine is called on exactly that matrix.'
P('P13', 'Vector and matrix functions compute their definition for every size and stride',
  'The array linear-algebra functions (element-wise arithmetic, dot products, norms and distances, minima/maxima and their locations, cross product, transpose, trace, determinant, identity/diagonal, matrix-vector product, inverse, damped and dead-zone damped pseudo-inverse, least squares with and without null-space projection, QR, SVD, eigen-decomposition, Riccati solution, linear/quadratic interpolation and its derivative, plane fit and point-plane distance) return the mathematically defined result for every dimension, increment and leading dimension, report singular systems, leave inputs unchanged and write nothing outside their result.',
  IN, 'for all real inputs at the dimensions, strides and leading dimensions stated in the harness', WHY_LA,
  ['src/la.c', 'src/la2.c', 'src/la_impl.c', 'src/are.c', 'include/amino/la.h', 'include/amino/math.h'],
  [('aa_la_dpinv, aa_la_dzdpinv, aa_la_xlsnp, aa_la_inv, aa_la_quadterp_dx', 'src/la.c'), ('aa_la_d_svd, aa_la_d_lls, aa_la_d_qr, aa_la_d_colfit, aa_la_d_lerp', 'src/la_impl.c'), ('aa_la_care_laub', 'src/are.c')], note=LAB)
P('P14', 'Sized vectors and matrices: views share storage, operations stay inside it',
  'Sized vectors and matrices (with any increment or leading dimension) behave as the mathematical object: element-wise and level 1-3 operations (scale, increment, axpy, copy, transpose, norms, distances, matrix-vector and matrix-matrix products with any transposition, inverse, (damped, dead-zone) pseudo-inverse) compute their definition and touch no element outside the object; slices, rows, columns, diagonals and blocks are views of exactly the named elements; allocation in a region or heap gives the stated shape; mismatched dimensions and out-of-bounds views are reported through the error handler exactly when they are invalid.',
  IN, 'for all real element values; dimensions up to 3, increments and row padding up to 2', WHY_LA,
  ['src/mat.c', 'src/la_impl.c', 'include/amino/mat.h', 'include/amino/mat_internal.h'], [('aa_dvec_slice, aa_dmat_block, aa_dmat_row_vec, aa_dmat_gemm, aa_dmat_gemv', 'src/mat.c'), ('aa_dmat_inv, aa_dmat_dpinv, aa_dmat_dzdpinv, aa_dmat_pinv', 'src/mat.c')], note=LAB)
P('P15', 'Hungarian assignment returns a minimum-cost one-to-one matching',
  'The assignment solver terminates for every cost matrix, square or rectangular, and returns a matching in which no row or column is used twice, every row (or column, if fewer) is matched, and the total cost is the minimum over all matchings; converting a maximisation to a minimisation preserves the optimal matchings; nothing outside the given arrays is written.',
  IN, 'for all real cost matrices up to 2x3, 3x2 and 3x3 (all entries symbolic); 4x4 and 4x3 matrices with a fixed base and 2-4 symbolic entries', 'Tests run a handful of matrices; the augmenting-path branches depend on ties and on the order of zeros in the reduced matrix.',
  ['src/la_impl.c', 'src/la2.c', 'include/amino/la_impl.h'], [('aa_la_d_assign_hungarian, aa_la_d_assign_hungarian_max2min', 'src/la_impl.c')], note='Costs idealised as exact reals; dimension up to 4.')
P('P16', 'Statistics, angles and colours compute their definition',
  'Mean, deviation, covariance, Mahalanobis distance, scores, outlier-excluded and circular mean/deviation, median and median absolute deviations (any stride, single and double precision), Box-Muller, angle between vectors, angle normalisation and difference (result in range and congruent modulo 2 pi), floating modulo/remainder and RGB-to-HSV conversion compute their mathematical definition.',
  IN, 'for all real samples (up to 4), angles within +-10 rad, colours in [0,1]', WHY_LA,
  ['src/math.c', 'src/la_impl.c', 'src/cv.c', 'include/amino/math.h'], [('aa_stat_*, aa_ang_norm_pi, aa_ang_delta', 'src/math.c'), ('aa_la_d_median, aa_la_d_mad, aa_la_d_mad2, aa_la_d_colcov', 'src/la_impl.c'), ('aa_cv_rgb2hsv', 'src/cv.c')], note=LAB)
P('P25', 'Validation and clamping accept exactly the stated set',
  'Range validation of scalars and vectors accepts exactly the closed interval and the matching length; unit-vector validation accepts exactly norms within the tolerance; clamping returns the nearest value in the interval; approximate equality tests accept exactly the stated tolerance.',
  IN, 'for all real values, bounds and tolerances; vectors up to 3', WHY_LA,
  ['src/validate.c', 'include/amino/validate.h', 'include/amino/math.h', 'src/math.c'], [('aa_valid_f, aa_valid_v, aa_valid_vunit', 'src/validate.c'), ('aa_fclamp, aa_feq, aa_veq, aa_fdeadzone', 'src/math.c')], note=LAB)
P('P31', 'Integration and differentiation routines have their stated order',
  'Every one-step method (Euler, Heun, RK4, Fehlberg, Cash-Karp, Dormand-Prince, Bogacki-Shampine) integrates any state- and time-dependent system with the order it states, leaves its inputs untouched, and reports the derivative columns it documents; the solver calls the goal check after every accepted step with the time, state and derivative belonging to that state, shrinks a step exactly until its error estimate meets the tolerance, stops when the check says so and returns that state and result; the recorded path is the start point followed by every accepted state; linear simulation steps equal A x + B u and its integral; finite-difference gradients and Jacobians are central differences (exact for quadratics) for any stride; planar two-link inverse kinematics returns two solutions that reach the target.',
  IN, 'for all step sizes, start times, weights (order conditions of all 17 rooted trees up to order 5), all states of nilpotent linear systems; up to 3 solver steps with all adaptive accept/reject histories for the stated tolerance range', 'Tests compare one trajectory with a loose tolerance; a wrong coefficient that costs an order of accuracy, or a stale time or derivative, stays below it.',
  ['src/sigsys.c', 'src/diffeq.c', 'src/kin.c', 'include/amino/math.h'], [('aa_odestep_rk1/rk2/rk4/rkf45/rkck45/dorpri45/rkbs23, aa_ode_sol, aa_ode_path, aa_lsim_rk4step', 'src/sigsys.c'), ('aa_de_grad_fd, aa_de_jac_fd', 'src/diffeq.c'), ('aa_kin_planar2_ik_theta2', 'src/kin.c')], note=LAB)
LARX = 'Scene graph code (C and C++, with the real libstdc++ containers) is executed symbolically; graphs have up to 5 frames; joint values, limits, offsets and names (as characters) are symbolic, tree shapes are explored exhaustively.'
WHY_RX = 'Tests load a few robots; an error that needs a particular tree shape, naming order, joint type, shared configuration, replacement order, increment or leading dimension is not sampled.'
P('P26', 'Scene graph indices always describe exactly the frames added',
  'After initialisation a scene graph contains exactly the frames that were added, replaced, reparented and not removed: names and ids correspond one to one, every parent has a smaller id than its children, each joint has the configuration of its name (shared by joints of that name, defaulting to the frame name) with ids 0..count-1, fixed frames have none, unknown names and out-of-range ids are reported as such; a missing parent is reported; modification makes the graph not clean until it is initialised again. Position, velocity, acceleration and effort limits, inertial parameters and destructors are returned as set (before or after initialisation), absent where not set, and survive copying; a copy answers every question as the original and is independent of it.',
  HIST, 'for all names (symbolic characters), all labelled trees on three frames, all joint type and configuration sharing patterns listed, all orders of adding up to five frames, one removal/replacement/reparenting at any frame, all limits', WHY_RX,
  ['src/rx/sg_api.cpp', 'src/rx/scenegraph.cpp', 'include/amino/rx/scenegraph.h', 'include/amino/rx/scenegraph_internal.h'],
  [('aa_rx_sg_init, aa_rx_sg_add_frame_fixed/revolute/prismatic, aa_rx_sg_rm_frame, aa_rx_sg_copy, aa_rx_sg_config_get/set/indices', 'src/rx/sg_api.cpp'), ('SceneGraph::index, SceneGraph::add, SceneFrame', 'src/rx/scenegraph.cpp')], note=LARX)
P('P27', 'Forward kinematics agree in every representation and through every entry point',
  'For any tree of fixed, revolute and prismatic frames, the relative transform of a joint is its fixed transform followed by the rotation (scaled by a non-unit axis) or translation by configuration plus offset; absolute transforms are the product along the parents; the quaternion-translation, transformation-matrix and dual-quaternion computations describe the same motion; forward kinematics objects, filled matrices, incremental updates from a known configuration, chain-only updates, and relative transforms between any two frames give the same result as computing everything from scratch, for any increment and leading dimension, write nothing else, and treat an absent rotation or translation as identity. Reparenting replaces the transform in every representation.',
  IN, 'for all unit rotations, translations, unit axes, axis scales in [0.1,3], offsets and joint values in the stated ranges; trees of up to three frames of four shapes with type and sharing patterns, one frame with a fully symbolic transform at a time', WHY_RX,
  ['src/rx/sg_api.cpp', 'src/rx/scenegraph.cpp', 'src/rx/scene_sub.cpp', 'include/amino/rx/scene_fk.h', 'include/amino/rx/scenegraph.h'],
  [('aa_rx_sg_tf, aa_rx_sg_tfmat, aa_rx_sg_duqu, aa_rx_sg_tf_update, aa_rx_sg_rel_tf, aa_rx_fk_all, aa_rx_fk_set_rel, aa_rx_fk_get_rel_qutr, aa_rx_sg_fill_tf_abs', 'src/rx/sg_api.cpp'), ('SceneFrameRevolute::tf_rel, SceneFramePrismatic::tfmat_rel, SceneFrameFixed::duqu_rel', 'src/rx/scenegraph.cpp'), ('aa_rx_fk_sub', 'src/rx/scene_sub.cpp')], note=TFB + ' ' + LARX)
P('P28', 'Sub-scenegraphs select exactly the frames and configurations of their chains',
  'A chain from root to tip holds exactly the frames on the path (root excluded) from the root side to the tip and, in that order, the configurations of its joints; a multi-tip sub-scenegraph holds the union of its chains, each frame once, in id order, and its tips as end effectors; gathering, scattering, getting, setting and expanding paths move exactly the chain\'s configurations for any increment and leave all others alone; the centre configuration is the middle of the limits (0 without), random configurations lie within the limits (or +-pi); allocated configurations, Jacobians and transforms have the advertised size.',
  IN, 'for all trees of the eight listed shapes on five frames, four type patterns, two naming orders, every root and tip (pair/triple of tips), increments 1..3, all values', WHY_RX,
  ['src/rx/scene_kin.c', 'src/rx/scene_sub.cpp', 'src/rx/sg_capi.c', 'include/amino/rx/scene_sub.h'],
  [('aa_rx_sg_chain_create, aa_rx_sg_multiple_chain_create, aa_rx_sg_sub_config_gather/scatter/get/set, aa_rx_sg_sub_expand_path, aa_rx_sg_sub_rand_config', 'src/rx/scene_kin.c'), ('aa_rx_sg_chain_multiple_frames', 'src/rx/scene_sub.cpp')], note=LARX + ' Chains in which two joints share one configuration are outside (documented TODO in the code).')
P('P29', 'Kinematic Jacobians are the exact derivative of forward kinematics',
  'For any chain of revolute and prismatic joints, moving joint i by any amount moves the end effector by exactly the screw motion of column i of the twist Jacobian; the velocity Jacobian has the same angular part and the linear velocity of the end effector\'s origin; the variants (filled, allocated, separate blocks, from a forward kinematics object or from a matrix of transforms) agree for any leading dimension and write nothing else.',
  IN, 'for all joint values and displacements; chains of up to four frames in six type patterns, with a branch; one frame\'s transform, or one joint\'s unit axis and offset, fully symbolic at a time', WHY_RX,
  ['src/rx/scene_kin.c', 'include/amino/rx/scene_sub.h'],
  [('aa_rx_sg_sub_jac_twist_fill/fill2/get, aa_rx_sg_sub_jac_vel_fill/fill2/get, aa_rx_sg_chain_jacobian, aa_rx_sg_sub_jacobian, aa_rx_sg_sub_get_jacobian', 'src/rx/scene_kin.c')], note=TFB + ' ' + LARX)
P('P30', 'Geometry objects are shared by counted reference; collision sets are symmetric',
  'A geometry object keeps its own copy of the options and dimensions it was created with; copying shares it and adds one holder; modifying options yields an independent object with the same shape; a mesh is shared by its geometries. Attaching to, copying, removing and replacing frames and copying and destroying scene graphs keep the holder counts, so the object, its collision and display parts and its mesh are released exactly once, with the last holder, and nothing is leaked or used after release. Mesh attributes are copied when asked for and referenced otherwise, setting again replaces, a texture has the colour of the options. A collision set is a symmetric relation on frames: set, get, fill, merge and clear act as on sets of unordered pairs.',
  HIST, 'for all option values and dimensions, all seven shapes, up to three copies in every release order, all attachments of three objects to three frames followed by copy/removal/replacement, all pairs among up to four frames and three set operations', WHY_RX,
  ['src/rx/scene_geom.c', 'src/rx/geom_opt.c', 'src/rx/collision_set.cpp', 'src/rx/sg_api.cpp', 'src/rx/scenegraph.cpp', 'include/amino/rx/scene_geom.h', 'include/amino/rx/scene_collision.h'],
  [('aa_rx_geom_*, aa_rx_mesh_*', 'src/rx/scene_geom.c'), ('aa_rx_geom_opt_*', 'src/rx/geom_opt.c'), ('aa_rx_cl_set_*', 'src/rx/collision_set.cpp'), ('aa_rx_sg_map_geom, aa_rx_sg_copy', 'src/rx/sg_api.cpp')], note='Merging collision sets ignores the diagonal (a frame with itself). Deduction by FCL and the display buffers themselves are outside: their destructors are stand-ins that count. ' + LARX)

P('P32', 'Trajectories pass through their points within the limits, continuously',
  'Trajectories start at rest at the first point and end at the last at the stated duration: linear interpolation passes through every point exactly, with constant velocity between; trapezoidal and parabolic-blend trajectories have a position that is the integral of the reported velocity and a velocity that is the integral of the reported acceleration, never exceed the velocity and acceleration limits of any joint (whatever the signs of the motion and asymmetry of limits), and visit the points they promise; Cartesian versions move along the spherical interpolation with matching twist. Evaluation depends only on the time asked, not on earlier evaluations, says whether the time lies within the trajectory, writes only the arrays a state has and nothing past them; repeated points are dropped; checks call back at every step with the state of that time; lists release everything they hold.',
  HIST, 'for all points, velocities and limits in the stated ranges and all evaluation times (every phase of every segment); up to three points of one joint or two of two joints, all orders of two evaluations', 'The trajectory test is disabled upstream; a sampled trajectory does not reveal a limit exceeded or a jump for one sign, profile shape (triangular or trapezoidal) or joint that determines the duration.',
  ['src/ct/traj.cpp', 'src/ct/state.c', 'include/amino/ct/traj.h', 'include/amino/ct/state.h'],
  [('aa_ct_tjq_lin_generate, aa_ct_tjq_trap_generate, aa_ct_tjq_pb_generate, aa_ct_tjX_pb_generate, aa_ct_tjx_slerp_generate, aa_ct_seg_list_eval, aa_ct_seg_list_check, aa_ct_pt_list_*', 'src/ct/traj.cpp'), ('aa_ct_state_*', 'src/ct/state.c')], note='Containers and virtual calls of the C++ code are executed from libstdc++ itself. Parabolic blends with two joints take fixed limits; more than three points are outside. SLERP: one fixed axis with a symbolic angle, and symbolic start with fixed end. ' + TFB)

P('P33', 'Linear program wrappers pose the program they are given',
  'For every solver back end (GLPK, lp_solve, CLP) and every way of giving the constraint matrix (general dense, compressed rows or columns), the program handed to the solver has exactly the feasible set and objective that the caller described: bounds that are absent, one sided, two sided or equal become free, one sided, ranged and fixed rows or columns; the direction, integer and binary kinds, and replacements of the objective, the bounds or the constraints take effect; success is reported only when the solver found an optimum, with its point copied out in order; contexts and temporary arrays are released, inputs are not modified and nothing beyond the stated sizes is read or written.',
  IN, 'for all coefficients and bounds in the stated ranges and all combinations of bound kinds; up to 3 rows and 3 columns, leading dimension with padding', 'Upstream runs two sample programs; a wrong row kind or sign of a bound shows only for the combination of bounds that a sample does not contain, and the released solver happily optimises a different program.',
  ['src/opt/opt.c', 'src/opt/opt_glpk.c', 'src/opt/opt_lpsolve.c', 'src/opt/opt_clp.cpp', 'include/amino/opt/opt.h', 'include/amino/opt/lp.h'],
  [('aa_opt_glpk_gmcreate, aa_opt_glpk_crscreate, aa_opt_lp_glpk', 'src/opt/opt_glpk.c'), ('aa_opt_lpsolve_gmcreate, aa_opt_lpsolve_crscreate, aa_opt_lp_lpsolve', 'src/opt/opt_lpsolve.c'), ('aa_opt_clp_gmcreate, aa_opt_clp_crscreate, aa_opt_lp_clp', 'src/opt/opt_clp.cpp'), ('aa_opt_set_*, aa_opt_solve', 'src/opt/opt.c')], note='The solver libraries themselves are outside: they are replaced by stand-ins that record the program posed through their documented interface; equality of feasible sets is then decided for a symbolic point. ' + LAB)

P('P34', 'Workspace control realises the commanded motion and keeps the limits',
  'The joint velocities computed for a commanded workspace velocity are the damped pseudo-inverse image that the options select (dead zone, damped least squares or exact), so a reachable velocity is realised when undamped; the null-space reference is followed exactly as far as it does not disturb the workspace motion; the centering reference points to the middle of each limited joint in proportion to the range and leaves unlimited joints alone; the pose feedback is, at unit gain and for either sign of the quaternions, the screw that carries the actual pose onto the reference, and is added to the given velocity. The constrained controller (LC3) asks its optimiser only for motion towards the reference, and whatever admissible point the optimiser returns, the resulting joint velocities keep the velocity and acceleration limits and allow the joint to stop at its position limits; failure is reported and leaves the previous velocity; inputs are kept and memory is released.',
  IN, 'for all velocities, poses, joint configurations, gains and time steps in the stated ranges and every admissible answer of the optimiser; chains of two and three joints with a fixed Jacobian, every pattern of limits, strided vectors', 'No unit test exists upstream for workspace control; wrong signs and limits depend on the side of the reference, the limits present and the answer of the optimiser.',
  ['src/rx/scene_wk.c', 'src/rx/lc3.c', 'include/amino/rx/scene_wk.h'],
  [('aa_rx_wk_dx_pos, aa_rx_wk_dx2dq, aa_rx_wk_dx2dq_np, aa_rx_wk_dqcenter', 'src/rx/scene_wk.c'), ('aa_rx_wk_lc3_create, aa_rx_wk_dx2dq_lc3', 'src/rx/lc3.c')], note='The singular value decomposition is an oracle with a known factorisation (prismatic chains on a rotated base); the optimiser of LC3 is any point satisfying the bounds and constraints posed. Pose feedback: two fixed axes with a symbolic angle and symbolic positions. ' + LARX)

P('P35', 'Inverse kinematics report success only for configurations that reach the pose',
  'Whatever the optimiser or integrator underneath returns, the inverse kinematics report success exactly when the returned configuration brings the chosen frame to the requested pose within the angular and translational tolerances, and the returned configuration respects the position limits; a solution check agrees, with joints outside the sub-scenegraph at their start values; a retry happens only after failure, within the allowed time, from a random seed within the limits and with the full iteration count; objectives, constraints and tolerances reach the optimiser as set, and every objective function returns the documented error together with its exact gradient; the Jacobian law combines reference velocity, pose feedback and null-space centering; parameters copy, borrow or own as asked. Tracking of a workspace trajectory follows pose and twist of the trajectory at each time, until its end, and yields a path that is clamped to the limits and stays valid; limits and paths convert to control structures without loss. Seeds, start states and inputs are kept, scratch memory is given back and everything is released.',
  IN, 'for all target poses, seeds, configurations, tolerances and gains in the stated ranges and every point within bounds that the optimiser or integrator may return (up to two runs, three integrator steps); two prismatic joints behind a third outside the chain, and one revolute joint with an offset tip', 'The tests solve a few reachable poses with a working optimiser: what is reported when it stalls, starts outside the limits or is retried, and gradients at other poses, are never exercised.',
  ['src/rx/scene_ik.c', 'src/rx/ik_jacobian.c', 'src/rx/ik_nlopt.c', 'src/rx/ik_opt.c', 'src/rx/rx_ct.c', 'include/amino/rx/scene_ik.h', 'include/amino/rx/rx_ct.h'],
  [('aa_rx_ik_solve, aa_rx_ik_check, aa_rx_ik_cx_create, aa_rx_ik_set_*', 'src/rx/scene_ik.c'), ('aa_rx_ik_jac_x2dq', 'src/rx/ik_jacobian.c'), ('aa_rx_ik_opt_err_*', 'src/rx/ik_nlopt.c'), ('aa_rx_ik_parm_*', 'src/rx/ik_opt.c'), ('aa_rx_ct_tjx_path, aa_rx_ct_limits, aa_rx_ct_pt_list', 'src/rx/rx_ct.c')], note='NLopt and the ODE driver are replaced by stand-ins that return any admissible answer (the ODE driver itself is P31). The angular tolerance is on the quaternion angle, half the rotation angle, as aa_tf_qangle documents. The singular value decomposition is an oracle. ' + LARX)

P('P36', 'Collision checks and distances consult the right shapes at the right poses',
  'For every pose of every frame, a collision check hands the collision library each attached collision shape exactly once, with the dimensions the geometry has (scaled), placed where the frame is (a cylinder rising from its frame, whatever its scale) and with an up-to-date bounding box, so the broad phase may discard only pairs that cannot touch. The check reports a collision exactly when some pair of different frames that is not allowed to collide touches; with a set it enters exactly those pairs, without one it stops at the first. Allowed pairs are those of the scene graph when the checker was created plus those added later, individually or by sets, in either order of the pair; allowing a configuration allows exactly the pairs that touch in it. Distances are the minimum over the pairs of objects of two frames, zero for a frame with itself, with the closest points on the frame that was asked for whatever the order of the pair, negative penetration when touching; allowed pairs are left out. Checkers release what they hold.',
  HIST, 'for all poses, dimensions, scales and every outcome of the narrow phase (touching or not, any distance and points); up to four frames with up to two shapes each, every visiting order of a pair, every set of allowed pairs', 'The collision tests check a few boxes at fixed positions; a pair missed by the broad phase, a swapped pair of closest points or a forgotten allowance depends on pose, identifier order and history.',
  ['src/rx/amino_fcl.cpp', 'src/rx/collision_set.cpp', 'include/amino/rx/scene_fcl.h', 'include/amino/rx/scene_collision.h'],
  [('aa_rx_sg_cl_init, aa_rx_cl_create, aa_rx_cl_check, aa_rx_cl_check_fk, aa_rx_cl_allow*, aa_rx_sg_get_collision, aa_rx_sg_allow_config, aa_rx_cl_dist_check, aa_rx_cl_dist_get_*', 'src/rx/amino_fcl.cpp'), ('aa_rx_cl_set_*', 'src/rx/collision_set.cpp')], note='FCL itself is outside: it is replaced by a stand-in with the documented interface whose narrow phase has any outcome and whose broad phase requires a bounding box computed after the last change of pose. Deciding whether two shapes really touch is FCL. ' + LARX)

P('P37', 'Wavefront files are read exactly as written',
  'Reading a Wavefront object or material file yields exactly what the file states, in its order: every vertex, normal and texture vertex with the value its text denotes (sign, fraction and every exponent form the scanner accepts), zero-based face indices with the absent texture index marked, the material in force at each face, each material name once, and for each material exactly the properties given for it, under its own values; a material file is looked up beside the object file. A malformed line, a property before any material, or a missing or malformed material file is refused. Indices past the end are answered with nothing. All memory and files are released, whether the file is accepted or not, however the text arrives in pieces.',
  IN, 'for all numbers of up to three symbolic digits in every form, every sequence of up to four lines of every kind (one arbitrary line, or a material line followed by faces and material changes; up to three material lines), three styles of blanks, comments and read sizes; all pushed coordinates and indices', 'Upstream has only a program that reads a file given by hand; number forms, line orders and refused files are never compared with what was written.',
  ['src/wavefront/wavefront.l', 'src/wavefront/mtl.l', 'src/wavefront/wf_obj.c', 'src/wavefront/wf_mtl.c', 'include/amino/rx/wavefront.h', 'include/wavefront_internal.h'],
  [('aa_rx_wf_parse, aa_rx_wf_mtl_parse', 'src/wavefront/wavefront.l, src/wavefront/mtl.l'), ('aa_rx_wf_parse_float, aa_rx_wf_obj_*', 'src/wavefront/wf_obj.c'), ('aa_rx_wf_mtl_*, aa_rx_wf_material_*', 'src/wavefront/wf_mtl.c')], note='The scanners are regenerated by flex on every run and executed symbolically with the text fixed by structural choices (the characters of a path are concrete; digits of numbers and pushed values are symbolic); files are in memory. ' + INTB)

P('P38', 'Motion plan sequences keep their own copy of every path in order',
  'A motion plan sequence returns its elements in the order appended, each with the scene graph, number of points and a copy of the path it was given, unaffected by later changes of the caller\'s array; the counts of elements and points agree with what was appended; an index past the end yields nothing; destroying the sequence releases everything it allocated and no scene graph.',
  HIST, 'for all path values, up to three elements of up to two points over two scene graphs of one to three joints', 'No unit test covers sequences.',
  ['src/rx/mp_seq.cpp', 'include/amino/rx/mp_seq.h'], [('aa_rx_mp_seq_append_all, aa_rx_mp_seq_elt, aa_rx_mp_seq_count, aa_rx_mp_seq_point_count, aa_rx_mp_seq_destroy', 'src/rx/mp_seq.cpp')], note=LARX)

P('P39', 'Motion planning solves the problem posed and returns a checked path',
  'A motion planning context hands the planner exactly the problem posed: the joints of the chain with their limits as bounds (a full turn where there is none), the start and the goal given (a configuration, or a workspace pose solved by inverse kinematics from a fresh seed within bounds for each attempt, as long as sampling goes on), the time limit and the planner chosen last. A state is accepted exactly when the scene, with the chain at that state and every other joint at the start configuration, has no collision that is not allowed; allowed are the pairs of the scene graph, those touching at the start and at every configuration allowed, and those allowed individually, until taken back. A goal that is not acceptable is refused. On success, reported exactly when the planner has an exact solution, the path returned is the one of the planner, its other joints at the start, simplified only when asked; on failure there is no path. The distance to a workspace goal is the sum of angles and distances over its frames. Collisions met are recorded when tracked. Inputs are copied and everything is released.',
  HIST, 'for all start, goal and inner states, limits, poses and time limits in the stated ranges, every outcome of the collision checker, planner, simplifier and inverse kinematics, all orders of allowing, choosing and starting up to two operations; a two joint chain in a scene of three joints and five frames, one inner state, two goal frames', 'Planning is tested on one sample problem: a forgotten joint outside the chain, an allowance that does not reach the checker or a swapped limit shows only for other scenes and histories.',
  ['src/rx/mp/scene_ompl.cpp', 'src/rx/mp/scene_state_space.cpp', 'src/rx/mp/scene_state_validity_checker.cpp', 'src/rx/mp/workspace_goal.cpp', 'src/rx/mp/ompl_rrt.cpp', 'src/rx/mp/ompl_sbl.cpp', 'src/rx/mp/ompl_kpiece.cpp', 'include/amino/rx/scene_planning.h'],
  [('aa_rx_mp_*', 'src/rx/mp/scene_ompl.cpp'), ('sgStateSpace', 'src/rx/mp/scene_state_space.cpp, include/amino/rx/ompl/scene_state_space.h'), ('sgStateValidityChecker', 'src/rx/mp/scene_state_validity_checker.cpp'), ('sgWorkspaceGoal', 'src/rx/mp/workspace_goal.cpp')], note='OMPL is replaced by a stand-in that returns any path its contract allows (inner states in bounds and accepted by the validity checker), without threads; the search itself is OMPL. Collision checker, collision sets and inverse kinematics are stand-ins with any outcome (P36, P30, P35). The start is set once, before the goal. ' + LARX)

P('P40', 'OpenGL is handed exactly the scene, its camera and meshes of its shapes',
  'Rendering draws each geometry once per frame exactly when it is visual and visuals are shown or it is a collision shape and those are shown, and its frame is not masked; the model matrix is the absolute pose of its frame times its scale, normals turn with the frame, and vertices, indices, normals, texture and specular colour are those of the geometry. The camera matrix is the perspective projection times the inverse of the camera pose last set or homed; lights are as set. Frame masks hold exactly what was set for every frame, however they grow. The mesh made of a box, grid, cylinder, cone, torus or sphere covers its surface exactly, with indices in range, outward unit normals and the colour of its options, and is made once. GL objects are deleted exactly once, on cleanup after the geometry is released, and all memory is released.',
  HIST, 'for all poses, camera poses, fields of view, depths, scales, colours and sizes in the stated ranges; three geometries on three frames under every visibility choice; three mask operations on frames up to 900; a sphere of one radius, torus angles 0.3 and 0.75', 'Rendering is not tested: a forgotten scale, a transposed matrix, a hole in a mesh, an index out of range or a mask that grows shows nowhere.',
  ['src/amino_gl.c', 'include/amino/rx/scene_gl.h', 'include/amino/rx/scene_gl_internal.h'], [('aa_rx_sg_render, aa_gl_draw_tf', 'src/amino_gl.c'), ('aa_geom_gl_buffers_init', 'src/amino_gl.c'), ('aa_gl_globals_*, aa_gl_mat_perspective, aa_gl_qutr2glmat', 'src/amino_gl.c'), ('aa_gl_buffers_schedule_destroy, aa_gl_buffers_cleanup', 'src/amino_gl.c')], note='The OpenGL functions are stand-ins that record their arguments; shaders and pixels are the driver. Single precision is treated as real arithmetic where sizes are symbolic, and constants take the values libm gives them (comparisons within 1e-4 or closer); mesh topology is decided for unit sizes and positions are then shown to scale with all sizes, except for the sphere, which has one radius. Octrees and SDL windows are outside. ' + LARX)

P('P41', 'Error codes are named completely and exactly',
  'The text for an error code names exactly the errors whose bits are set, each once, and says OK only for no error; the exported constants equal the macros, and no two codes share a bit.',
  IN, 'for all combinations of the six codes', 'No unit test covers the texts.', ['src/rx/errstr.c', 'src/rx/rxerr.c', 'include/amino/rx/rxerr.h'], [('aa_rx_errstr', 'src/rx/errstr.c'), ('aa_rx_ok .. aa_rx_invalid_state', 'src/rx/rxerr.c')], note=INTB)

P('P92', 'Fortran and scripting bindings compute what the C functions compute',
  'The Fortran modules and the Python and Common Lisp bindings return what the underlying C functions return for the same arguments.',
  IN, 'for all arguments', 'The bindings are exercised by a handful of calls.', ['src/la_implf.F90', 'src/tff.F90', 'src/mem_impl.F90', 'python/amino', 'lisp'], [('amino_la, amino_tf modules', 'src/la_mod.F90')])
NOT_APPLICABLE += [
 ('P92', 'The bindings are Fortran, Python (ctypes) and Lisp (CFFI) code: no front end available here lowers them to LLVM IR (gfortran emits GIMPLE only; flang is not installed), so the real code cannot be executed symbolically. The C functions they call are the other properties.'),
]
