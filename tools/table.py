PROPS=[
dict(id='M01',title='Every matrix-product routine computes the exact product',
 statement='For any two N×N complex matrices, each product routine returns exactly the mathematical product of its operands, with the hermitian conjugations its name promises, in every build configuration (number of colours, vectorised or generic code path). The special-unitary variants do so for all special-unitary inputs. The operands that are inputs are left unchanged.',
 over=['inputs','configurations'],quant='all complex operands (all SU(N) operands for the special-unitary variants), NC=2,3,4,5, SSE2 and generic code paths',
 tests='The unit tests multiply a handful of fixed matrices in the SSE builds only; a wrong term that vanishes for them, or an error in the generic code path, is invisible.',
 files=['src/Matrix_Ops/MMUL/MMUL.c','src/Matrix_Ops/MMUL/MMUL_SSE.c','src/Matrix_Ops/MMUL/MMULdag.c'],
 mech=[('unrolled products per NC','src/Matrix_Ops/MMUL'),('SSE2 intrinsics variants','src/Matrix_Ops/MMUL/*_SSE.c')],
 note='All inputs, polynomial identity over the reals; rounding not modelled.'),

dict(id='M02',title='Elementary matrix algebra equals its mathematical definition',
 statement='For every complex N×N matrix, the building blocks of the colour algebra (sums, scalings, dagger, transpose, identity, diagonal and outer products, matrix-vector products, single, double and triple traces, packing and rebuilding of hermitian matrices, hermitian and antihermitian traceless projections) return exactly their mathematical definition on their documented domain, and do not modify their input operands. This holds in every build configuration (number of colours, vectorised or generic code path).',
 over=['inputs','configurations'],quant='all complex matrices, vectors and scalars in the documented domain of each routine; NC=2,3,4,5; SSE2 and generic code paths',
 tests='The tests use one or two fixed matrices per routine and only the vectorised builds; an error in an element that happens to vanish or in the generic code path stays unseen.',
 files=['src/Matrix_Ops/U_Nops.c','src/Matrix_Ops/exactQ.c','src/Matrix_Ops/trace_abc.c','src/Matrix_Ops/trace_abc_SSE.c'],
 mech=[('element-wise operations and traces','src/Matrix_Ops/U_Nops.c'),('hermitian projections','src/Matrix_Ops/exactQ.c'),('triple traces','src/Matrix_Ops/trace_abc*.c')],
 note='All inputs, polynomial identities over the reals; rounding not modelled.'),
dict(id='M03',title='Determinant, cofactors and matrix inverse are exact for every input',
 statement='For every complex N×N matrix the determinant routines return the determinant, whatever pivots are needed, including singular matrices; the cofactor routine returns the transposed cofactor matrix; and for every invertible matrix the inverse routine returns the matrix whose product with the input is the identity.',
 over=['inputs','configurations'],quant='all complex matrices, every pivoting sequence; NC=2,3,4,5; SSE2 and generic code paths',
 tests='The tests invert a few well-conditioned matrices for which no row exchange is ever needed.',
 files=['src/Matrix_Ops/LU.c','src/Matrix_Ops/LU_SSE.c','src/Matrix_Ops/invert.c','src/Matrix_Ops/invert_SSE.c','src/Matrix_Ops/U_Nops.c'],
 mech=[('LU decomposition with partial pivoting','src/Matrix_Ops/LU*.c'),('Gauss-Jordan elimination','src/Matrix_Ops/invert*.c'),('closed forms for NC<=3','src/Matrix_Ops/U_Nops.c')],
 note='All inputs and pivot orders via cut invariants on the elimination loops; exact arithmetic.'),
dict(id='G01',title='Site numbering, neighbour tables and momentum conventions are consistent',
 statement='For every lattice size in every direction (odd, even, asymmetric, length one), converting between site number and coordinates is exact and inverse to each other, the neighbour and back tables hold exactly the sites one step forward and backward with periodic wrap-around, and a site displaced by any separation is the periodically wrapped sum. The conversions between the momentum zones 0..2pi and -pi..pi map every momentum to the equivalent one in the target zone, for time slices and for the full lattice, and squared distances, momentum components and squared lattice momenta follow their definitions for every site.',
 over=['inputs','configurations'],quant='all lattice dimensions L_mu >= 1, all sites, all directions, all separations within one period; ND = 3 and 4',
 tests='The geometry tests run on one even lattice; odd or length-one directions, wrap-around corners and the less used conversions are never visited.',
 files=['src/Geometry/geometry.c','src/Geometry/init.c'],
 mech=[('lexicographic mixed-radix site numbering','src/Geometry/geometry.c'),('neighbour table construction and derived lattice constants','src/Geometry/init.c')],
 note='All dimensions and sites symbolically (mixed-radix arithmetic plus SMT); integers are mathematical integers (no overflow of size_t/int modelled).'),
dict(id='W01',title='Plaquette and link averages equal their defining lattice sums',
 statement='For every gauge field (not only special-unitary ones) and every lattice size, each plaquette routine returns exactly the average over all sites and all planes of its kind (all, spatial, temporal) of the real trace of the path-ordered plaquette divided by the number of colours, and each link routine the corresponding average link trace. The field is not modified. This holds in every build configuration and number of dimensions.',
 over=['inputs','configurations'],quant='all complex gauge fields, all lattice dimensions; NC=2,3,4,5, ND=3,4, SSE2 and generic code paths',
 tests='The tests only compare a field with its gauge transform, so a wrong plane, link or normalisation common to both is invisible, and only four-dimensional SSE builds are run.',
 files=['src/Field/plaqs_links.c'],
 mech=[('unrolled trace of four matrices','src/Field/plaqs_links.c complete_plaquette'),('lattice sums and normalisations','src/Field/plaqs_links.c')],
 note='All fields and volumes: loops summarised by induction as symbolic sums and compared with the defining sum; exact arithmetic. The per-thread variant is proved for its serial execution (parallel composition in P01).'),
dict(id='W02',title='Polyakov loops are the ordered product around the lattice',
 statement='For every gauge field, every lattice size and every direction, the Polyakov-loop routines return the average over all sites of the orthogonal slice of the trace of the ordered product of all links winding once around that direction (without dividing by the number of colours). The variant used inside parallel regions adds exactly this sum to its own pair of entries of the reduction array, normalises it, and leaves all other entries alone. The field is not modified.',
 over=['inputs','configurations'],quant='all complex gauge fields, all lattice dimensions and directions; NC=2,3,4,5, ND=3,4',
 tests='The tests only compare a configuration with its gauge transform on one lattice; wrong length, direction or start site give equally invariant numbers.',
 files=['src/Field/POLY.c'],
 mech=[('winding product and slice sum','src/Field/POLY.c')],
 note='All fields and lattice sizes: the winding loop is compared as a recurrence of symbolic length, the slice sum as a symbolic sum; slice coordinates by the contracts proved in G01.'),
dict(id='T01',title='Gauge transformations act covariantly on every link',
 statement='For every SU(N) gauge field and every field of SU(N) gauge matrices, the lattice-wide transformation replaces each link U_mu(x) by g(x) U_mu(x) g(x+mu)^dagger with periodic wrap-around, and the time-slice version does so for the spatial links of its slice, uses the supplied neighbouring slice for the temporal links, and leaves all links of other slices unchanged. The gauge matrices are not modified.',
 over=['inputs','configurations'],quant='all SU(N) links and gauge matrices, all sites, directions, slices and lattice sizes; NC=2,3,4,5, ND=3,4, SSE2 and generic code paths',
 tests='The tests check invariance of a few averages for one random transformation; a wrong link that these averages do not see, the slice version and other builds are not exercised.',
 files=['src/Gfix/gtrans.c'],
 mech=[('in-register triple product with SU(N) completion','src/Gfix/gtrans.c inline_gtransform_local'),('lattice and slice loops','src/Gfix/gtrans.c')],
 note='All fields: loops by induction over sites; SU(N) relations as rewrite rules; exact arithmetic.'),
dict(id='F01',title='Gauge-fixing derivatives, functionals and accuracy match their definitions',
 statement='For every SU(N) gauge field, the local derivative routines accumulate the backward difference of the chosen algebra-valued field (hermitian projection or logarithm) over the requested directions and return twice the trace of its square, the same value from the general and the fast routine; the accuracy measures return the volume average and the maximum of that quantity; the functionals return one minus the normalised average of the real link (or gauge matrix) trace, or the average squared logarithm for the slice functional; and the time-constancy measure compares the summed temporal field of every slice with that of the first. The fields are not modified.',
 over=['inputs','configurations'],quant='all SU(N) gauge fields and gauge matrices, all lattice sizes, both direction counts (Landau, Coulomb); NC=2,3,4,5, ND=3,4, SSE2 and generic code paths',
 tests='No test runs the gauge-fixing measures; a run that is stopped by a wrong accuracy measure still looks converged.',
 files=['src/Gfix/gftests.c','src/Gfix/lin_derivs.c','src/Gfix/log_derivs.c'],
 mech=[('lattice derivatives','src/Gfix/lin_derivs.c, log_derivs.c'),('functionals, theta tests, time constancy','src/Gfix/gftests.c')],
 note='All fields and volumes; the matrix logarithm enters by contract as a hermitian traceless function of its argument (its definition: M05); exact arithmetic; parallel composition in P01.'),
dict(id='S01',title='Staples and smearing projections equal their definitions',
 statement='For every SU(N) gauge field, every site, direction and set of directions, the staple routine adds to its argument exactly the sum over the other directions of the upper and the lower staple (or, for logarithmic smearing, the sum of their logarithms relative to the link). The APE, stout and logarithmic projections return the unitarised weighted sum, the exponential of the weighted hermitian projection times the link, and the exponential of the weighted staple times the link, respectively, also in the packed forms used by the flow. Input links and fields are not modified.',
 over=['inputs','configurations'],quant='all SU(N) gauge fields, all staples, weights, sites, directions and lattice sizes; NC=2,3,4,5, ND=3,4, SSE2 and generic code paths',
 tests='The tests only compare plaquettes of smeared fields before and after a gauge transformation, which a covariant but wrong staple or weight also satisfies.',
 files=['src/Smear/staples.c','src/Smear/projectors.c'],
 mech=[('staple sums','src/Smear/staples.c'),('projections back to the group','src/Smear/projectors.c')],
 note='All fields; exponential, logarithm and reunitarisation enter by contract as functions with values in the group or algebra; exact arithmetic.'),
dict(id='S02',title='Smearing maps every link by its recursion, in place, or reports failure',
 statement='For every SU(N) gauge field, lattice size, number of sweeps and set of weights, each smearing routine (simple APE/stout/log smearing over all or the spatial directions, and the hypercubic-blocking versions at every level of nesting) replaces every link of the smeared directions, once per sweep, by the projection of the staples of the field as it was before the sweep (for hypercubic blocking of the recursively blocked links that avoid the directions already used), and leaves the other links alone, although it works in place slice by slice. It returns success and releases its temporary fields; if a temporary field cannot be allocated or the projection type is unknown it reports failure and leaves the field as it was.',
 over=['inputs','configurations','faults'],quant='all SU(N) gauge fields, sweep counts, weights and lattice sizes including one and two time slices; APE, stout and log projections; NC=2,3,4,5, ND=3,4; failure of any temporary allocation',
 tests='The tests smear one even lattice and compare a plaquette with that of the gauge-transformed field; the in-place update at the lattice boundary, asymmetric weights and failing allocations are not seen.',
 files=['src/Smear/smear.c','src/Smear/HYP.c','src/Smear/4D_fast.c','src/Smear/ND_generic_HYP.c','src/Utils/GLU_malloc.c'],
 mech=[('in-place slice update with saved slices','src/Smear/smear.c'),('hypercubic blocking levels','src/Smear/HYP.c, 4D_fast.c, ND_generic_HYP.c'),('temporary fields and failure paths','src/Utils/GLU_malloc.c')],
 note='Sweep loop by a cut invariant, site loops by induction, every slice (first, inner, last, and lattices of one or two slices) compared link by link; staples and projections by the contracts proved in S01; a temporary-field allocation fails as a whole (allocation of a single site inside it is assumed to succeed). The full-depth hypercubic recursion is proved for two colours on every run and for three colours (five in three dimensions) in the thorough run.'),
dict(id='S03',title='One flow step is the third-order Runge-Kutta update of every link',
 statement='For every SU(N) gauge field, every step size of either sign and every lattice size, one integration step of the gradient flow (the variant with full-lattice temporaries and the one with slice temporaries alike) performs three stages with the weights -17/36, 8/9, -3/4 and step fractions -9/17, 1, -1: each stage adds the weighted force of the field as it was before that stage (hermitian projection of staple times link, or summed logarithms) to an accumulator that starts from zero in every step, and multiplies every link by the exponential of the accumulated force times the step fraction. All sites and directions of the field are updated exactly once per stage.',
 over=['inputs','configurations'],quant='all SU(N) gauge fields, step sizes of both signs and lattice sizes including one and two time slices; stout and log forces; NC=2,3,4,5, ND=3,4',
 tests='The tests flow one small even lattice and compare a plaquette with that of the gauge-transformed field: wrong coefficients, a stale accumulator or an update that uses already updated links at the lattice boundary stay gauge covariant or are never reached.',
 files=['src/Smear/wflowfuncs.c'],
 mech=[('stages and accumulation of the force','src/Smear/wflowfuncs.c RK3step, RK3step_memcheap, flow_directions'),('coefficients and start of a step','src/Smear/wflowfuncs.c step_distance, step_distance_memcheap')],
 note='Each stage is proved for all fields, weights and slices against its contract and the step is checked against the stage contracts; staples and projections by the contracts proved in S01; serial execution (parallel composition in P01); exact arithmetic.'),
dict(id='W03',title='Clover action density and topological charge match their definitions',
 statement='For every SU(N) gauge field on every four-dimensional lattice, the field-strength routines return the lattice sums of the traces of the squared clover field strength over all six planes and of the products of dual pairs of planes (times, temporal with the cyclic spatial plane), where the field strength is the traceless hermitian projection of the four oriented plaquettes around the site, or in the improved build of the weighted 1x1, 2x2, 1x2, 2x1, 1x3 and 3x1 loops. The per-thread and the per-site variants give the same sums and densities; the recorded flow measurement and the topological-charge convergence test use these sums with the normalisations t^2/(16 V) and -1/(64 pi^2), and the convergence test succeeds exactly when the charge changed by less than 0.005 and lies within 0.1 of an integer, otherwise it stores the new charge as the previous one. The field is not modified.',
 over=['inputs','configurations'],quant='all SU(N) gauge fields and lattice sizes; NC=2,3,4, SSE2 and generic code paths, standard and improved clover',
 tests='The tests compare charge and density before and after a gauge transformation on one lattice; a wrong loop, orientation, weight or normalisation is equally invariant, and the improved build is never run.',
 files=['src/Field/clover.c','src/Field/plaqs_links.c','src/Smear/wflowfuncs.c'],
 mech=[('clover leaves and projections','src/Field/clover.c'),('convergence test','src/Field/plaqs_links.c gauge_topological_meas_th'),('recorded measurement','src/Smear/wflowfuncs.c update_meas_list')],
 note='All fields: products of links are compared as words in the links (associativity, inverses), sums by induction over sites; the three-colour improved build uses the contract of the hermitian projection; the two conditions of the convergence test are compared on sampled real fields only, its effects on every path; exact arithmetic.'),
dict(id='H01',title='Heat-bath and overrelaxation updates are the exact SU(2)-subgroup updates',
 statement='For every SU(N) gauge field, every lattice with its site colouring and every coupling, the heat-bath and the overrelaxation sweep visit every link exactly once, colour by colour and direction by direction, and update it with the staples of the current field one SU(2) subgroup after the other: the subgroup part of link times staple^dagger is normalised, the link is rotated by the reflected subgroup matrix, which leaves its action unchanged (overrelaxation), or by the Kennedy-Pendleton candidate for the local Boltzmann weight, used only if it was accepted or after the fixed number of attempts (heat bath), and heat-bath links are reunitarised. The subgroup tables name every pair of rows once. Other links are unchanged.',
 over=['inputs','configurations','histories'],quant='all SU(N) gauge fields, couplings, random numbers and lattice sizes; every attempt of the rejection loop; NC=2,3,4,5, ND=3,4, SSE2 and generic code paths',
 tests='No test runs an update; a wrong subgroup, weight or acceptance step still produces a special-unitary field with a plausible plaquette.',
 files=['src/Update/hb.c','src/Update/relax.c','src/Update/SU2_rotate.c','src/Update/SU2_rotate_SSE.c'],
 mech=[('subgroup extraction, tables and rotations','src/Update/SU2_rotate.c, SU2_rotate_SSE.c'),('rejection sampling','src/Update/hb.c generate_SU2'),('lattice sweeps','src/Update/hb.c hb_lattice, relax.c OR_lattice')],
 note='Matrix level: polynomial identities for all inputs; rejection loop by a cut at its head; sweeps by a cut per (direction, colour) pass and induction over the sites of a colour, using the colouring property proved in G02; random numbers are arbitrary reals (their distribution is not modelled); square roots of the random candidate assume the accepted range 0<=1-a0<=2; the SU(2) rotations enter the sweep as functions of their arguments.'),
 dict(id='G02',title='The site colouring partitions the lattice and separates neighbours',
 statement='For every lattice with extents of at least one site (and for its time slices), init_cb puts every site into exactly one colour list, each list has exactly the sites of its colour, the number of colours is two when no extent larger than one is odd and three otherwise, and nearest neighbours in a direction longer than one site never have the same colour, including across the periodic boundary; so links of one direction on one colour can be updated in parallel without reading links being written. An empty colour is reported as a failure.',
 over=['inputs','configurations'],quant='all lattice extents and all sites; ND=3,4 and the time slices of ND=4',
 tests='No test builds a colouring; a wrong one gives data races and wrong updates only for particular extents and schedules.',
 files=['src/Geometry/draughtboard.c','src/Geometry/geometry.c'],
 mech=[('colour of a site','src/Geometry/draughtboard.c get_midx'),('counting and recording loops','src/Geometry/draughtboard.c init_cb')],
 note='Both loops over the sites are cut and shown for one arbitrary site (mixed-radix digits); colours of neighbours are compared by a case split over extent classes (even, 1, odd mod 6) and positions, each case decided by z3 for unbounded extents. malloc is assumed to succeed. The improved-action colouring (init_improved_cb, IMPROVED_SMEARING builds only) is not covered.'),
 dict(id='M05',title='exp(iQ) and its logarithm are the exact matrix functions',
  statement='For every traceless Hermitian Q, exponentiate and exponentiate_short write exactly exp(iQ) (closed form for NC=2,3, Newton interpolation on the eigenvalues for the GSL build, scaled Pade approximant of full order for the other NC>3 builds), including Q=0, negative determinants, degenerate eigenvalues for NC=2,3 and the series branches at small eigenvalues; and for NC=2,3 exact_log_slow and exact_log_slow_short invert it: they return a Hermitian traceless Q with exp(iQ)=U (two of its eigenvalues being the phases of eigenvalues of U) whenever the eigenvalues of U are distinct, and a Q with exp(iQ)=U to rounding near the identity. matrix_power(b,n) is b^n.',
  over=['inputs','configurations'],quant='all Hermitian Q and all SU(NC) U with distinct eigenvalues; NC=2,3 closed form, NC=4 GSL, NC=4,5 Pade; scalar and vectorised builds',
  tests='A test exponentiates one matrix, and the packed form is compared with itself; the sign branch, series branches and degenerate cases are not reached.',
  files=['src/Matrix_Ops/expMat.c','src/Matrix_Ops/exactQ.c','src/Matrix_Ops/effs.c','src/Matrix_Ops/evalues.c','src/Matrix_Ops/vandermonde.c','src/Matrix_Ops/U_Nops.c'],
  mech=[('Cayley-Hamilton exponential','src/Matrix_Ops/expMat.c exponentiate, exponentiate_short'),('logarithm','src/Matrix_Ops/exactQ.c exact_log_slow'),('coefficients and eigenvalues','src/Matrix_Ops/effs.c, evalues.c, vandermonde.c'),('powers','src/Matrix_Ops/U_Nops.c matrix_power')],
  note='Real arithmetic: the polynomial identities are exact modulo the relations of the eigenvalue parametrisation and truncated series are accepted when the remainder is below 1e-14. Assumed: the identity cos(3 acos(x)/3)=x, the eigenvalues returned by GSL, the contracts of inverse, multab and gram_reunit (proved or bounded elsewhere) in the Pade path, and malloc succeeding. The degenerate eigenvalues away from the identity for the NC=3 logarithm, degenerate eigenvalues in the GSL exponential and the series logarithm of NC>3 are outside the statement.'),
 dict(id='I01',title='Configuration files: binary data and checksums are exactly those of the field',
  statement='write_lat (NERSC small/gauge/NCxNC, MILC, SCIDAC, ILDG) reunitarises the field, writes the header first, then for every site in lexicographic order and every direction the stored reals of its link in big-endian double precision, and nothing else but the SciDAC trailer, with enough or with scarce memory alike; the NERSC sum, both MILC exclusive-or checksums and both SciDAC checksums handed to the headers are those of that data. The two readers fill every link with the numbers stored at its place (rebuilding the last row, or the link from its short form), byte-swapped as the header says, return the checksum kind of the header computed on that data (SciDAC on the raw bytes), reunitarise single-precision files only, and report a truncated file as failure. The HiRep writer and reader agree on one layout (time link first, quaternions for SU(2)), so what one writes the other reads back.',
  over=['inputs','configurations','sizes'],quant='all gauge fields, all lattice extents, all storage types, both precisions and byte orders, all header kinds, both memory strategies; NC=2..5, ND=3,4',
  tests='No test writes or reads a configuration; the slice-by-slice writer, single precision, the checksums and HiRep are never executed.',
  files=['src/IO/writers.c','src/IO/readers.c','src/IO/HIREP.c'],
  mech=[('data and checksums on output','src/IO/writers.c write_lat, compute_checksum, copy_data, write_binary_data_cheap'),('data and checksums on input','src/IO/readers.c lattice_reader_suNC, lattice_reader_suNC_cheaper'),('HiRep layout','src/IO/HIREP.c')],
  note='Contracts assumed: fread, fwrite (short counts only on input), malloc succeeds, crc32, CKSUM_ADD/GET, bswap_32/64 (uninterpreted, an involution), shorten/rebuild/gram_reunit, LU_det_overwrite (M03) and the header text. Machine words are modelled modulo 2^32 with exclusive-or sums; rotation by zero is taken as the identity although the code shifts by 32 there. 32-bit truncation of site numbers is ignored. The CERN format is not covered.'),
]
