R = '-I@REPO@'
YLD = 'legacy/Fierro_V0/src/Yaml-Serializable'
YI = '-I@REPO@/' + YLD + '/include'
APY = 'apps/multiphysics/src/input/Yaml'
SPECS = {}
NA = []
def spec(pid, src, runs, **kw):
    kw['flags'] = [R] + list(kw.get('flags', [])); SPECS[pid] = dict(src=src, runs=runs, **kw)
def run(entry, q=None, t=None, covers=(), qtime=None, ttime=None, **kw):
    d = dict(entry=entry, covers=list(covers), quick=dict(params=q or {}), thorough=dict(params=t or q or {}), **kw)
    if qtime: d['quick']['time'] = qtime
    if ttime: d['thorough']['time'] = ttime
    return d

cv = ['rejected', 'accepted', 'sequence', 'scalar']
spec('Y01', 'yaml_parse.cpp', [run('h_bytes_legacy', {'n': 6}, {'n': 7}, cv), run('h_bytes_apps', {'n': 6}, {'n': 7}, cv), run('h_templ_legacy', {'n': 3}, {'n': 4}, cv), run('h_templ_apps', {'n': 3}, {'n': 4}, cv)],
  flags=[YI], title='Any YAML text is parsed safely or rejected with a YAML exception',
  statement='For every byte string handed to the YAML parser, the call terminates and either builds a tree whose nodes can all be visited (each container reporting exactly the children it iterates over) or raises one of the library\'s own exceptions, in which case the root node is left empty. No input makes the parser crash, hang, read or write out of bounds, use uninitialised data, or leak memory.',
  over=['inputs'], qtext='every byte string up to the stated length, and every filling of the holes of templates reaching block scalars, quotes, comments, nesting',
  why='The tests parse a handful of well-formed documents; the guarantee is about every byte sequence, malformed ones included.',
  files=[YLD + '/src/Yaml.cpp', YLD + '/include/Yaml.hpp', APY + '.cpp', APY + '.hpp'],
  mech=[('line reading, comment stripping and character validation', YLD + '/src/Yaml.cpp ReadLines'), ('token-type post-processing', YLD + '/src/Yaml.cpp PostProcessing'), ('tree construction', YLD + '/src/Yaml.cpp ParseRoot/ParseSequence/ParseMap/ParseScalar')],
  bounds='documents of at most 6 (thorough 7) arbitrary bytes; 18 prefixes x 5 suffixes with 3 (thorough 4) arbitrary bytes between', assumptions=['string streams and getline behave as in rt/shim/fsx_ios.h (validated against libstdc++ on sampled paths)', 'no allocation failure'])

both = lambda n, *a, **k: [run(n + '_legacy', *a, **k), run(n + '_apps', *a, **k)]
YF = [YLD + '/src/Yaml.cpp', YLD + '/include/Yaml.hpp', APY + '.cpp', APY + '.hpp']
YAS = ['string streams behave as in rt/shim/fsx_ios.h (validated against libstdc++ on sampled paths)', 'no allocation failure']
spec('Y02', 'yaml_roundtrip.cpp', both('h_scalar', {'n': 3}, {'n': 4}, ['nonempty', 'empty'], ttime=800) + both('h_key', {'n': 2}, {'n': 3}, ['key'], ttime=800) + both('h_lines', {'n': 4}, {'n': 5}, ['text'], ttime=800) + both('h_fold', {'n': 6}, {'n': 8}, ['folded'], ttime=800) + both('h_shape', {'depth': 2, 'width': 2}, {'depth': 2, 'width': 3}, ['sequence', 'map'], ttime=800),
  flags=[YI], title='Serializing a YAML tree and parsing the text gives back the same tree',
  statement='For every tree of maps, sequences and texts, every legal indentation and newline layout, and every folding width, the text written by Serialize is accepted by Parse and yields a tree with the same structure, keys and values, and serializing that tree again yields the same text. Covered values: printable ASCII without double quotes and backslashes (including empty text, leading/trailing blanks, text that looks like YAML syntax), and multi-line text without comment signs whose first and last lines are not blank. Covered keys: non-empty printable ASCII not ending in a backslash.',
  over=['inputs'], qtext='every key and value up to the stated length in every kind of position, every tree shape up to the stated depth and width, every serializer configuration',
  why='Whether a character sequence survives quoting, escaping, folding and re-parsing depends on every combination of characters and position; tests try a few words.',
  files=YF, mech=[('text output and quoting', YLD + '/src/Yaml.cpp SerializeLoop, ShouldBeCited'), ('escaping of keys', YLD + '/src/Yaml.cpp AddEscapeTokens/RemoveAllEscapeTokens'), ('block text', YLD + '/src/Yaml.cpp ParseScalar')],
  bounds='values up to 3 (thorough 4) characters, keys up to 2 (3), multi-line texts up to 6 (7) characters over 7 letters, folded texts up to 7 (9), trees of depth 2 and width 2 (3); indentation 2-4', assumptions=YAS)
spec('Y03', 'yaml_node.cpp', both('h_seq', {'ops': 4}, {'ops': 5}, ['erase'], ttime=800) + both('h_map', {'ops': 3}, {'ops': 4}, ['copy'], ttime=800) + both('h_alias', {}, {}, ['self', 'child']),
  flags=[YI], title='A YAML node is a value: list, dictionary or text under any operation history',
  statement='Under every sequence of operations a node behaves as an ordinary list (append, prepend, insert at an index, erase an index, look up an index), dictionary (store, look up, erase a key; iteration in key order) or text: size, iteration order, look-up results and type always match that model, unknown keys and indices read as empty nodes, iteration over any node visits exactly its children. Copies and assignments are deep, independent of their source, safe for self-assignment and for assigning a node one of its own descendants, and everything allocated is released.',
  over=['histories'], qtext='every history of the stated number of operations with every index and key choice',
  why='Tests apply single operations to small fixed nodes; the guarantee is about every history, including aliasing assignments.',
  files=YF, mech=[('sequence storage', YLD + '/src/Yaml.cpp SequenceImp'), ('map storage', YLD + '/src/Yaml.cpp MapImp'), ('deep copy', YLD + '/src/Yaml.cpp CopyNode'), ('iteration', YLD + '/src/Yaml.cpp Iterator/ConstIterator')],
  bounds='histories of 4 (thorough 5) sequence operations, 3 (4) map operations over 5 keys, one aliasing assignment over 4 kinds of node', assumptions=YAS)

# ---- Y05-Y09
spec('Y05', 'yaml_as.cpp', both('h_int', {'n': 3}, {'n': 5}, ['number', 'text']) + both('h_wide', {}, {'n': 4}, ['fits', 'overflow']) + both('h_bool', {}, {'n': 6}, ['true', 'false']) + both('h_real', {'n': 4}, {'n': 5, 'wide': 1}, ['number', 'text']) + both('h_kind', {}, {}, []),
  flags=[YI], title='Typed reading of a YAML value is exact, with the default used exactly when due',
  statement='As<int>, As<long>, As<double> and As<float> return the number written at the start of the node\'s text (leading blanks and a sign allowed, integers saturated at the limits of the type, short decimals correctly rounded); As<T>() of text that holds no number, of empty text and of a node that is no scalar is zero (false, empty), and As<T>(default) of those is the default, as it is for a number that does not fit the type. As<bool> is true exactly for true, yes and 1 in any letter case. As<string> is the text itself. Both copies of the library behave this way.',
  over=['inputs'], qtext='every text up to the stated length, and every continuation of prefixes near the limits of int',
  why='Tests convert a few well-formed numbers; misreadings appear for blanks, signs, junk, empty text, missing nodes and values near the type limits.',
  files=YF, mech=[('typed access', YLD + '/include/Yaml.hpp Node::As, impl::StringConverter'), ('text of a node', YLD + '/src/Yaml.cpp Node::AsString')],
  bounds='texts of at most 3 (thorough 5) arbitrary bytes as integers, 14 characters around the limits of int, 5 (6) arbitrary bytes as bool, 4 (5) characters out of 6 (7) as decimals', assumptions=YAS)

YSF = [YLD + '/include/' + f for f in ('yaml-serializable.h', 'yaml-serializable-base.h', 'yaml-serializable-containers.h', 'yaml-serializable-struct.h', 'yaml-serializable-enum.h', 'type-discrimination.h', 'map-macro.h', 'configuration-validation.h', 'yaml-serializable-validation.h')]
import os as _os
YSF = [f for f in YSF if _os.path.exists('/repo/' + f)] + [YLD + '/src/Yaml.cpp']
spec('Y06', 'yaml_ser.cpp', [run('h_enum_text', {'n': 4}, {'n': 6}, ['accepted', 'rejected']), run('h_enum_value', {}, {}, ['valid', 'invalid'])],
  flags=[YI], title='Enumerations map one-to-one to their names in YAML text',
  statement='For a SERIALIZABLE_ENUM exactly the enumerators\' names (case sensitive, no surrounding characters) are accepted from text, each giving its own enumerator; any other text raises ConfigurationException and leaves the target unchanged; every enumerator is written as its name, so writing and reading are inverse, through YAML nodes, from_string/to_string and streams alike; an integer that is no enumerator has no name and is not written; an absent value leaves the target unchanged.',
  over=['inputs'], qtext='every text up to the stated length (and every one-character change of a long name), every 32-bit value of the enumeration',
  why='The macro cuts names out of one stringified list; prefixes, suffixes, blanks and out-of-range values are where that goes wrong, and tests try one or two names.',
  files=YSF, mech=[('enum conversion', YLD + '/include SERIALIZABLE_ENUM')], bounds='one enumeration of 5 names (one a prefix of another), texts of at most 4 (thorough 6) bytes, all 2^32 values', assumptions=YAS)
spec('Y07', 'yaml_ser.cpp', [run('h_struct', {}, {'range': 999}, ['loaded', 'required', 'strict', 'validate']), run('h_struct_text', {'n': 1}, {'n': 3}, ['text'], ttime=800), run('h_multi', {}, {}, ['accepted', 'rejected']), run('h_base', {}, {}, ['inherit', 'own'])],
  flags=[YI], title='Loading an object from YAML: required, strict, derived and validated fields',
  statement='Loading a document into an object sets exactly the fields present and keeps the others; a document lacking a required field is rejected before anything is loaded, and the message names the field; an invalid value is rejected naming the field\'s path; in strict mode a document holding any key, at any depth, that no object can take is rejected with its position, while non-strict loading ignores it; derive runs once after the fields are set and validate once after that, never on rejected input, and an exception from validate reaches the caller. The same holds for several objects sharing one document and for classes with a base. An object written as text and read back, strictly or not, has the same fields, and writing it again gives the same text.',
  over=['inputs', 'histories'], qtext='every combination of present, absent, invalid and surplus fields, every value in range, strict and non-strict',
  why='The rules interact (required x invalid x surplus x strict x nested x base class) and each test fixes one combination.',
  files=YSF, mech=[('field loops and required fields', YLD + '/include/yaml-serializable-struct.h'), ('strict validation', YLD + '/include/yaml-serializable*.h from_strict'), ('derive/validate', YLD + '/include DerivedFields, ValidatedYaml')],
  bounds='objects with 5 fields, a nested object and a list of at most 3 (text: 2) nested objects; numbers of two (thorough three) digits with sign; texts of at most 1 (3) characters; two objects in one document over all 32 subsets of 5 keys', assumptions=YAS)
spec('Y08', 'yaml_ser.cpp', [run('h_cont', {'len': 3}, {'len': 4}, ['vector', 'set', 'array', 'texts', 'nested', 'bools', 'enums', 'optional', 'pointers', 'bool', 'matrix', 'set in vector'], ttime=800), run('h_bracket', {'len': 4}, {'len': 6}, ['fits', 'other', 'empty']), run('h_bracket_text', {'n': 4}, {'n': 6}, ['list', 'no list']), run('h_ptrs', {}, {'range': 9999}, ['some', 'none'])],
  flags=[YI], title='Containers and pointers survive YAML writing and reading',
  statement='Vectors, sets, arrays (std::array and C arrays), nested containers, optionals, shared and unique pointers and booleans, of numbers, texts, enumerations and objects, are equal to the original after serialize/deserialize and after writing as text and reading it back, strictly or not; empty containers and null pointers included. A list written in brackets holds exactly the blank-trimmed pieces between commas ([] is empty), anything that is neither a list nor empty is rejected, an invalid entry is rejected naming its index, a fixed-length array accepts exactly its own length, and reading replaces what the container held before.',
  over=['inputs'], qtext='every content of containers up to the stated length, every bracket text over the stated letters',
  why='Each container kind, nesting, emptiness and text form is a separate template path; tests try one non-empty value for some of them.',
  files=YSF, mech=[('containers', YLD + '/include/yaml-serializable-containers.h'), ('bracket lists', YLD + '/include/yaml-serializable-containers.h deserialize_from_indexable/inline list')],
  bounds='containers of at most 3 (thorough 4) entries, nested ones 3x2; bracket texts of at most 4 (6) characters over 6 letters, lists of at most 4 (6) numbers with any blank padding', assumptions=YAS + ['std::regex behaves as in rt/shim/regex (validated natively on sampled paths)'])
spec('Y09', 'yaml_ser.cpp', [run('h_types', {}, {'range': 9999}, ['created', 'rejected']), run('h_types_list', {}, {}, ['loaded', 'rejected'])],
  flags=[YI], title='Type-discriminated objects get the class registered for their type field',
  statement='A document describing a TypeDiscriminated object creates exactly the class registered for the value of its type field and loads that class\'s and the base\'s fields; a missing, unknown or unregistered type is rejected and nothing is created; apply calls the first handler that matches the object\'s class and try_apply reports whether one did; strict loading knows the fields of each entry\'s own class and names the entry that has a foreign field; objects and lists of objects survive writing and reading, and derive runs once per object.',
  over=['inputs'], qtext='every combination of type, present and surplus fields, handler order, list length and strictness',
  why='Registration, construction and field lookup go through static registries and macros; tests cover one type at a time.',
  files=YSF, mech=[('registry', YLD + '/include/type-discrimination.h'), ('apply/try_apply', YLD + '/include/type-discrimination.h')],
  bounds='two registered classes, lists of at most 2 objects, numbers of two (thorough four) digits', assumptions=YAS)

# ---- M: micromechanics
MM = 'apps/micromechanics/'
MV = {v.replace('-', '_'): ['-I@REPO@/' + MM + v + '/src'] + (['-DLSV'] if v != 'EVPFFT' else []) + (['-DLSNP'] if v == 'LSNP-EVPFFT' else []) for v in ('EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2', 'LSNP-EVPFFT')}
MLS = [v for v in MV if v != 'EVPFFT']
def mm(n, q=None, t=None, covers=(), vs=None, **kw): return [run(n, q, t, covers, real=True, variant=v, **kw) for v in (vs or MV)]
def mfiles(*f): return [x for x in (MM + v + '/src/' + x for v in ('EVPFFT', 'LS-EVPFFT', 'LS-EVPFFT-J2', 'LSNP-EVPFFT') for x in f) if _os.path.exists('/repo/' + x)]
NS = 'rt/num stands in for MATAR/Kokkos (index-checked arrays, loops in ascending order) and MPI (one process)'
MAS = ['doubles are exact real numbers (rounding is outside these checks)', NS]
spec('M01', 'micro_math.cpp', mm('h_inv2', covers=['inverted', 'singular']) + mm('h_inv3', covers=['inverted', 'singular']) + mm('h_inv6', covers=['inverted', 'singular']) + mm('h_solve2', covers=['solved', 'singular']) + mm('h_solve3', covers=['solved', 'singular']),
  flags=['-I@V@/rt/num'], variants=MV, title='Dense inverses and linear solves are right or reported singular',
  statement='In every micromechanics solver, invert_matrix replaces any square matrix by its inverse and returns 0 exactly when the matrix is regular, and solve_linear_system replaces the right-hand side by the solution and returns 0 exactly when the system is regular; a singular input is reported by a non-zero return, never by a division by zero. Regular matrices with zeros on the diagonal are included.',
  over=['inputs'], qtext='every real 2x2 and 3x3 matrix and right-hand side with entries in [-100,100]; 6x6 matrices of every pivot pattern listed in the bounds',
  why='There are no tests of these kernels in the repository; zero pivots and row exchanges occur for special matrices only.',
  files=mfiles('math_functions.h', 'math_functions.cpp'), mech=[('Gauss-Jordan inverse', MM + '*/src/math_functions.h invert_matrix'), ('Gaussian elimination with pivoting', MM + '*/src/math_functions.cpp solve_linear_system')],
  bounds='n=2,3 fully symbolic; n=6: 30 permutations x symbolic diagonal plus one symbolic coupling in each of 5 rows', assumptions=MAS)
spec('M02', 'micro_math.cpp', mm('h_basis', covers=['deviatoric', 'full']) + mm('h_basis4', covers=['five', 'six']) + mm('h_voigt', covers=['to matrix', 'to tensor']),
  flags=['-I@V@/rt/num'], variants=MV, title='Tensor basis and Voigt conversions are exact, symmetric and invertible',
  statement='The six basis tensors are symmetric and orthonormal, the first five traceless. A symmetric second-order tensor (with five components: a deviatoric one) is recovered from its components and has their norm; a modulus is recovered from its fourth-order tensor, and applying it commutes with the change of basis. Voigt conversion places every component with minor symmetry (iopt 1, 3 with the engineering factors, 4 with antisymmetry in the first pair for shear rows), and matrix-tensor-matrix is the identity.',
  over=['inputs'], qtext='every real tensor, vector and modulus with entries in [-100,100], five and six components, every conversion option',
  why='There are no tests of these kernels in the repository; a wrong index shows up for particular components only.',
  files=mfiles('chg_basis.cpp', 'voigt.cpp'), mech=[('change of basis', MM + '*/src/chg_basis.cpp'), ('Voigt', MM + '*/src/voigt.cpp')], bounds='none on the values beyond [-100,100]; all components symbolic', assumptions=MAS)
spec('M03', 'micro_math.cpp', mm('h_euler', covers=['euler']) + mm('h_orient', covers=['rotation', 'no rotation']) + mm('h_angle', covers=['turned']),
  flags=['-I@V@/rt/num'], variants=MV, title='Orientation matrices are proper rotations and updates keep them so',
  statement='The matrix built from Bunge Euler angles is orthogonal with determinant one and follows the Bunge convention; updating an orientation with a skew increment gives again a proper rotation, turned about the axis of the increment, and a zero increment leaves it unchanged.',
  over=['inputs'], qtext='every set of Euler angles, every orientation, every skew increment with components in [-1,1]',
  why='There are no tests of these kernels in the repository; signs and index orders show for general orientations only.',
  files=mfiles('euler.cpp', 'orient.cpp'), mech=[('Euler angles', MM + '*/src/euler.cpp'), ('rotation update', MM + '*/src/orient.cpp')], bounds='angles in [-3.2,3.2] (tilt in [0,3.2]); orientations as unit quaternions with vector part over scalar part in [-10,10]^3; euler option 2 only (option 1 uses acos/atan2, outside the encoding)', assumptions=MAS)
spec('M04', 'micro_math.cpp', mm('h_vm', covers=['vm']) + mm('h_pow', {'e': 6}, {'e': 12}, ['pow']) + mm('h_array', covers=['array']) + mm('h_det', covers=['det'], vs=MLS) + mm('h_exp', covers=['exp'], vs=MLS),
  flags=['-I@V@/rt/num'], variants=MV, title='Scalar measures and helpers match their mathematical definition',
  statement='The equivalent strain is the von Mises norm of the symmetric deviator, not negative, and independent of the spin and of the trace; determinant33 is the determinant; matrix_exp agrees with the exponential series up to third order; PowIntExpo is the integer power for every exponent; minval, maxval and sum_array are the least, greatest and total entry.',
  over=['inputs'], qtext='every real 3x3 tensor, every base and exponent within the bounds, every array of up to five numbers',
  why='There are no tests of these kernels in the repository.',
  files=mfiles('vm.cpp', 'math_functions.h', 'determinant33.cpp', 'matrix_exp.cpp', 'utilities.h'), mech=[('equivalent strain', MM + '*/src/vm.cpp'), ('powers', MM + '*/src/math_functions.h PowIntExpo')], bounds='exponents from -6 to 6 (thorough -12 to 12), arrays of at most 5 entries', assumptions=MAS)

spec('M05', 'micro_kern.cpp', mm('h_greens_iso', covers=['ordinary', 'zero', 'nyquist']) + mm('h_greens_aniso', covers=['ordinary', 'zero', 'nyquist']) + mm('h_harden', covers=['hardened', 'gas']) + mm('h_schmid', covers=['schmid', 'no system']) + mm('h_reorient', covers=['reoriented', 'gas']) + mm('h_smacro', covers=['average', 'stress controlled'])
  + mm('h_pk1', covers=['pk1'], vs=MLS) + mm('h_plastic', covers=['plastic'], vs=MLS) + mm('h_defgrad', covers=['defgrad'], vs=MLS) + mm('h_stiff', covers=['stiffness', 'gas'], vs=MLS),
  flags=['-I@V@/rt/num', '-DUSE_FFTW'], variants=MV, title='Crystal plasticity kernels balance, harden, turn and average by their laws',
  statement='In every micromechanics solver: at every frequency other than zero and the Nyquist frequency of an even grid, the correction computed from a polarisation is a gradient whose reference stress balances the polarisation; at the zero frequency it is zero, at a Nyquist frequency minus the compliance times the polarisation. A slip system hardens by the Voce law integrated over the slip of the step, weighted by the coupling to each system, and the accumulated slip grows by the slip of all systems. The Schmid tensor is that of the slip direction and plane normal in the current configuration; the lattice turns by the spin of the material less that of the slip. The macroscopic stress is the volume-weighted mean, its equivalent the von Mises norm, and components under stress control are corrected by the compliance times the missing stress. In the large-strain solvers also: the first Piola-Kirchhoff stress is J (s - mean s) F^-T; slip adds the simple shear of its system to the plastic deformation; the deformation gradient is carried by the exponential of the increment, with its determinant and inverse kept, volume fractions that add up to one, and a mean velocity gradient equal to the prescribed one; the elastic stiffness turns with the lattice. Gas voxels and absent systems are left alone.',
  over=['inputs'], qtext='every polarisation, isotropic reference medium, stress, slip rate, strength, stiffness and prescribed value within the bounds, on the grids, frequencies and orientations listed',
  why='There are no tests of these kernels in the repository, and the regression cases use even grids and one material.',
  files=mfiles('inverse_the_greens.cpp', 'harden.cpp', 'update_schmid.cpp', 'update_orient.cpp', 'get_smacro.cpp', 'Cauchy_to_PK1.cpp', 'update_defgrad.cpp', 'update_defgradp.cpp', 'update_el_stiff.cpp', 'evpfft.cpp'),
  mech=[('spectral correction', MM + '*/src/inverse_the_greens.cpp, init_xk_gb'), ('Voce hardening', MM + '*/src/harden.cpp'), ('slip geometry and lattice rotation', MM + '*/src/update_schmid.cpp, update_orient.cpp'), ('averages and mixed boundary conditions', MM + '*/src/get_smacro.cpp'), ('kinematics', MM + 'LS*/src/update_defgrad.cpp, update_defgradp.cpp, Cauchy_to_PK1.cpp, update_el_stiff.cpp')],
  bounds='12 combinations of grid (1 to 8 points per direction, odd and even) and frequency; two voxels and two slip systems; orientations: one- and two-parameter families; three hardening laws (with and without saturation, none); the stretch of the elastic part is symbolic in h_schmid only; the discrete Green operator of LSNP (igamma=1), the polar decomposition and the constitutive iteration (evpal) are outside', assumptions=MAS + ['rt/num/heffte.h and rt/num/hdf5.h are declarations only: no transform and no file is used by these kernels'])

# ---- P: apps/multiphysics
MP = 'apps/multiphysics/src'
def pflags(solver):
    names = 'include src eos strength artificial_viscosity stress velocity temperature boundary_conditions fracture input common erosion'.split(); out = ['-I@V@/rt/num', '-I@REPO@/' + MP]
    for d, ds, _ in sorted(_os.walk('/repo/' + MP)):
        r = d[len('/repo/' + MP) + 1:]
        if _os.path.basename(d) in names and (not r.startswith('Solvers') or r.startswith('Solvers/' + solver + '/')): out.append('-I@REPO@/' + MP + '/' + r)
    return out
P3 = pflags('SGH_solver_3D')
PAS = MAS + ['rt/num/fsx_mesh.h stands in for the swage mesh of the ELEMENTS library (unstructured blocks of hexahedra or quadrilaterals with the connectivity swage provides)']
S3 = MP + '/Solvers/SGH_solver_3D/src/'
def P(*entries, **kw): return [run(e[0], *e[1:], real=True, **kw) for e in entries]
spec('P01', 'mp_geom.cpp', P(('h_hex_vol', {}, {}, ['volume']), ('h_hex_bmat', {}, {}, ['bmatrix']), ('h_quad', {}, {}, ['volume']), ('h_mesh_vol', {}, {}, ['3D', 'RZ']), ('h_area_weights', {}, {}, ['weights']), ('h_heron', {}, {}, ['heron'])),
  flags=P3, title='Element volumes, areas and corner normals are geometrically exact',
  statement='For any node positions: the volume of a hexahedron with bilinear faces, the area of a quadrilateral and its volume of revolution per radian are exact (an element without positive volume gets a tiny positive one); the corner normals of an element sum to zero and are the derivative of its volume (2D: area) with respect to the node positions; a triangle\'s area is right and a rectangle\'s corner areas are quarters; every element of a mesh gets the volume of its own nodes.',
  over=['inputs'], qtext='every position of the eight (four) nodes with coordinates in [-10,10], every order of node numbers of the meshes listed',
  why='There are no tests of this code in the repository; sign and index errors in the long closed formulas show up for distorted elements only.',
  files=[MP + '/common/src/geometry_new.cpp', MP + '/common/include/geometry_new.hpp'], mech=[('volumes', MP + '/common/src/geometry_new.cpp get_vol_hex, get_vol_quad, get_vol'), ('corner normals', MP + '/common/src/geometry_new.cpp get_bmatrix, get_bmatrix2D'), ('areas', MP + '/common/src/geometry_new.cpp get_area_quad, heron, get_area_weights2D')],
  bounds='one hexahedron / quadrilateral fully symbolic; meshes of two and four elements with one node symbolic; rectangles for the corner areas', assumptions=PAS)
spec('P02', 'mp_sgh.cpp', P(('h_velgrad', {}, {}, ['affine']), ('h_power', {}, {}, ['power']), ('h_position', {}, {}, ['moved']), ('h_rk', {}, {}, ['saved'])),
  flags=P3, title='3D hydro kinematics: velocity gradients, motion and saved state are exact',
  statement='The velocity gradient of an affine velocity field on any hexahedra is exact (scaled by the given volume), its trace is the divergence, and minus the stress contracted with it times the volume is the power of the element\'s corner forces; nodes move by the mean of old and new velocity; at the start of a step exactly the current state of every node and material point is saved.',
  over=['inputs'], qtext='every node position, velocity, stress, volume fraction and time step in the stated ranges; every assignment of material points to elements of the map',
  why='There are no tests of this code in the repository; index errors between element, material point, corner and node show only with several materials and general deformations.',
  files=[S3 + f for f in ('properties.cpp', 'position.cpp', 'momentum.cpp', 'time_integration.cpp')], mech=[('velocity gradient', S3 + 'momentum.cpp get_velgrad, get_divergence'), ('motion', S3 + 'position.cpp update_position'), ('saved state', S3 + 'time_integration.cpp rk_init')],
  bounds='two adjacent hexahedra, two materials (one in both elements, one in the second); coordinates, velocities, stresses in [-10,10]', assumptions=PAS)
spec('P03', 'mp_sgh.cpp', P(('h_energy', {}, {}, ['stage']), ('h_force', {}, {}, ['sound', 'eroded']), ('h_velocity', {}, {}, ['contact', 'no contact'])),
  flags=P3, title='3D hydro conserves momentum, angular momentum and total energy',
  statement='The corner forces of every material point sum to zero, exert no torque, equal minus its stress (with the pressure of a decoupled equation of state) times the corner normal, scaled by its volume fractions, and are zero if it is eroded; the force on a corner is the sum over the materials present; a node\'s momentum changes by time step times the sum of its corners\' forces, boundary force and contact force; and over every stage the kinetic energy gained is the internal energy lost.',
  over=['inputs', 'histories'], qtext='every node position, velocity, mass, energy, stress, volume fraction, time step and stage in the stated ranges, every erosion and equation-of-state combination',
  why='Conservation is an identity between three kernels linked only through index maps; no test of the repository runs them.',
  files=[S3 + f for f in ('force_sgh.cpp', 'momentum.cpp', 'energy_sgh.cpp')], mech=[('corner forces', S3 + 'force_sgh.cpp get_force'), ('momentum', S3 + 'momentum.cpp update_velocity'), ('energy', S3 + 'energy_sgh.cpp update_energy')],
  bounds='two adjacent hexahedra, two materials (one in both elements, one in the second), no artificial viscosity in the force identities; one stage; in the energy identity two velocities, one mass and half of the force components symbolic per run', assumptions=PAS)
BCF = [MP + '/boundary_conditions/' + f for f in ('velocity/constant_velocity_bc.hpp', 'velocity/no_velocity_bc.hpp', 'velocity/piston_velocity_bc.hpp', 'velocity/reflected_velocity_bc.hpp', 'velocity/time_varying_velocity_bc.hpp', 'velocity/zero_velocity_bc.hpp', 'stress/constant_stress_bc.hpp', 'stress/time_varying_stress_bc.hpp', 'temperature/constant_temp_bc.hpp')]
spec('P05', 'mp_bc.cpp', P(('h_vel_model', {}, {}, ['no condition', 'outside window', 'zero', 'constant', 'wall', 'piston', 'decaying']), ('h_vel_sets', {}, {}, ['sets']), ('h_stress', {}, {}, ['in window', 'outside window', 'closed', 'patch']), ('h_tag', {'nodes': 3}, {'nodes': 6}, ['tagged', 'empty']), ('h_temp', {}, {}, ['temperature'])),
  flags=P3, title='Boundary conditions act exactly on their set, with the prescribed value',
  statement='A boundary set holds exactly the boundary patches (and their nodes, once each) lying on the given plane, cylinder or sphere. Each velocity, stress and temperature condition changes only the nodes of its set, within its time window: constant, zero, reflected, piston and time-varying velocities give the prescribed component along their direction and leave the rest alone; a stress condition adds stress times outward area, split over the patch\'s nodes.',
  over=['inputs'], qtext='every node position, velocity, direction, magnitude, time and window in the stated ranges, every model and set',
  why='There are no tests of this code in the repository; errors show for oblique directions, times at the window ends and nodes in several sets.',
  files=BCF + [MP + '/Solvers/SGH_solver_3D/src/boundary.cpp', MP + '/common/src/geometry_new.cpp'], mech=[('models', MP + '/boundary_conditions'), ('application', S3 + 'boundary.cpp'), ('sets', MP + '/common/src/geometry_new.cpp tag_bdys, check_bdy')],
  bounds='meshes of one or two elements, two boundary sets; coordinates and velocities in [-10,10]', assumptions=PAS)
MM_ = MP + '/material_models/'
EXE = S3 + 'time_integration.cpp'
spec('P04', 'mp_sgh.cpp', P(('h_cfl', {}, {}, ['two elements', 'one element']), ('h_timestep', {}, {}, ['two elements', 'one element'])),
  flags=P3, title='3D hydro: the time step obeys every limit',
  statement='The time step is exactly the smallest of: 1.1 times the last one, the Courant fraction of the shortest distance between two nodes of any element of the material over the sound speed there (clipped to the minimal and maximal step), the time to the next output and the time to the end; every element of the material counts, eroded ones do not limit.',
  over=['inputs'], qtext='every pair of approaching nodes and distance, sound speeds, times, previous steps and limits in the stated ranges',
  why='There are no tests of this code in the repository; a forgotten pair of nodes or limit shows up only when that one is the smallest.',
  files=[EXE], mech=[('time step', EXE + ' get_timestep')], bounds='two elements, two materials; one symbolic distance between any chosen pair of nodes of a chosen element, or all time limits and sound speeds symbolic', assumptions=PAS)
spec('P06', 'mp_mat.cpp', P(('h_eos', {}, {}, ['gas', 'elastic', 'void', 'none']), ('h_erosion', {}, {}, ['eroded', 'sound'])) + P(('h_state', {}, {}, ['coupled', 'decoupled', 'eroded']), src='mp_sgh.cpp'),
  flags=P3, title='Material state follows from the current density, energy and deformation',
  statement='After a stage every material point of the given material, and no other, has density = mass / (volume times its volume fractions), the pressure and then the sound speed of its equation of state at that density and energy, and the stress of its strength model evaluated on that state for its own element; a point is eroded exactly when its pressure or density reaches its limit, stays eroded, and then carries no pressure or stress. The gamma-law, linear elastic and void equations of state give their closed formulas, the sound speed never below its minimum and never NaN.',
  over=['inputs'], qtext='every density, energy, volume, fraction, coefficient and stress in the stated ranges, every combination of coupled/decoupled equation of state, strength type, erosion and run location',
  why='There are no tests of this code in the repository; order of evaluation, indices of material and element, and limits (negative energy, erosion thresholds) show only for particular inputs.',
  files=[S3 + 'properties.cpp'] + [MM_ + f for f in ('eos/gamma_law_eos.hpp', 'eos/elasticity.hpp', 'eos/void_eos.hpp', 'eos/no_eos.hpp', 'erosion/basic_erosion.hpp')], mech=[('state update', S3 + 'properties.cpp update_state, update_stress'), ('models', MM_)],
  bounds='two elements, two materials; densities in (0,20], other values in [-10,10]', assumptions=PAS + ['material models in the state update are stand-ins whose result records every argument'])
spec('P07', 'mp_mat.cpp', P(('h_plastic', {'groups': 3}, {'groups': 4}, ['elastic', 'plastic'], None, 800), ('h_yield', {}, {}, ['kept', 'yield', 'strain']), ('h_rz_stretch', {}, {}, ['stretch']), ('h_rz_shear', {}, {}, ['shear']), ('h_rz_spin', {}, {}, ['spin'])),
  flags=P3, title='Hypo-elastic plasticity follows the objective rate and never exceeds yield',
  statement='Below yield the stress deviator grows by the Jaumann rate (twice the shear modulus times the deviatoric strain rate, turned with the spin) over the stage; above yield it is scaled radially back to the yield surface, so the equivalent stress never exceeds the yield strength; the result is symmetric and deviatoric, and an undeformed point below yield keeps its stress. The axisymmetric model does the same with no shear out of the plane.',
  over=['inputs'], qtext='every old and stage stress, velocity gradient, moduli, yield strength and time step in the stated ranges (in groups, see the bounds)',
  why='There are no tests of this code in the repository; transposed indices and wrong factors show for general stresses and velocity gradients only.',
  files=[MM_ + 'strength/decoupled_plasticity.hpp'], mech=[('3D and axisymmetric models', MM_ + 'strength/decoupled_plasticity.hpp')],
  bounds='3D: old stress, stage stress or velocity gradient fully symbolic while the others are fixed (thorough: all at once below yield); yield limit for three two-parameter patterns; axisymmetric: pure stretching, pure shear and pure spin', assumptions=PAS)
spec('P08', 'mp_mat.cpp', P(('h_mars_momentum', {}, {'all': 1}, ['3D', 'RZ'], None, 800), ('h_mars_frame', {}, {}, ['moving', 'mirror']), ('h_mars_dissipate', {}, {}, ['uniform', 'dissipated'])),
  flags=P3, title='Artificial viscosity conserves momentum, only dissipates, is frame independent',
  statement='The MARS viscosities (3D and axisymmetric, plain and directional) give corner forces that sum to zero over the element, never add kinetic energy, vanish in uniform flow, and are unchanged in a moving frame and mirrored in a mirrored flow.',
  over=['inputs'], qtext='every density, sound speed, velocity gradient and viscosity floor in the stated ranges, velocities of a chosen node (quick) or any node (thorough), every mirror plane',
  why='There are no tests of this code in the repository; signs in limiters and weights show up for particular flow directions only.',
  files=[MM_ + 'artificial_viscosity/mars.hpp'], mech=[('MARS models', MM_ + 'artificial_viscosity/mars.hpp')],
  bounds='one box-shaped element; limiter coefficients fixed; velocities of one node symbolic for the plain models, four velocity patterns for the directional ones; velocity gradient with five symbolic components', assumptions=PAS)
SZ = MP + '/Solvers/SGH_solver_rz/src/'
PZ = pflags('SGH_solver_rz')
spec('P09', 'mp_rz.cpp', P(('h_energy', {}, {}, ['stage']), ('h_force', {}, {}, ['sound', 'eroded']), ('h_velocity', {}, {}, ['velocity']), ('h_mass', {}, {}, ['mass']), ('h_areal', {}, {}, ['axis', 'off axis'])),
  flags=PZ, title='Axisymmetric hydro conserves mass and total energy, and its forces balance',
  statement='Corner masses add up to the material masses (volume fractions included), areal nodal masses give them back as mass by radius, also next to and on the axis; the corner force of each material is minus its stress times the corner normal plus the hoop terms, by volume fraction, none if eroded, and sums to zero under uniform pressure; nodal momentum changes by force times time, and kinetic plus internal energy do not change over a stage.',
  over=['inputs', 'histories'], qtext='every mass, radius, velocity, energy, stress, density, volume fraction and time step in the stated ranges, every erosion and equation-of-state combination',
  why='There are no tests of this code in the repository; conservation is an identity between kernels linked only through index maps, and the axis is a special case.',
  files=[SZ + f for f in ('force_sgh_rz.cpp', 'momentum_rz.cpp', 'energy_sgh_rz.cpp', 'sgh_setup_rz.cpp')], mech=[('forces', SZ + 'force_sgh_rz.cpp'), ('masses', SZ + 'sgh_setup_rz.cpp, time_integration_rz.cpp'), ('energy', SZ + 'energy_sgh_rz.cpp')],
  bounds='two quadrilaterals, two materials (one in both, one in the second); rectangles in the force check (plus a shifted node under uniform pressure); two velocities, one mass and all forces symbolic in the energy check', assumptions=PAS)
spec('P10', 'mp_rz.cpp', P(('h_velgrad', {}, {}, ['affine']), ('h_position', {}, {}, ['moved']), ('h_rk', {}, {}, ['saved']), ('h_state', {}, {}, ['coupled', 'decoupled', 'eroded']), ('h_cfl', {}, {}, ['two elements', 'one element']), ('h_timestep', {}, {}, ['two elements', 'one element'])),
  flags=PZ, title='Axisymmetric hydro: motion, velocity gradient, state and time step are exact',
  statement='The in-plane velocity gradient of an affine field is exact, the hoop rate is the mean radial velocity times area over volume, and the divergence is the trace; nodes move with the mean of old and new velocity and do not cross the axis; a step starts from the current energy, stress and motion; density, pressure, sound speed, stress and erosion of a material point come from its own element and state; the time step is the smallest of its limits.',
  over=['inputs'], qtext='every node position, velocity, energy, stress, coefficient, fraction and time limit in the stated ranges',
  why='There are no tests of this code in the repository.',
  files=[SZ + f for f in ('momentum_rz.cpp', 'position_rz.cpp', 'properties_rz.cpp', 'time_integration_rz.cpp')], mech=[('kinematics', SZ + 'momentum_rz.cpp, position_rz.cpp'), ('state', SZ + 'properties_rz.cpp'), ('time step', SZ + 'time_integration_rz.cpp get_timestep_rz')],
  bounds='two quadrilaterals, two materials; values in [-10,10]; strength models run on the device (host-run models are not implemented in this solver)', assumptions=PAS)

ST = MP + '/Solvers/SGTM_solver_3D/src/'
PT = pflags('SGTM_solver_3D')
spec('P11', 'mp_sgtm.cpp', P(('h_flux', {}, {}, ['linear', 'any']), ('h_melt', {}, {}, ['melted', 'solid']), ('h_temp', {}, {}, ['one', 'two']), ('h_props', {}, {}, ['tables']), ('h_move', {}, {}, ['moved'])),
  flags=PT, title='Heat conduction is exact for linear fields, conserves heat, flows downhill',
  statement='In the thermal solver the temperature gradient of a linear temperature field is exact in any hexahedron, the heat flux is minus the material point\'s own conductivity times it, and an element passes on through its corners all heat it receives, moving it from hot to cold; a node\'s temperature rises by its heat (boundary plus corners) times time over mass times the mean specific heat of the material points of its own elements, so with one material the total heat changes only by what enters through the boundary. A material point melts exactly when its element\'s mean temperature reaches 900 and stays melted; tabulated properties are read at that mean temperature, for the given material only. A step starts from the current temperature and position.',
  over=['inputs', 'histories'], qtext='every node position, temperature, mass, conductivity, specific heat, element volume and heat in the stated ranges, both orders of the material map',
  why='There are no tests of this code in the repository; index errors between element and material point show only with several materials, sign errors only for general temperature fields.',
  files=[ST + f for f in ('heat_flux.cpp', 'temperature_sgtm.cpp', 'properties.cpp', 'position.cpp', 'time_integration.cpp')], mech=[('conduction', ST + 'heat_flux.cpp get_heat_flux'), ('temperature', ST + 'temperature_sgtm.cpp update_temperature'), ('properties', ST + 'properties.cpp update_properties')],
  bounds='three hexahedra in a row, two materials (one in the outer two elements, one in the middle one), one material per element; coordinates in [-10,10], temperatures in [-100,100] (melting: [800,1000] in one element)', assumptions=PAS)
spec('P12', 'mp_sgtm.cpp', P(('h_convection', {}, {'nodes': 1}, ['patches']), ('h_radiation', {}, {'nodes': 1}, ['patches']), ('h_bdy_temp', {}, {}, ['sets']), ('h_source', {}, {}, ['heated', 'not heated'])),
  flags=PT, title='Thermal boundary heat and the moving source heat exactly what they touch',
  statement='Convection takes 100 (T - 293.15) and radiation 0.2 sigma T^4 per unit area from exactly the patches of the sets with that condition, each node of a patch carrying a quarter of its area at its own temperature; a prescribed temperature is given to exactly the nodes of its sets; the moving source heats exactly the elements whose centre lies in its sphere, by its power per sphere volume times the element\'s volume, evenly over the corners, adding to what conduction brought.',
  over=['inputs'], qtext='every patch and set assignment of the mesh, every trapezoidal patch in four planes, temperature, source position, power and element volume in the stated ranges',
  why='There are no tests of this code in the repository; errors in areas, sets or node shares show for oblique and unequal patches only.',
  files=[ST + f for f in ('boundary.cpp', 'heat_flux.cpp')], mech=[('boundary heat', ST + 'boundary.cpp boundary_convection, boundary_radiation'), ('prescribed temperature', ST + 'boundary.cpp boundary_temperature'), ('moving source', ST + 'heat_flux.cpp moving_flux')],
  bounds='three hexahedra in a row, two materials, three boundary sets; one trapezoidal patch with symbolic sides, one temperature symbolic (quick: node by patch; thorough: each node); source and one node anywhere in [-20,20]^3', assumptions=PAS)
spec('P13', 'mp_sgtm.cpp', P(('h_timestep', {}, {}, ['two elements', 'one element']), ('h_pairs', {}, {}, ['two elements', 'one element'])),
  flags=PT, title='Thermal solver: the time step obeys every limit',
  statement='The time step of the thermal solver is exactly the smallest of: 1.1 times the last one, one, 0.3 times the squared shortest distance between two nodes of any element of the material over six times the diffusivity there (conductivity over density times specific heat), clipped to the minimal and maximal step, the time to the next output and the time to the end; every element of the material counts.',
  over=['inputs'], qtext='every pair of approaching nodes and distance, material properties, times, previous steps and limits in the stated ranges',
  why='There are no tests of this code in the repository; a forgotten pair of nodes or limit shows up only when that one is the smallest.',
  files=[ST + 'time_integration.cpp'], mech=[('time step', ST + 'time_integration.cpp get_timestep')], bounds='three elements, two materials; one symbolic distance between any chosen pair of nodes of a chosen element, or all time limits and properties symbolic', assumptions=PAS)
spec('P14', 'mp_sgtm.cpp', P(('h_table', {}, {'rows': 5}, ['before', 'between', 'after'])),
  flags=PT, title='Tables interpolate linearly and hold their end values',
  statement='A table with ascending first column gives, for any argument, the linear interpolation between the two rows around it, the first row\'s value before the table and the last row\'s after it, for every column, the same on host and device; the tool path reads position and power off such a table.',
  over=['inputs'], qtext='every table of the stated number of rows with ascending times and any values, every argument',
  why='There are no tests of this code in the repository; errors sit at row boundaries and outside the table.',
  files=[MP + '/common/include/table.hpp', MP + '/common/include/additive_data.hpp'], mech=[('interpolation', MP + '/common/include/table.hpp linear_interpolation'), ('tool path', MP + '/common/include/additive_data.hpp')], bounds='2 or 3 (thorough 2 to 5) rows of five columns', assumptions=PAS)
PL, SL = pflags('level_set_solver'), MP + '/Solvers/level_set_solver/src/'
spec('P15', 'mp_lvl.cpp', P(('h_grad3', {}, {}, ['linear', 'constant']), ('h_grad2', {}, {}, ['linear', 'constant']), ('h_update3', {}, {}, ['distance', 'no upwind', 'upwind']), ('h_update2', {}, {}, ['distance', 'no upwind', 'upwind']), ('h_rk', {}, {}, ['saved']), ('h_bdy', {}, {}, ['boundary'])),
  flags=PL, title='Level set fronts follow the gradient at the material\'s speed',
  statement='The nodal gradient of a linear level set is exact at interior nodes of any affine grid and a constant has none on any grid; the front direction is that gradient at unit length; the rate of an element is the upwind mean, a distance function moving at the material\'s normal speed; a stage starts from the saved state, only the material\'s elements change, and boundary nodes keep the unit direction their condition leaves.',
  over=['inputs'], qtext='every linear field and grid map, displaced nodes for constants, every speed, level set value, direction, gradient and corner normal of a chosen node, every boundary set and model',
  why='There are no tests of this code in the repository; signs and weights of the upwinding only matter for tilted fronts and mixed corners.',
  files=[SL + 'solver_functions.cpp', SL + 'level_set_boundary.cpp', MP + '/common/src/geometry_new.cpp'], mech=[('gradient', SL + 'solver_functions.cpp nodal_gradient'), ('evolution', SL + 'solver_functions.cpp update_level_set'), ('boundary', SL + 'level_set_boundary.cpp')], bounds='a 2x2x2 (2D: 2x2) block; two materials; one node or value symbolic at a time; upwind weight zero or at least 0.001', assumptions=PAS)
spec('P16', 'mp_lvl.cpp', P(('h_time3', {}, {}, ['two elements', 'one element']), ('h_time2', {}, {}, ['two elements', 'one element']), ('h_pairs3', {}, {}, ['two elements', 'one element']), ('h_pairs2', {}, {}, ['two elements', 'one element'])),
  flags=PL, title='Level set time step is the longest within all limits',
  statement='With non-negative front speeds, the level set solver\'s next time step is the smallest of: 1.1 times the previous one, for every element of the material the stability limit of its closest two nodes at the front\'s speed (within the least and greatest steps), and the time left to the next output and the end.',
  over=['inputs'], qtext='every pair of approaching nodes and distance, speeds, times, previous steps and limits in the stated ranges',
  why='There are no tests of this code in the repository; a forgotten pair of nodes or limit shows up only when that one is the smallest.',
  files=[SL + 'time_integration.cpp'], mech=[('time step 3D', SL + 'time_integration.cpp get_timestep'), ('time step 2D', SL + 'time_integration.cpp get_timestep_2D')], bounds='a 2x2x2 (2D: 2x2) block, two materials; one symbolic distance between any chosen pair of nodes, or all limits and speeds symbolic', assumptions=PAS)
RF = MP + '/common/src/region_fill.cpp'
spec('P17', 'mp_fill.cpp', P(('h_inside', {}, {}, ['inside', 'outside']), ('h_voxel', {}, {}, ['before', 'after', 'set', 'clear']), ('h_fields3', {}, {}, ['linear', 'radial scalar', 'radial vector']), ('h_fields2', {}, {}, ['linear', 'radial scalar', 'radial vector']), ('h_fills3', {}, {}, ['one', 'two']), ('h_fills2', {}, {}, ['one', 'two'])),
  flags=pflags('SGH_solver_3D'), title='Regions paint exactly the elements inside them, later ones over earlier ones',
  statement='A region covers exactly the elements whose centre lies in its box, cylinder, sphere, set voxels or part; a full fill replaces what an element held, a partial one adds its material with its volume fraction (clipped to 0..1) or replaces that material\'s own earlier fill; every material of an element gets the density, energy and properties of its fill, its nodes the velocity and temperature of the region; uniform, linear, radial and spherical fields (velocity, level set, volume fraction) have the values their descriptions give, measured from their origins, in 2D and 3D.',
  over=['inputs'], qtext='every point, box, radius, origin, voxel offset and spacing; every combination of three fills over two materials and any volume fractions',
  why='There are no tests of this code in the repository; overlapping partial fills, 2D meshes and points just outside a voxel file are the corners no example input reaches.',
  files=[RF, MP + '/common/include/state.hpp'], mech=[('membership', RF + ' fill_geometric_region'), ('fills', RF + ' fill_regions, append_fills_in_elem'), ('fields', RF + ' paint_multi_scalar, paint_vector, get_region_scalar')], bounds='two elements, three fills, two materials, at most three materials per element; 3x2x2 voxels; shared nodes of different regions not claimed', assumptions=PAS)
spec('P18', 'mp_fill.cpp', P(('h_points', {}, {}, ['points']), ('h_masses', {}, {}, ['masses'])),
  flags=pflags('SGH_solver_3D'), title='Initial mass and energy follow the fills; material maps are inverses',
  statement='Each material point stands for one element of its material: the maps from materials to elements and back are inverse of each other; its mass is density times element volume times volume fraction, its specific energy the given one or the given energy over the mass, its properties those of its fill, and an element\'s level set the least of its materials\'; corners share their element\'s mass equally and the nodes together carry the mass of all materials.',
  over=['inputs'], qtext='every density, volume fraction, energy, level set and position in the stated ranges, for every placement of a material\'s fill',
  why='There are no tests of this code in the repository; a wrong slot is invisible with one material per mesh.',
  files=[RF, MP + '/common/include/state.hpp'], mech=[('points', RF + ' material_state_setup'), ('masses', RF + ' calc_corner_mass, calc_node_mass')], bounds='three elements, four fills, two materials (points); four elements, two materials (masses)', assumptions=PAS)
MIO = MP + '/common/include/mesh_io.hpp'
spec('P19', 'mp_mesh.cpp', P(('h_box2', {}, {}, ['box']), ('h_box3', {}, {}, ['box']), ('h_polar', {}, {}, ['polar', 'refused']), ('h_polar_fine', {}, {}, ['polar']), ('h_dims', {}, {}, ['dims', 'dims refused']), ('h_lagrange', {}, {'order': 4}, ['lagrange'])),
  flags=pflags('SGH_solver_3D'), title='Generated meshes cover their domain once, with shared, ordered nodes',
  statement='A generated 2D or 3D box has its nodes evenly spaced from the origin over the lengths asked for, every cell as exactly one element, neighbouring elements sharing their nodes, and every element\'s nodes in the solver\'s order; a polar mesh has its nodes on rings between the two radii and rays between the two angles, its elements turning counter-clockwise, and is refused exactly if it reaches below the symmetry axis; other dimensions are refused; the numbering of high-order hexahedra for output is a bijection with corners, edges, faces and body in VTK\'s order.',
  over=['inputs'], qtext='every origin, length and radius in the stated ranges for every mesh size and angle range listed; every pair of points of an element of every order',
  why='There are no tests of this code in the repository; mixed element counts, roundoff at the axis and shifted origins are not in the example inputs.',
  files=[MIO], mech=[('box meshes', MIO + ' MeshBuilder::build_2d_box, build_3d_box'), ('polar meshes', MIO + ' MeshBuilder::build_2d_polar'), ('point numbering', MIO + ' PointIndexFromIJK')], bounds='boxes of up to 4x4 and 3x3x3 elements; polar meshes of up to 3x3 elements over six angle ranges and of 25, 41, 50 angular elements; orders up to 3 (thorough 4) per axis; high-order boxes (HexN, unfinished in the code) not claimed', assumptions=PAS)
spec('P20', 'mp_out.cpp', P(('h_viz3', {}, {}, ['listed', 'den', 'sie', 'stress', 'vel_grad', 'mat_Cp', 'mat_geo_volfrac', 'node_coords', 'node_accel']), ('h_viz2', {}, {}, ['listed', 'node_coords']), ('h_none', {}, {}, ['none']), ('h_state', {}, {}, ['state']), ('h_ensight3', {}, {}, ['ensight']), ('h_ensight2', {}, {}, ['ensight'])),
  flags=pflags('SGH_solver_3D'), title='Output files hold the state, complete, under their names and times',
  statement='For every selection of fields, the graphics files of a cycle hold the mesh (points, elements, offsets, cell types), each selected node, Gauss point and element field (materials weighed by their volume fractions, mass summed, specific energy mass-averaged) under its own name with one value per node or element, and for each material on the mesh a part with its own nodes and its fields; the multiblock and collection files name exactly the files written, with their times, over all cycles; EnSight output does the same for one material per element; state dumps hold a line per material point and node with position, radii, state and velocity.',
  over=['inputs'], qtext='every value of every field, time and time step in the stated ranges, for four selections of fields, two material layouts and three solver numbers',
  why='There are no tests of this code in the repository; a field stored in the wrong slot, or a part named wrongly, shows only with several materials, some absent.',
  files=[MIO, MP + '/common/include/state.hpp'], mech=[('element and material fields', MIO + ' concatenate_elem_fields, concatenate_mat_fields'), ('nodal fields', MIO + ' concatenate_nodal_fields'), ('graphics files', MIO + ' write_vtu, write_vtm, write_pvd'), ('parts', MIO + ' build_material_elem_node_lists'), ('state dumps', MIO + ' write_material_point_state'), ('EnSight output', MIO + ' write_ensight')], bounds='three elements in a row (2D and 3D), two or three materials, two cycles; nodes off the axis in state dumps; one material per element in EnSight output (its element switch is not claimed)', assumptions=PAS + ['files are kept in memory by the stand-ins of rt/num/fsx_out.h (digits written are not modelled, values are)'])
spec('P21', 'mp_read.cpp', P(('h_ensight3', {}, {}, ['ensight']), ('h_ensight2', {}, {}, ['ensight']), ('h_abaqus', {}, {}, ['abaqus']), ('h_vtk3', {}, {}, ['vtk']), ('h_vtk2', {}, {}, ['vtk']), ('h_vtu3', {}, {}, ['vtu']), ('h_vtu2', {}, {}, ['vtu']), ('h_refuse', {}, {}, ['refused'])),
  flags=pflags('SGH_solver_3D'), title='Mesh files become the mesh they describe, in every supported format',
  statement='An EnSight, Abaqus, legacy VTK or VTU file is read as a mesh with all its nodes and elements: every node at the coordinates given times the scaling factors asked for, every element with its own nodes in the solver\'s order (around the element in 2D; along the axes in 3D), elements of a VTU file with their parts, and full connectivity; files that are missing or of unknown kind are refused.',
  over=['inputs'], qtext='every node coordinate in [-10, 10] and scaling factor in [0.1, 5], for every element count, numbering, element order, style and format listed',
  why='There are no tests of this code in the repository; a wrong node order or a scale applied to the wrong axis gives a mesh that still runs.',
  files=[MIO], mech=[('EnSight', MIO + ' read_ensight_mesh'), ('Abaqus', MIO + ' read_Abaqus_mesh'), ('legacy VTK', MIO + ' read_vtk_mesh'), ('VTU', MIO + ' read_vtu_mesh')], bounds='one or two linear elements, two node numberings, both element orders, 2D and 3D (Abaqus: 3D, nodes numbered from 1 in order; legacy VTK: a point per line, single blanks); high-order VTU elements not claimed', assumptions=PAS + ['files are kept in memory by the stand-ins of rt/num (digits read are not modelled, values are)'])
spec('P22', 'mp_input.cpp', P(('h_mesh', {}, {}, ['mesh']), ('h_dynamic', {}, {}, ['dynamic']), ('h_output', {}, {}, ['output']), ('h_solver', {}, {}, ['solver', 'solver refused']), ('h_bc_vel', {}, {}, ['velocity']), ('h_bc_stress', {}, {}, ['stress']), ('h_bc_temp', {}, {}, ['temperature']), ('h_bc_mixed', {}, {}, ['mixed']), ('h_reg_volume', {}, {}, ['volume']), ('h_reg_field', {}, {}, ['field']), ('h_reg_many', {}, {}, ['many']), ('h_mat_one', {}, {}, ['material']), ('h_mat_many', {}, {}, ['materials']), ('h_multimat', {}, {}, ['multimaterial']), ('h_table', {}, {}, ['table']), ('h_refuse', {}, {}, ['refused'])),
  flags=pflags('SGH_solver_3D'), title='Every option of the input file reaches the setting it names',
  statement='Whatever documented options a YAML input file gives - mesh, dynamic, output, solver, boundary condition, region, material and multimaterial options, alone or together, in any order and in any number of blocks - each one sets exactly the setting it names, for its own block (the id given, not the place in the file), on host and device; options left out keep their defaults; lists keep their values and order; model names select their functions; and unknown options, unknown values, missing required options and ids out of range are refused.',
  over=['inputs'], qtext='every real value in [-10, 10] given to a numeric option, for every set of options, order, model and number of blocks listed',
  why='There are no tests of this code in the repository; an option that reaches the wrong setting gives a run that completes with the wrong physics.',
  files=[MP + '/input/' + f for f in ('parse_tools.cpp', 'parse_mesh_inputs.cpp', 'parse_dynamic_inputs.cpp', 'parse_output_options.cpp', 'parse_solver_inputs.cpp', 'parse_bdy_conds_inputs.cpp', 'parse_regions.cpp', 'parse_material_inputs.cpp', 'read_abaqus_files.cpp', 'Yaml.cpp')], mech=[('mesh, time and output options', MP + '/input parse_mesh_input, parse_dynamic_options, parse_output_options'), ('solvers', MP + '/input/parse_solver_inputs.cpp parse_solver_input'), ('boundary conditions', MP + '/input/parse_bdy_conds_inputs.cpp parse_bcs'), ('regions', MP + '/input/parse_regions.cpp parse_regions'), ('materials', MP + '/input/parse_material_inputs.cpp parse_materials, parse_multimaterial_options'), ('material tables', MP + '/input/read_abaqus_files.cpp')], bounds='each option alone and all together in two orders; up to three blocks of each kind and two solvers; lists of up to 10 values; tables of up to three rows; printing of settings, host_ann_strength and the tabular data of several materials not claimed', assumptions=PAS + ['numbers in the text are tokens that stand for their values (digits are not modelled, values are)'])

RUNF = pflags('SGH_solver_3D') + [f for s_ in ('SGH_solver_rz', 'SGTM_solver_3D', 'level_set_solver') for f in pflags(s_) if '/Solvers/' in f]
SV = MP + '/Solvers/'
spec('P23', 'mp_run_sgh.cpp', P(('h_energy', {}, {'cycles': 2}, ['final time', 'last cycle']), ('h_energy1', {}, {'cycles': 3}, ['final time', 'output']), ('h_bound', {}, {'cycles': 3}, ['final time', 'output']), ('h_time', {}, {'cycles': 6}, ['final time', 'last cycle', 'output', 'output at the end']), src='mp_run_sgh.cpp') + P(('h_rzrun', {}, {}, ['final time', 'last cycle']), ('h_rzrun1', {}, {'cycles': 3}, ['final time', 'output']), ('h_rzaxis', {}, {'cycles': 3}, ['final time', 'output']), ('h_rztime', {}, {'cycles': 6}, ['final time', 'last cycle', 'output', 'output at the end']), src='mp_run_rz.cpp') + P(('h_heat', {}, {'cycles': 2}, ['final time', 'output']), ('h_tool', {}, {}, ['final time', 'output']), ('h_heattime', {}, {'cycles': 4}, ['final time', 'last cycle', 'output', 'output at the end']), src='mp_run_sgtm.cpp') + P(('h_front', {}, {'cycles': 3}, ['final time', 'output']), ('h_front2', {}, {'cycles': 2}, ['final time', 'output']), ('h_frontmix', {}, {}, ['final time', 'last cycle']), ('h_fronttime', {}, {'cycles': 4}, ['final time', 'last cycle', 'output', 'output at the end']), src='mp_run_lvl.cpp'),
  flags=RUNF, title='A run steps the whole state together to its final time, with every output due',
  statement='Given that the steps of a solver do what P02 to P16 say, its run (SGH3D, SGHRZ, SGTM3D and level set): starts at the solver\'s start time and ends at its final time or at the last cycle asked for; every material limits each step, which never passes the final time or the time of the next output, and the step cut short for an output is not kept; each Runge-Kutta stage moves every material\'s velocities (or temperature or front), energy, stress and positions from the state at the start of the step, with the forces of the current state, at the time of the step and with its share of the step; total energy is conserved whatever the forces are (SGH3D); and the initial state, every state an output interval after the last output, every requested iteration and the last state are written, at their time, once.',
  over=['schedules', 'inputs'], qtext='every start time, duration, output interval, step each material asks for, force, flux, velocity and energy listed, for one to three stages and several cycles',
  why='There are no tests of this code in the repository; a stage that uses last cycle\'s forces, a material left out of the step, or an output interval that only works when the run starts at time zero shows up after many cycles only.',
  files=[SV + f for f in ('SGH_solver_3D/src/sgh_execute.cpp', 'SGH_solver_rz/src/sgh_execute_rz.cpp', 'SGTM_solver_3D/src/sgtm_execute.cpp', 'level_set_solver/src/level_set_execute.cpp')] + [MP + '/common/include/additive_data.hpp'], mech=[('3D hydrodynamics', SV + 'SGH_solver_3D/src/sgh_execute.cpp execute'), ('axisymmetric hydrodynamics', SV + 'SGH_solver_rz/src/sgh_execute_rz.cpp execute, calc_node_areal_mass_rz'), ('heat', SV + 'SGTM_solver_3D/src/sgtm_execute.cpp execute'), ('level set', SV + 'level_set_solver/src/level_set_execute.cpp execute'), ('tool path', MP + '/common/include/additive_data.hpp')], bounds='one to three elements, one or two materials (three for fronts), one to three stages, up to four cycles (six thorough); steps of 0.2 to 1, durations of 0.3 to 2, intervals of 0.3 to 3, outputs every two cycles or none; contact, fracture, pressure equilibration and the quasi-static solver not claimed', assumptions=PAS + ['the member functions a step calls are replaced by stand-ins that do what P02 to P16 state of them, with forces, fluxes and steps in time that can be anything; files are replaced by a stand-in that records them'])
DRVF = RUNF + [f for f in pflags('TLQS_solver_3D') if '/Solvers/' in f]
spec('P24', 'mp_drive.cpp', P(('h_order', {}, {}, ['one solver', 'two solvers', 'three solvers']), ('h_meshfile', {}, {}, ['mesh file']), ('h_refused', {}, {}, ['refused'])),
  flags=DRVF, title='Solvers run in the order of the input, each from where the last one ended',
  statement='For any list of solvers in the input: the mesh is built or read once, the regions are filled once, every solver is initialised, set up and executed exactly once, in the order of the input, each with its own settings and number; the first starts at the start of the simulation and each later one when the one before it ends; a solver ends at its own end time but never after the final time of the simulation nor before it starts; each solver is told the final time of the simulation; inputs without a mesh or with a missing or unknown solver are refused before any solver is initialised.',
  over=['inputs', 'schedules'], qtext='every end time of every solver and final time in the stated ranges, for every kind and number of solvers listed',
  why='There are no tests of this code in the repository; a solver that runs on past the end or back in time needs several solvers with unusual end times.',
  files=[MP + '/src/driver.cpp', MP + '/include/driver.hpp', MP + '/input/Yaml.cpp'], mech=[('driver', MP + '/src/driver.cpp initialize, setup, run, execute'), ('solver set-up', MP + '/src/driver.cpp initialize_solvers, setup_solver_vars')], bounds='up to three solvers of every kind, box meshes and mesh files', assumptions=PAS + ['solvers, mesh building and reading, fills and the parsing of the other input blocks are replaced by stand-ins that record their calls'])
FR = SV + 'SGH_solver_3D/'
spec('P25', 'mp_frac.cpp', P(('h_zones', {}, {}, ['plane', 'corner', 'stack']), ('h_shape', {}, {}, ['shape']), ('h_open', {}, {}, ['open']), ('h_law', {}, {}, ['loading', 'unloading']), ('h_law1', {}, {}, ['loading', 'unloading']), ('h_law2', {}, {}, ['loading', 'unloading']), ('h_step', {}, {}, ['two steps']), ('h_params', {}, {}, ['parameters', 'none']), ('h_turn', {}, {}, ['turn', 'no check'])),
  flags=pflags('SGH_solver_3D'), title='Cohesive zones pair coincident nodes and pull them together by their law',
  statement='Every two coincident boundary nodes form one pair; a pair carries a quarter of each face its nodes\' elements have in common (nothing if they have none), in the direction of the first node\'s face; its opening is the normal part and its sliding the tangential part of the gap, now and at the end of the step; damage grows only while the combined opening grows, up to one, and never heals; without relaxation the traction is E_inf(1-damage) along the opening, with it the Prony branches relax exactly and their increments follow the law; the nodes of a pair get opposite forces, added to the nodal forces; state is kept only at the last stage of a step; parameters come from the fracture boundary condition; the reorientation check is a rigid rotation plus opening whose velocities match its motion.',
  over=['inputs'], qtext='every gap, velocity, normal, stiffness, damage and history in the stated ranges, one symbolic face at a time',
  why='There are no tests of this code in the repository; healing damage, double pairs at corners and state kept at the wrong stage need particular meshes and histories.',
  files=[FR + 'src/fracture.cpp', FR + 'include/reorientation_kinematics.hpp'], mech=[('pairs and areas', FR + 'src/fracture.cpp cohesive_zones_t::initialize, oriented'), ('openings', FR + 'src/fracture.cpp ucmap'), ('law', FR + 'src/fracture.cpp cohesive_zone_var_update, cohesive_zone_loads'), ('forces', FR + 'src/fracture.cpp compute_cohesive_zone_nodal_forces, commit_internal_vars, add_cohesive_zone_nodal_forces')], bounds='three layouts of up to four elements; up to two Prony branches; damage exponents 1, 2 or any (power uninterpreted); two steps of one or two stages', assumptions=PAS)
CT = SV + 'SGH_solver_3D/src/contact.cpp'
spec('P26', 'mp_contact.cpp', P(('h_sort', {}, {}, ['boxes']), ('h_find', {}, {}, ['inside', 'away']), ('h_share', {}, {}, ['pushed', 'released']), ('h_push', {}, {}, ['pushed', 'leaves']), ('h_pairs', {}, {}, ['both', 'not both'])),
  flags=pflags('SGH_solver_3D'), title='Contact finds the face a node went through and pushes both apart, equally',
  statement='Every boundary node is sorted into exactly one box, that of its place; a node inside another block, and no node outside one, is paired with the face it went through, at the point it projects to, with that face\'s outward normal; the forces of a pair act along its normal, are opposite and in the shares of the point touched, never pull, and are taken back when they would pull or the point leaves the face; over a whole step a node that would stay inside gets the force that closes the gap, up to the fraction its iterations leave, one that leaves gets none, all contact forces add up to zero and no other node feels one.',
  over=['inputs'], qtext='every place of the node over a face, depth, distance, speed, load, increment, total, normal and point touched in the stated ranges, for all six faces',
  why='There are no tests of this code in the repository; a wrong face order or sign shows up only for some of the six faces or for nodes about to leave.',
  files=[CT, SV + 'SGH_solver_3D/src/boundary.cpp'], mech=[('boxes', CT + ' sort'), ('pairs', CT + ' penetration_sweep, find_penetrating_nodes, penetration_check, isoparametric_inverse'), ('forces', CT + ' frictionless_increment, distribute_frictionless_force, force_resolution'), ('a step', SV + 'SGH_solver_3D/src/boundary.cpp boundary_contact_force')], bounds='h_pairs: two tips in opposite faces; otherwise a block and an element with one node near it, one symbolic coordinate at a time; two outer iterations; nodes in the middle of a face for whole steps (any place for pairs and shares); elements not flatter than the capture distance', assumptions=PAS)
