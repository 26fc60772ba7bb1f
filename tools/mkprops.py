#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the authoring source of the property list)."""
import json, os
B='experimental/bits/'
def mech(*p): return [{"name":n,"where":w} for n,w in p]
P=[]
def add(id,title,statement,over,qtext,why,files,mechanism,observe=(),state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=mechanism,state=list(state),observe_at=list(observe),hook_needed=None)))
THIN="The 16 tests that run match disassembly of addition, mask-and and default initialisation for float and run min/max/reduce of one vector; "
ALLX="every vectorizable arithmetic type, every ABI tag obtainable as scalar/compatible/native/deduce_t<T,N>/fixed_size<N> (full, partially filled and multi-register widths), every x86 instruction-set level (SSE2, SSSE3, SSE4, AVX, AVX2, AVX-512 with and without BW/DQ/VL)"
ALLF=[B+'simd.h',B+'simd_builtin.h',B+'simd_x86.h',B+'simd_fixed_size.h',B+'simd_scalar.h']
add('C01','Arithmetic, bitwise and shift operators act element by element',
 'For all operands that are defined for the element type, each unary, binary, compound-assignment, increment/decrement and shift operator of a simd object yields in every element exactly the value that the scalar operator, converted back to the element type, yields for the corresponding elements. This includes shifts of narrow integers by counts up to the promoted width, division and remainder of every integer type, IEEE results for floating point, and broadcast of a scalar operand on either side.',
 ['inputs','configurations'],ALLX+'; all element values for which the scalar operation is defined',
 THIN+'no test that runs checks the result of *, /, %, shifts or any integer operator, and each (type, width, ISA) triple selects different code.',
 ALLF,mech(('elementwise operations on vector builtins','experimental/bits/simd_builtin.h _SimdImplBuiltin'),('8/16-bit multiply, shift, division emulation','experimental/bits/simd_x86.h _SimdImplX86'),('per-register application','experimental/bits/simd_fixed_size.h _SimdImplFixedSize'),('operator overloads','experimental/bits/simd.h class simd, _SimdIntOperators')),
 ['values read back through operator[] and copy_to'])
add('C02','Comparisons produce the mask of scalar comparisons',
 'For every pair of simd objects each of ==, !=, <, <=, >, >= (with a scalar on either side as well) and unary ! returns a mask whose element i is the result of the scalar comparison of elements i, with IEEE behaviour for NaN and signed zero and unsigned ordering for unsigned types. The mask reports the same truth values through subscripts, stores, reductions and bit-sets.',
 ['inputs','configurations'],ALLX+'; all element values including NaN, infinities, signed zeros, subnormals',
 THIN+'no comparison result is ever checked.',
 ALLF,mech(('_S_equal_to/_S_not_equal_to/_S_less/_S_less_equal/_S_negate','experimental/bits/simd_x86.h and simd_builtin.h')),['mask elements'])
add('C03','Masks are boolean arrays: logic, queries, load/store and bit-set views agree',
 'A mask behaves as an array of size() booleans: !, &&, ||, &, |, ^, ==, != and their compound forms, broadcast, element writes through references, loads and stores (also masked) and conversion to and from a bit-set of the same size act element by element. all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set equal their definitions over that array (the find functions for non-empty masks) no matter how the mask was produced, so unused padding of partially filled registers is never visible.',
 ['inputs','configurations','histories'],ALLX+'; all mask values and all ways to produce them',
 THIN+'mask reductions and logic other than & are not executed by any test.',
 ALLF,mech(('_MaskImplBuiltin/_MaskImplX86','experimental/bits/simd_builtin.h, simd_x86.h'),('_BitMask sanitisation','experimental/bits/simd.h _BitMask'),('implicit mask of partial registers','experimental/bits/simd_builtin.h _S_masked, _S_implicit_mask'),('bit-set masks of fixed_size','experimental/bits/simd_fixed_size.h _MaskImplFixedSize')),['results of the query functions'])
add('C04','Masked assignment changes exactly the selected elements',
 'where(mask, v) op= x for a simd v, with plain assignment, every compound operator, increment, decrement, and unary minus through a where expression, gives selected elements the value of the unmasked operation, leaves every unselected element bit-for-bit unchanged and never faults because of an unselected element; x may be a simd or a scalar. For a mask v plain assignment of a mask or bool does the same. where(bool, scalar) behaves like an if statement.',
 ['inputs','configurations'],ALLX+'; all masks and element values, operations that are undefined only in unselected elements included',
 THIN+'where expressions are not used by any test that runs.',
 ALLF,mech(('where_expression','experimental/bits/simd.h'),('_S_masked_assign/_S_masked_cassign/_S_masked_unary','experimental/bits/simd_builtin.h, simd_x86.h, simd_fixed_size.h'),('blend','experimental/bits/simd_x86.h _CommonImplX86::_S_blend')),['all elements of v after the operation'])
add('C05','Loads and stores transfer exactly size() converted elements',
 'Loading from an array of any arithmetic type gives element i = static_cast<T>(mem[i]) and storing to an array of any arithmetic type writes mem[i] = static_cast<U>(v[i]), for every alignment flag whose alignment requirement holds. No byte outside the size() elements is written and none outside is required to be accessible. A store followed by a load of the same type returns the original bits.',
 ['inputs','configurations'],ALLX+'; every pair of element and memory type, all values whose conversion is defined, all alignments, memory ending at an inaccessible page',
 THIN+'no load or store is executed; the conversion code has a separate path per (from, to, size, ISA).',
 [B+'simd.h',B+'simd_builtin.h',B+'simd_x86.h',B+'simd_x86_conversions.h',B+'simd_fixed_size.h'],mech(('_S_load/_S_store','experimental/bits/simd_builtin.h'),('__convert_x86','experimental/bits/simd_x86_conversions.h'),('load/store flags','experimental/bits/simd.h element_aligned_tag, vector_aligned_tag, overaligned_tag')),['memory around the stored range','values loaded'])
add('C06','Masked loads and stores touch exactly the selected elements in memory',
 'where(mask, v).copy_from(mem, flags) sets selected elements to the converted mem[i] and keeps the others; where(mask, v).copy_to(mem, flags) writes exactly the selected mem[i] and no other byte. Elements after the last selected one are not required to be accessible, unselected ones are not modified, for every memory type convertible to the element type.',
 ['inputs','configurations'],ALLX+'; all masks, element/memory type pairs, positions of the array relative to inaccessible pages',
 THIN+'masked memory access is never executed by a test that runs.',
 [B+'simd.h',B+'simd_builtin.h',B+'simd_x86.h',B+'simd_fixed_size.h',B+'simd_scalar.h'],mech(('_S_masked_load/_S_masked_store/_S_masked_store_nocvt','experimental/bits/simd_builtin.h, simd_x86.h, simd_fixed_size.h')),['memory bytes','register elements','page faults'])
add('C07','Casts between simd and mask types convert each element',
 'static_simd_cast, simd_cast, to_fixed_size, to_native, to_compatible and the implicit fixed_size conversion yield in element i exactly static_cast<To>(x[i]) for every pair of element types and every pair of ABIs of equal size; mask casts preserve every truth value. resizing casts keep the common prefix and zero (or false) the remainder.',
 ['inputs','configurations'],ALLX+'; all ordered pairs of element types, all values whose scalar conversion is defined',
 THIN+'no cast is instantiated by a test that runs.',
 [B+'simd.h',B+'simd_converter.h',B+'simd_x86_conversions.h',B+'simd_builtin.h',B+'simd_fixed_size.h'],mech(('_SimdConverter','experimental/bits/simd_converter.h'),('__convert_x86','experimental/bits/simd_x86_conversions.h'),('_S_convert of masks','experimental/bits/simd_builtin.h, simd_x86.h, simd_fixed_size.h')),['elements of the result'])
add('C08','split and concat partition and join without reordering or loss',
 'split into equal parts or into an arbitrary list of sizes returns pieces whose elements, read in order, are exactly the elements of the argument (simd and mask); concat of any sequence or array of simd objects returns all their elements in order. Splitting and concatenating again is the identity.',
 ['inputs','configurations','programs'],ALLX+'; all size lists adding up to size(), all element values',
 THIN+'neither function is instantiated by a test that runs; many size lists have dedicated code.',
 [B+'simd.h',B+'simd_fixed_size.h'],mech(('split/concat','experimental/bits/simd.h'),('__extract_part, __extract_center, __concat','experimental/bits/simd.h, simd_builtin.h, simd_fixed_size.h')),['elements of the pieces'])
add('C09','Reductions combine every (selected) element exactly once',
 'reduce(v, op) for associative and commutative op equals folding op over the elements, hmin/hmax return the smallest/largest element, for every size including sizes that are not a power of two. With a where expression only the selected elements take part and the identity element (or the documented limit for hmin/hmax) is returned when none is selected.',
 ['inputs','configurations'],ALLX+'; std::plus, multiplies, bit_and, bit_or, bit_xor and user supplied operations, all masks, values for which the fold is exact',
 THIN+'one reduction of one native float vector is executed and its value is only checked to be zero after a shift.',
 ALLF,mech(('_S_reduce','experimental/bits/simd_builtin.h, simd_fixed_size.h, simd_scalar.h'),('reduce/hmin/hmax overloads','experimental/bits/simd.h')),['returned scalar'])
add('C10','min, max, minmax and clamp select per element',
 'min(a,b), max(a,b), minmax(a,b) and clamp(v,lo,hi) (lo <= hi) return in element i exactly what std::min, std::max and std::clamp return for the i-th elements (for floating point, without NaN and up to the sign of equal zeros), for signed and unsigned types of every width.',
 ['inputs','configurations'],ALLX+'; all ordered element values',
 THIN+'min/max of native float only.',
 ALLF,mech(('_S_min/_S_max/_S_minmax','experimental/bits/simd_builtin.h, simd_x86.h, simd_fixed_size.h, simd_scalar.h')),['elements'])
add('C11','Exactly specified math functions equal their std:: counterparts per element',
 'abs, fabs, ceil, floor, trunc, round, nearbyint, rint, lrint, llrint, lround, llround, sqrt, copysign, fmod, remainder, remquo, fma, fdim, fmax, fmin and nextafter return for every element the value that the std function returns for that element (bit-identical except for NaN payloads and the sign of fmin/fmax of equal zeros), including subnormals, infinities, NaN, halfway cases and values beyond the integer range of the mantissa; nearbyint, rint and lrint honour the current rounding mode.',
 ['inputs','configurations'],'float, double and long double on '+ALLX+'; all bit patterns (for functions returning integers: those whose result is representable)',
 THIN+'tests/math.cpp cannot be built here; no math function runs.',
 [B+'simd_math.h',B+'simd_builtin.h',B+'simd_x86.h',B+'simd_fixed_size.h',B+'simd_scalar.h'],mech(('rounding functions without SSE4.1','experimental/bits/simd_builtin.h _S_trunc/_S_round/_S_floor/_S_ceil/_S_nearbyint'),('roundps and friends','experimental/bits/simd_x86.h'),('_S_remquo, _S_fmod via scalar call','experimental/bits/simd_builtin.h')),['elements'])
add('C12','Floating-point classification and unordered-safe comparisons never misclassify',
 'isfinite, isinf, isnan, isnormal, signbit, fpclassify, isunordered, isless, islessequal, isgreater, isgreaterequal and islessgreater agree with the std function on every element for every bit pattern (zeros, subnormals, infinities, quiet NaNs of both signs).',
 ['inputs','configurations'],'float, double and long double on '+ALLX+'; all non-signalling bit patterns',
 THIN+'no classification function is executed.',
 [B+'simd_math.h',B+'simd_builtin.h',B+'simd_x86.h',B+'simd_fixed_size.h',B+'simd_scalar.h'],mech(('integer tricks on the representation','experimental/bits/simd_builtin.h _S_isnan ... _S_fpclassify'),('AVX-512 fpclass, getexp','experimental/bits/simd_x86.h')),['mask elements'])
add('C13','sin, cos and hypot are accurate over the whole argument range',
 'For every finite argument sin and cos of each element are within a few units in the last place (relative to the magnitude of the result, or an absolute error of the order of epsilon close to multiples of pi/2) of the exact value, never leave [-1,1] by more than rounding, keep sin odd and cos even, and are NaN for infinities and NaN. hypot with two or three arguments is within a few units in the last place of the exact value without spurious overflow or underflow, is infinite if any argument is infinite and otherwise NaN if one is NaN; two-argument hypot does not depend on argument order.',
 ['inputs','configurations'],'float, double and long double on '+ALLX+'; all finite and special arguments',
 THIN+'the reference data of the math tests is not available and the math tests cannot be built.',
 [B+'simd_math.h'],mech(('__fold_input, __sinSeries, __cosSeries','experimental/bits/simd_math.h'),('__hypot','experimental/bits/simd_math.h')),['elements'])
add('C14','Construction, generators and element references address exactly one element',
 'A broadcast sets all elements, a generator constructor calls the generator once per index and element i equals its i-th result, and reads through operator[] return the element last written. Assignment, compound assignment, increment and swap through a reference v[i] change element i as the scalar operation would and no other element, for simd and simd_mask.',
 ['inputs','configurations','histories'],ALLX+'; all indices, sequences of element writes, values',
 THIN+'only linkTest uses one generator and no subscript.',
 ALLF,mech(('_SmartReference','experimental/bits/simd.h'),('_S_generator/_S_broadcast/_S_set','experimental/bits/simd_builtin.h, simd_fixed_size.h, simd_scalar.h'),('_SimdTuple subscript and _M_set','experimental/bits/simd_fixed_size.h')),['elements after each write'])
add('C15','Types, sizes, alignments and conversions follow the specification',
 'For every vectorizable type T and supported N: size() of simd and mask equals N for fixed_size<N> and deduce_t<T,N>, rebind_simd and resize_simd keep the other parameter (and have no member type where the result would be unsupported), the traits agree with the types, simd objects with an ABI tag other than fixed_size and all simd_mask objects are trivially copyable, objects hold at least size()*sizeof(T) bytes, memory_alignment suffices for vector_aligned access, and operator/math result types are the documented ones. Unsupported types, sizes, operands and value-changing implicit conversions are rejected at compile time without hard errors, supported ones accepted.',
 ['programs','configurations'],'every (T, N) and (T, U) pair, '+'every instruction-set level',
 THIN+'the type-level tests (sfinae.cpp) cannot be built; the property quantifies over programs.',
 [B+'simd.h',B+'simd_detail.h',B+'simd_builtin.h',B+'simd_scalar.h',B+'simd_fixed_size.h'],mech(('_AbiList/__deduce_impl','experimental/bits/simd.h'),('_ValuePreserving, __is_narrowing_conversion','experimental/bits/simd.h'),('memory_alignment','experimental/bits/simd.h')),['compile-time values'])
add('C16','Results do not depend on what the compiler knows or on optimisation',
 'A program over simd values yields the same observable values when its inputs are literals in the source (so that constant propagation or constant evaluation sees them) as when they are only known at run time, and at every optimisation level. Both equal the element-wise meaning of the operations.',
 ['programs','inputs','configurations'],'generated programs over construction, arithmetic, comparison, mask queries, where, casts, split/concat and reductions with literal inputs, -O0 to -O3, '+'all instruction-set levels',
 THIN+'the headers switch implementation with __builtin_constant_p/_M_is_constprop/is_constant_evaluated in many places and no test takes those branches and checks the value.',
 ALLF,mech(('_M_is_constprop branches','experimental/bits/simd.h, simd_builtin.h, simd_x86.h'),('__builtin_is_constant_evaluated branches','experimental/bits/simd.h, simd_builtin.h, simd_x86.h')),['program output'])
add('C17','Any history of operations gives the element-wise result on every ABI and ISA',
 'Executing any sequence of simd, mask, where, cast, shift, reduction, element and memory operations on a set of simd and mask variables leaves each variable with the values that the same sequence gives on plain arrays, after every step. The values do not depend on the ABI tag, on the instruction set compiled for, or on unused padding left behind by earlier operations.',
 ['histories','inputs','configurations'],'operation sequences of length up to tens of steps on several registers; '+ALLX,
 THIN+'no test composes operations; padding garbage only arises from compositions.',
 ALLF,mech(('partial registers and implicit masks','experimental/bits/simd_builtin.h'),('bit-mask sanitisation','experimental/bits/simd.h _BitMask, _SanitizedBitMask')),['all variables after every step'])
add('C18','Division never traps because of unused elements',
 'Integer division and remainder (binary, compound, with a scalar on either side, by constants) never fault when they are defined for every element, and floating-point division raises the exceptions invalid, divide-by-zero and overflow only if the scalar division of one of its elements raises them. This holds whatever the unused part of a partially filled register or of the last register of a fixed_size simd contains (signalling NaNs excepted), in particular zeros and, for the divisor, whether or not the compiler knows its value.',
 ['inputs','configurations','histories'],ALLX+'; every partially filled width of every type; all element values for which the division is defined, padding of arbitrary content',
 THIN+'no test divides or inspects the floating-point status; the content of padding cannot be chosen through the public interface alone.',
 [B+'simd_builtin.h',B+'simd_x86.h',B+'simd_fixed_size.h'],mech(('_S_divides/_S_modulus with __make_padding_nonzero','experimental/bits/simd_builtin.h'),('divps for narrow integers','experimental/bits/simd_x86.h _S_divides'),('implicit mask','experimental/bits/simd_builtin.h _VecBuiltin::_S_masked')),['fenv flags','signals'])
add('C19','libm-forwarded and special functions are applied per element',
 'acos, asin, atan, atan2, tan, acosh, asinh, atanh, cosh, sinh, tanh, exp, exp2, expm1, log, log10, log1p, log2, cbrt, pow, erf, erfc, lgamma, tgamma and the special functions (beta, elliptic integrals, cylindrical Bessel functions, expint, riemann_zeta, hermite, laguerre, legendre, assoc_laguerre, assoc_legendre, sph_bessel, sph_legendre, sph_neumann) return in element i the value of the std function of the same name applied to the i-th elements of the arguments.',
 ['inputs','configurations'],'float, double and long double on '+ALLX+'; arguments of the function domain',
 THIN+'none of these functions is instantiated by a test that runs.',
 [B+'simd_math.h',B+'simd_builtin.h',B+'simd_fixed_size.h',B+'simd_scalar.h'],mech(('_GLIBCXX_SIMD_MATH_CALL_ macros','experimental/bits/simd_math.h'),('_GLIBCXX_SIMD_MATH_FALLBACK','experimental/bits/simd_builtin.h')),['elements'])
add('C20','Exponent and significand functions decompose and recompose exactly',
 'frexp, ldexp, scalbn, scalbln, logb, ilogb and modf return per element exactly what the std functions return (including exponents, signed zeros, subnormals and infinities), so that ldexp(frexp(x)) and the two parts of modf reproduce x.',
 ['inputs','configurations'],'float, double and long double on '+ALLX+'; all bit patterns except where std leaves the result unspecified',
 THIN+'none of these functions is instantiated by a test that runs.',
 [B+'simd_math.h',B+'simd_builtin.h',B+'simd_fixed_size.h',B+'simd_scalar.h'],mech(('frexp, logb, modf','experimental/bits/simd_math.h'),('AVX-512 getexp/getmant','experimental/bits/simd_math.h __getexp, __getmant_avx512')),['elements and exponents'])
add('C21','The ARM and POWER implementations give the same element-wise results',
 'Compiled for AArch64, for 32-bit ARM with NEON (v7, also with -ffast-math where float vectors are enabled, and v8) or for POWER (8 and 10), simd and simd_mask operations (operators, shifts, comparisons, mask logic and queries, where, loads and stores, casts, split/concat, reductions, min/max, math functions, classification) compile and give the same element values as the scalar operations, for every element type and for full, partial and fixed_size widths, whatever the unused part of a register contains.',
 ['inputs','configurations'],'all element types (long double and wchar_t, which differ between the targets, excepted) and ABI tags of the targets; all defined element values and padding contents',
 'The build only syntax-checks these headers with cross compilers; nothing is executed for these targets.',
 [B+'simd_neon.h',B+'simd_ppc.h',B+'simd_builtin.h',B+'simd.h'],mech(('_SimdImplNeon, _MaskImplNeon, _CommonImplNeon, _MathImplNeon','experimental/bits/simd_neon.h'),('_SimdImplPpc, _MaskImplPpc','experimental/bits/simd_ppc.h'),('width and intrinsic type selection of the targets','experimental/bits/simd.h')),['elements, computed by executing the code clang generates for the target (LLVM IR, target intrinsics given their documented element-wise meaning)'])
add('C22','The portable fallback and other build configurations stay correct',
 'Without any SIMD instruction set the library falls back to builtin arithmetic types with the same results, and the documented configuration choices (language standard and strict ISO mode, optimization level, disabled forced inlining, implicit mask casts, static-cast construction, debug assertions, no exceptions, -ffinite-math-only for finite values, -fno-signed-zeros up to the sign of zero, -ffast-math for finite values and operations the compiler may not approximate) do not change the element-wise results of operations.',
 ['inputs','configurations'],'builds of the operation set for each configuration; all defined element values (finite, exactly representable results under -ffast-math)',
 'Tests are built in one configuration only; README promises a fallback with correct execution for all targets.',
 [B+'simd_detail.h',B+'simd.h',B+'simd_builtin.h',B+'simd_scalar.h',B+'simd_fixed_size.h',B+'simd_math.h'],mech(('feature detection macros','experimental/bits/simd_detail.h'),('__vectorized_sizeof, native ABI selection','experimental/bits/simd.h'),('__FINITE_MATH_ONLY__/__FAST_MATH__ branches','experimental/bits/simd_math.h, simd_builtin.h')),['elements'])
add('C23','Install makes exactly the library available; uninstall removes only that',
 'install.sh --includedir=DIR copies every header needed by <experimental/simd> into DIR so that it compiles and behaves as from the source tree, touching no other file below DIR; a relative DIR is relative to the directory of the caller; --uninstall removes exactly the files an installation creates and leaves everything else, and both are idempotent in any order. An unknown option, a missing or unwritable directory or a failing compile test leaves DIR unchanged and gives a non-zero exit status, and so does (status only) a header that cannot be written or removed.',
 ['histories','configurations','inputs'],'sequences of install/uninstall with different option spellings, directory names (spaces included) and pre-existing files',
 'install.sh is not run by any test.',
 ['install.sh','experimental/simd'],mech(('option parsing, compile test, install/rm loops','install.sh')),['directory tree before and after, exit status'])
os.makedirs('/verif',exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p,sch)
    print(len(P),'ok')
except ImportError: print(len(P),'unvalidated')
