"""Writes properties.jsonl (kept in step by hand with the checks)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": "part of the state the property constrains"} for x in state.split("; ")]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

GEN = ["src/buildzqfield.js", "src/fr.cpp.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/fr.asm.ejs", "src/montgomerybuilder.js", "src/asmbuilder.js"]
p("F01", "Raw field arithmetic is exact modular arithmetic",
  "For every odd prime modulus the generator supports (up to 768 bits), the generated raw field code builds, and addition, subtraction, negation, copying, swapping, comparison, multiplication, squaring, multiplication by a word and inversion/division/exponentiation of the raw field return exactly the canonical result of integer arithmetic modulo the prime. This holds for the x86-64 assembly and for the portable C++ implementation, for all canonical operands including 0, 1 and q-1, and also when the destination is one of the operands.",
  ["inputs", "configurations"], "every modulus of the enumerated families, every pair of a boundary-digit operand alphabet (every pair of residues for tiny moduli), both implementations, every aliasing",
  "A test uses one modulus and a few operands; carry, borrow and final-subtraction errors need particular limb patterns in a particular modulus shape.",
  GEN + ["src/add.asm.ejs", "src/sub.asm.ejs", "src/neg.asm.ejs", "src/copy.asm.ejs", "src/montgomery.asm.ejs"],
  [("Montgomery code generator", "src/montgomerybuilder.js"), ("register allocation and spilling", "src/asmbuilder.js"), ("portable raw arithmetic", "src/fr_raw_generic.cpp.ejs"), ("raw field class", "src/fr.cpp.ejs")])
p("F02", "Raw field conversions round-trip and denote the right residue",
  "Converting a number into the raw field (from text in any radix, from signed and unsigned machine integers, from a big integer, from its big-endian bytes) and back yields that number modulo the prime, and entering and leaving the Montgomery representation are inverse to each other. The big-endian form always fills exactly the documented number of bytes, and a too small buffer is refused without being touched.",
  ["inputs", "configurations"], "every modulus of the families, every element of the operand alphabet, every conversion route, several radices and buffer sizes, both implementations",
  "Zero, small numbers, negative numbers and larger buffers take different paths for each width of modulus.",
  ["src/fr.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/montgomerybuilder.js"],
  [("string and integer conversion", "src/fr.cpp.ejs RawField fromString/set/fromUI/toString"), ("big-endian representation", "src/fr.cpp.ejs toRprBE/fromRprBE"), ("Montgomery conversion", "src/montgomerybuilder.js buildFromMontgomery")])
p("F03", "Tagged element arithmetic is independent of representation",
  "For elements in any of the representations a field element can take (short, short with cached Montgomery form, long, long Montgomery), addition, subtraction, negation, multiplication, squaring, inversion, division, integer division, remainder and power denote exactly the result over the integers modulo the prime, so equal numbers give equal results whatever their representation. This holds in both implementations for every prime of at least 64 bits, with the two operands allowed to be the same object and the destination distinct from them.",
  ["inputs", "configurations"], "every pair of the operand alphabet in every pair of representations, every modulus of the families, both implementations",
  "There are dozens of representation-pair code paths per operation, each with overflow and sign corner cases that a handful of samples cannot reach.",
  ["src/add.asm.ejs", "src/sub.asm.ejs", "src/neg.asm.ejs", "src/mul.asm.ejs", "src/montgomery.asm.ejs", "src/fr_generic.cpp.ejs", "src/fr.cpp.ejs"],
  [("short/long dispatch of add and sub", "src/add.asm.ejs, src/sub.asm.ejs, src/fr_generic.cpp.ejs"), ("mixed multiplication", "src/mul.asm.ejs, src/fr_generic.cpp.ejs"), ("big-integer operations", "src/fr.cpp.ejs inv/div/idiv/mod/pow")])
p("F04", "Tagged comparisons and logic follow the signed interpretation",
  "Equality, inequality, the four orderings and the logical operations on field elements return 0 or 1 according to the numbers the elements denote, where ordering reads values above half the prime as negative. The answer does not depend on how either operand is represented, in either implementation, for every prime of at least 64 bits.",
  ["inputs", "configurations"], "every pair of the operand alphabet (including the values around half the prime) in every pair of representations, every modulus of the families",
  "Ordering bugs only show around half the prime or for one representation pair out of sixteen.",
  ["src/cmpops.asm.ejs", "src/logicalops.asm.ejs", "src/fr_generic.cpp.ejs"],
  [("comparison dispatch", "src/cmpops.asm.ejs, src/fr_generic.cpp.ejs rlt/req"), ("logical operations", "src/logicalops.asm.ejs, src/fr_generic.cpp.ejs")])
p("F05", "Tagged bitwise and shift operations match the reference semantics",
  "Bitwise and, or, xor and not act on the canonical values cut to the bit length of the prime and reduced below the prime, and shifts by k move left (cut to the bit length and reduced) or right by k, a shift by a number above half the prime being the opposite shift by its distance from the prime, and shifts by at least the bit length giving zero. The result does not depend on the representation of the operands, in either implementation, for every prime of at least 64 bits.",
  ["inputs", "configurations"], "every pair of the operand alphabet and every shift amount around limb boundaries, half the prime and the prime, in every representation, every modulus of the families",
  "The limb-crossing, masking and reduction cases differ per shift amount and per modulus shape.",
  ["src/binops.asm.ejs", "src/fr_generic.cpp.ejs"],
  [("bit operations", "src/binops.asm.ejs"), ("shift tables and carries", "src/binops.asm.ejs, src/fr_raw_generic.cpp.ejs rawShl/rawShr")])
p("F06", "Tagged conversions preserve the denoted number",
  "Converting a field element to its normal, long-normal or Montgomery form, copying it (one or many), printing it, parsing it from text in any radix, and reading it as a machine integer or truth value all preserve the number it denotes; where a number fits 32 signed bits the machine integer is that number. This holds in both implementations for every prime of at least 64 bits.",
  ["inputs", "configurations"], "every element of the operand alphabet in every representation, every conversion, every modulus of the families",
  "The values around the 32-bit limits and around the prime take their own paths for each representation.",
  ["src/copy.asm.ejs", "src/montgomery.asm.ejs", "src/fr_generic.cpp.ejs", "src/fr.cpp.ejs"],
  [("toInt", "src/copy.asm.ejs, src/fr_generic.cpp.ejs"), ("representation changes", "src/montgomery.asm.ejs, src/fr_generic.cpp.ejs"), ("text", "src/fr.cpp.ejs str2element/element2str")])
p("F07", "Both implementations agree along every operation sequence",
  "Starting from any small set of elements, every bounded sequence of field operations leaves the assembly implementation, the portable implementation and an integer model in agreement on the numbers denoted, and every element produced stays well-formed (a canonical long value, or a short value within its range). Feeding one operation's output representation into the next therefore never changes a result.",
  ["histories", "configurations"], "breadth-first over all operation sequences up to the depth bound, modulo the reached abstract element states, for every modulus of the families",
  "The representations an operation produces (cached Montgomery values, non-normalised shorts) are only reachable through sequences that no unit test enumerates.",
  ["src/fr_generic.cpp.ejs", "src/fr.cpp.ejs", "src/mul.asm.ejs", "src/add.asm.ejs"],
  [("element type flags", "src/fr_element.hpp.ejs"), ("dispatch on flags", "src/*.asm.ejs, src/fr_generic.cpp.ejs")], state="value of each element; short/long flag; Montgomery flag")
p("F08", "The ARM64 raw layer computes the same results",
  "For every supported odd prime, the generated ARM64 assembly of the raw layer computes the same canonical results as integer arithmetic modulo the prime for addition, subtraction, negation, Montgomery multiplication and squaring, multiplication by a word, Montgomery conversion, copying, swapping, comparison, bitwise operations and shifts, whatever the aliasing of its arguments. It reads and writes nothing outside its operands, its own stack frame and its tables, and preserves the registers its calling convention reserves.",
  ["inputs", "configurations"], "every modulus of the families, every pair of the operand alphabet, every exported routine of the generated ARM64 text executed instruction by instruction",
  "No ARM machine is involved in the test runs, and the carry-chain corner cases need specific limb patterns per modulus shape.",
  ["src/armbuilder.js", "src/fr_raw_arm64.s.ejs", "src/buildzqfield.js"],
  [("ARM64 code builder", "src/armbuilder.js"), ("routine list and data", "src/fr_raw_arm64.s.ejs")])
T = ["c/f2field.hpp", "c/f2field.cpp"]
p("E01", "The quadratic extension is the field it claims to be",
  "For every base prime and every quadratic non-residue, the quadratic extension's addition, subtraction, negation, doubling, conjugation, multiplication, squaring, scaling, inversion, division, equality and zero/one tests agree with polynomial arithmetic modulo x^2 - nr. This holds with the destination aliasing any operand, and every element survives being printed and parsed back.",
  ["inputs", "configurations"], "all pairs of elements for small base primes with every non-residue, and a boundary alphabet over the production prime",
  "Only one non-residue and a few elements are ever exercised by a test.",
  T, [("tower arithmetic", "c/f2field.cpp"), ("non-residue special cases", "c/f2field.cpp initField/mulByNr")])
p("E02", "The degree-6 and degree-12 towers are the fields they claim to be",
  "The cubic and quadratic extensions stacked on the quadratic field implement exact arithmetic in F[t]/(t^3 - xi) and F[w]/(w^2 - t): ring operations, the distinguished multiplications, scaling, inversion, division, power, conjugation, equality and zero/one tests agree with schoolbook polynomial arithmetic. This holds with the destination aliasing any operand, and every element survives being printed and parsed back.",
  ["inputs", "configurations"], "all operand tuples of a coefficient alphabet over small primes where the tower is a field and over the production prime, every aliasing, every exponent up to the bound",
  "Each formula has many cross terms whose coefficients vanish for sparse or special sample elements.",
  ["c/f6field.hpp", "c/f6field.cpp", "c/f12field.hpp", "c/f12field.cpp"],
  [("degree-6 formulas", "c/f6field.cpp"), ("degree-12 formulas and power", "c/f12field.cpp")])
p("E03", "Frobenius maps are the p-power maps",
  "On the production curve's tower, the Frobenius map and its square equal raising to the power p and p squared on every element, are compatible with multiplication, and applying the map twelve times (the square six times) is the identity. The result may overwrite the argument.",
  ["inputs"], "every basis element and every element of a coefficient alphabet of both towers (the maps are additive, so the basis determines them)",
  "The tests check single numbers; a wrong constant in one coordinate only shows for elements with that coordinate non-zero.",
  ["c/f6field.cpp", "c/f12field.cpp"], [("Frobenius constants", "c/f6field.cpp, c/f12field.cpp constructors"), ("maps", "Frobenius, FrobeniusP2")])
C = ["c/curve.hpp", "c/curve.cpp"]
p("G01", "Curve operations implement the group law",
  "On every short Weierstrass curve, for every mixture of projective and affine operands and results, addition, subtraction, doubling, negation and copying compute the group law, including the point at infinity in any of its representations, equal points, opposite points and points of order two. This holds for every scaling of the projective coordinates, and when the result overwrites an operand.",
  ["inputs", "configurations"], "all curves over several small primes (all four kinds of the linear coefficient), all pairs of points, several scalings of each, all overloads, all aliasings; the same over a quadratic extension field",
  "The exceptional cases (infinity, doubling, opposite) depend on operand kind and aliasing, giving far more combinations than any test tries.",
  C, [("addition formulas", "c/curve.cpp add"), ("doubling formulas", "c/curve.cpp dbl"), ("infinity handling", "c/curve.cpp isZero/copy/neg")])
p("G02", "Multiplying a point by a scalar is repeated addition",
  "For every point, every scalar and every scalar width in bytes, multiplication of a projective or affine point by the scalar equals adding the point to itself that many times, including scalar zero, scalars beyond the group order, the point at infinity, and a result that overwrites the base.",
  ["inputs", "configurations"], "all points of all curves over small primes, every scalar up to the bound for each byte width, both operand kinds, aliasing",
  "A recoding or carry error shows only for particular bit patterns at the top or across byte boundaries of the scalar.",
  ["c/exp.hpp", "c/naf.cpp", "c/curve.hpp"], [("double-and-add over the recoded scalar", "c/exp.hpp nafMulByScalar"), ("recoding", "c/naf.cpp")])
p("G03", "Point equality and text form identify the point",
  "Two point values compare equal exactly when they denote the same point of the curve, for every combination of projective and affine forms, every scaling and every representation of infinity, and a point prints as its affine coordinates. Testing for infinity and converting to affine agree with that notion.",
  ["inputs", "configurations"], "all pairs of points of all curves over small primes with all scalings and all representations of infinity, all overloads",
  "Equality errors only show for mixed forms involving infinity or unusual scalings.",
  C, [("equality", "c/curve.cpp eq"), ("text", "c/curve.cpp toString"), ("affine conversion", "c/curve.cpp copy")])
p("K01", "The production curve engine has consistent parameters",
  "In the ready-made pairing-curve engine, both generators lie on their curves and have exactly the scalar field's order, the generators, coefficients and non-residues match the curve's published definition, and every copy of the parameters (global objects and engine members) agrees. Group laws, multiples and sums of products by every entry point of the curve classes are right on the subgroup elements reached from the generators.",
  ["configurations", "inputs"], "every parameter object of the engine; all sums of the generated multiples up to the bound; sums of products for every count, width and scalar alphabet place up to the bound",
  "A test that compares a result with another result of the same engine cannot see a wrong parameter.",
  ["c/alt_bn128.hpp", "c/alt_bn128.cpp"], [("engine parameters", "c/alt_bn128.hpp Engine"), ("global objects", "c/alt_bn128.cpp")])
p("N01", "Scalar recoding is a correct non-adjacent form",
  "For every scalar of every byte length, the recoded digits lie in {-1, 0, 1}, their weighted sum is the scalar, and no two neighbouring digits are both non-zero. Exactly the documented output length is written and nothing beyond the scalar is read.",
  ["inputs"], "all scalars of up to 3 bytes, and all byte-alphabet scalars of greater length; plus every state of the recoding automaton",
  "The recoding is a table driven automaton: an error in one of 1024 entries affects one byte context.",
  ["c/naf.cpp"], [("table construction", "c/naf.cpp buildNafTable"), ("table driven recoding", "c/naf.cpp buildNaf")])
p("M01", "Multi-scalar multiplication equals the sum of the products",
  "For every number of points, every scalar and every number of threads, the parallel multi-scalar multiplication returns the sum of the individual scalar multiples, including zero scalars, infinity points, repeated and opposite points, and scalar widths of at least one word that are not a multiple of the window. The strided variant returns the same sum restricted to the selected entries. This holds for every call on an object, whatever calls were made on it before.",
  ["inputs", "configurations", "histories"], "all tuples of scalars and points up to the bounds over small curves, all point counts around window changes, all thread counts up to the bound, all stride selections, all sequences of three calls from a set that varies every argument",
  "Window, bucket and carry handling changes with the number of points and the scalar width; samples hit one combination.",
  ["c/multiexp.hpp", "c/multiexp.cpp", "c/curve.hpp"], [("window extraction", "c/multiexp.cpp getChunk"), ("bucket accumulation and reduction", "c/multiexp.cpp processChunk/packThreads/reduce"), ("stride selection", "c/multiexp.cpp")])
p("M02", "Signed-window multi-scalar multiplication equals the sum of the products",
  "For every number of points, every scalar (including all-ones scalars), every scalar width of at least one word and every window size, the signed-window multi-scalar multiplication returns the sum of the individual scalar multiples, whatever number of worker threads the pool has and whatever calls were made on the same object before.",
  ["inputs", "configurations", "histories"], "all tuples of window-digit patterns up to the bounds, all point counts around window changes, all window sizes, all pool sizes up to the bound, all sequences of three calls from a set that varies every argument",
  "The carry between windows and out of the last window depends on the digit pattern and on the width modulo the window size.",
  ["c/msm.hpp", "c/msm.cpp"], [("signed digits and carry", "c/msm.cpp run"), ("window extraction", "c/msm.hpp getBucketIndex")])
p("T01", "The transform computes the discrete Fourier transform",
  "For every power-of-two size up to the one it was created for, the forward transform evaluates the input polynomial at the powers of the size's primitive root in order, and the inverse transform is its exact inverse, for every input, any number of threads and whatever transforms were made before with the same or another object. Creation succeeds exactly when the field has a root of unity of that order and is refused otherwise.",
  ["inputs", "configurations", "histories"], "every size up to the bound for several fields, every basis vector (the transform is linear) and every vector over tiny fields, every maximum size, every thread count up to the bound, every sequence of three transforms over two objects",
  "Index, stride and per-size constants are wrong only at particular sizes or positions, and a round-trip test hides errors that cancel.",
  ["c/fft.hpp", "c/fft.cpp"], [("roots of unity", "c/fft.cpp constructor"), ("butterflies", "c/fft.cpp fft"), ("inverse", "c/fft.cpp ifft")])
p("C01", "Work is split into disjoint pieces that cover everything",
  "For every range and every number of threads, a parallel loop calls its body on consecutive, non-overlapping, non-empty pieces that together cover the range exactly once, each with its own thread index below the thread count, and a parallel block runs its body exactly once per thread index. An empty range runs nothing, and sizes of the pieces differ by at most one.",
  ["inputs", "configurations"], "every element count and thread count up to the bound, every range start of an alphabet",
  "The split arithmetic has remainders that only show for particular count/thread pairs.",
  ["c/misc.hpp"], [("work division", "c/misc.hpp ThreadPool::divideWork"), ("dispatch", "c/misc.hpp parallelFor/parallelBlock")])
p("C02", "The thread pool completes every submission under every schedule",
  "In every interleaving of the pool's threads, every submitted piece of work runs exactly once, a wait returns only after the work it waits for has finished and its effects are visible, no wake-up is lost, no thread deadlocks, and destroying the pool terminates all of its threads. The pool can be reused for any number of rounds, and several threads can use one pool at the same time.",
  ["schedules", "histories"], "all interleavings of pools of up to the bounded number of workers over all bounded usage histories (construct, loop, block, destroy), up to the preemption bound, including spurious wake-ups",
  "A lost wake-up or a missing synchronisation needs one particular interleaving that ordinary runs almost never take.",
  ["c/misc.hpp"], [("worker loop", "c/misc.hpp ThreadWorker::worker"), ("submission and wait", "c/misc.hpp submit/wait"), ("shutdown", "c/misc.hpp ~ThreadWorker")], state="task slot; stop flag; mutex and condition queues of every worker")
p("C03", "Parallel algorithms are free of data races and of schedule dependence",
  "In every interleaving of their threads, the transform (including its construction), both multi-scalar multiplications and the strided variant have no two conflicting unsynchronised accesses to memory, and they return the same result as with one thread.",
  ["schedules", "configurations"], "all interleavings of the synchronisation operations up to the preemption bound, with a happens-before race check on every memory access, for bounded sizes and thread counts",
  "Racy accesses usually yield the right numbers in test runs; only exploring schedules with happens-before tracking decides their absence.",
  ["c/fft.cpp", "c/msm.cpp", "c/multiexp.cpp", "c/misc.hpp"], [("per-thread accumulators", "c/multiexp.cpp, c/msm.cpp"), ("root table construction", "c/fft.cpp constructor"), ("loop dispatch", "c/misc.hpp")])
p("C04", "A temporary thread limit is always restored",
  "A multi-scalar multiplication called with a thread limit runs its parallel parts with at most that many threads, and afterwards the caller's own setting is back to what it was, also for nested limits and for calls that return early.",
  ["histories", "configurations"], "every nesting of limits up to the depth bound over every value of an alphabet, and every early-return path of the multi-scalar multiplication",
  "A leak of the limit shows only in a later, unrelated parallel region.",
  ["c/misc.hpp", "c/multiexp.cpp"], [("scope guard", "c/misc.hpp ThreadLimit"), ("use", "c/multiexp.cpp multiexp")])
p("C05", "The library can be used from several threads at once",
  "Any two operations on shared fields (tagged and raw interfaces, portable and x86-64 code), extension fields, curves, transforms and multi-scalar multiplications, and readers each thread has of its own, can run in two threads at the same time, also when neither has run before: no two conflicting unsynchronised accesses to memory take place, operands that are only read are not written, and each operation returns what it returns alone.",
  ["schedules", "inputs"], "every pair of the listed operations from a cold start under every schedule up to the preemption bound with a happens-before race check on every memory access, for fields of four shapes; the assembled code with its data section and the operands write-protected; pairs of parallel algorithms on one pool up to the preemption or deviation bound",
  "A hidden static temporary, a lazily filled table or a pool that serves one caller gives right results in every single-threaded test.",
  ["src/fr.cpp.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/fr.asm.ejs", "c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/curve.cpp", "c/misc.hpp", "c/fft.cpp", "c/msm.cpp", "c/multiexp.cpp", "c/splitparstr.cpp", "c/naf.cpp", "c/binfile_utils.cpp"], [("shared field objects", "src/fr.hpp.ejs Raw<name>::field"), ("shared curve objects", "c/alt_bn128.cpp Engine::engine"), ("shared pool", "c/misc.hpp ThreadPool::defaultPool")], state="any static or member variable that outlives a call; task slot of every pool worker")
p("R01", "Nothing an operation acquires outlives it",
  "Once an operation of the library has returned, or has refused its input with an error, and its results and the objects made for it are destroyed, the memory, file descriptors, mappings and threads it acquired are released. This holds for field, extension and curve operations, scalar multiplications, multi-scalar multiplications and transforms of any size and thread count, thread pools used any number of times or never, and for opening and reading intact, damaged and unreadable files in any order of calls; repeating any of them does not make the process grow.",
  ["inputs", "histories", "fault_sequences"], "every operation and every ordered pair of operations, every pool, sum and transform size of the grid, every truncation and single-byte corruption (alphabet) of two files, every failing system call of the opening, and every sequence of reader calls up to the depth bound, each repeated with the held resources counted",
  "A leak does not change any result; it shows only after many repetitions, and usually sits on an early-return or refusal path that tests do not take or take once.",
  ["c/binfile_utils.cpp", "c/wtns_utils.cpp", "c/zkey_utils.cpp", "c/fft.cpp", "c/multiexp.cpp", "c/msm.cpp", "c/exp.hpp", "c/misc.hpp", "src/fr.cpp.ejs"], [("file buffer, descriptor and mapping", "c/binfile_utils.cpp BinFile constructors"), ("loader headers", "c/wtns_utils.cpp, c/zkey_utils.cpp loadHeader"), ("big integers of the transform", "c/fft.cpp FFT constructor"), ("worker threads", "c/misc.hpp ThreadWorker")], state="heap blocks, descriptors, mappings and threads of the process")
p("S01", "Tuple text is split at top-level commas only",
  "For every text of a (possibly nested, possibly parenthesised, possibly spaced) tuple of at least two components, the splitter returns exactly the top-level components without whitespace and without redundant outer parentheses, whatever the nesting. It terminates on every input.",
  ["inputs"], "all texts over the structural alphabet up to the length bound, and all printed forms of nested tuples up to the depth bound",
  "The number of nesting and spacing patterns grows exponentially; tests list a few.",
  ["c/splitparstr.cpp"], [("splitting", "c/splitparstr.cpp splitParStr"), ("outer parentheses", "c/splitparstr.cpp removePars")])
p("L01", "The integer logarithm is exact",
  "For every positive 32-bit number the integer logarithm is the position of its highest set bit.",
  ["inputs"], "all 2^32 - 1 positive arguments",
  "A table or multiplier error affects isolated arguments.",
  ["c/misc.cpp"], [("de Bruijn table", "c/misc.cpp log2")])
B = ["c/binfile_utils.hpp", "c/binfile_utils.cpp"]
p("B01", "Sectioned binary files are read back exactly",
  "For every well-formed sectioned file, opened from memory or from disk, every section is found under its identifier and position with its exact size and bytes, sequential reads return little-endian values and raw bytes in order, and reading state is kept per section: opening a second section while one is open, or finishing one that was not read completely, is reported. A reader keeps what it was given when it was opened: the buffer it was opened from may be changed or released afterwards. Sizes and positions beyond 4 GB are exact. Files with another type or a newer version, and absent sections or positions, are refused.",
  ["inputs", "histories"], "all files with up to the bounded number of sections and sizes, all sequences of reading calls up to the depth bound against a reference model",
  "The reading state is a protocol over call sequences; tests follow only the intended sequence.",
  B, [("directory parsing", "c/binfile_utils.cpp constructors"), ("reading protocol", "c/binfile_utils.cpp startReadSection/endReadSection/read*")], state="open section; position")
p("B02", "Malformed binary files are refused, not over-read",
  "For every byte sequence offered as a sectioned file, and every truncation or corruption of a valid one, opening and reading either succeed within the bounds of the data or report an error: no byte outside the data is read and the process does not crash.",
  ["inputs", "fault_sequences"], "every truncation point of valid files, every value of an alphabet in every header and directory field, all short byte strings up to the bound, each followed by all reading calls",
  "Each header field and each truncation point is its own case; tests only feed intact files.",
  B + ["c/wtns_utils.cpp", "c/zkey_utils.cpp"], [("directory parsing", "c/binfile_utils.cpp constructors"), ("section bounds", "c/binfile_utils.cpp getSection*/read")])
p("W01", "Witness headers are decoded exactly",
  "For every well-formed witness file the header reader returns the prime, its width and the number of variables stored in the file and leaves the file ready for further sections, and a header whose length disagrees with its contents is refused.",
  ["inputs"], "all field widths up to the bound, all values of an alphabet in each field, every header length around the right one",
  "Field order and width errors only show for files whose fields differ from the sample.",
  ["c/wtns_utils.cpp", "c/wtns_utils.hpp"], [("header decoding", "c/wtns_utils.cpp loadHeader")])
p("Z01", "Proving-key headers are decoded exactly",
  "For every well-formed Groth16 proving-key file the header reader returns both primes with their widths, the variable, public-input and domain counts, the number of coefficients and the six verification-key points at their right places, and a file of another protocol or with a header whose length disagrees with its contents is refused. This holds for every width and size the format can express.",
  ["inputs"], "all pairs of field widths up to the bound, widths and coefficient sections around 2^30, 2^31 and 2^32 bytes, all values of an alphabet in each field, every coefficient section size up to the bound, every header length around the right one",
  "Offsets depend on both widths; tests use one curve.",
  ["c/zkey_utils.cpp", "c/zkey_utils.hpp"], [("header decoding", "c/zkey_utils.cpp loadHeader")])
p("A01", "The generator's output depends on the prime and the name only",
  "The seven texts generated for a prime and a name are the same (up to the numbering of internal labels) whatever was built before in the same process, in whichever form the prime is given, and whatever other builds are in progress at the same time; another name gives the same texts with the name replaced. The command line writes exactly these texts, each into a file of its own: the assembly, header and source to the paths given by --oa, --oh and --oc when given, and the others under names made from the field's name.",
  ["histories", "schedules", "inputs"], "all sequences of builds up to the depth bound, all delivery orders of the template results of two and three concurrent builds up to the switch bound, all argument spellings and subsets of the output options for a family of primes",
  "State kept between builds, or shared by builds in progress, only shows in particular sequences and interleavings; the tests build one field per process.",
  ["src/buildzqfield.js", "src/montgomerybuilder.js", "src/armbuilder.js", "src/asmbuilder.js"], [("builder state", "src/buildzqfield.js ZqBuilder"), ("rendering", "src/buildzqfield.js buildField"), ("command line", "src/buildzqfield.js argv handling"), ("code builders", "src/asmbuilder.js, src/montgomerybuilder.js, src/armbuilder.js")], state="label counter; code and register state of the builders; pending template results")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
