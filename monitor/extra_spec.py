"""Properties of the execution environment: memory, undefined behaviour, threads, timing, randomness, history."""
from spec import P, TR  # noqa: F401

ALLSRC = ["src/ladder255.c", "src/ladder448.c", "src/edwards255.c", "src/edwards448.c", "src/sign255.c", "src/sign448.c", "src/hash255.c",
          "src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c", "src/bytestring.c", "third_party/sha512.c", "third_party/sha3.c", "third_party/sha512_2way.c"]

P("C22", "Calls read and write exactly the caller's buffers and initialised memory",
  "Every public operation (Diffie-Hellman, EdDSA key generation, signing and verification, hashing, hash-to-curve, field arithmetic) writes only its documented output buffers, exactly their documented size, and reads only its documented inputs, exactly the stated lengths, wherever they lie and however they are aligned within the types' requirements. Inputs are not modified. No operation reads or writes outside its own stack and heap objects, uses memory after it was released, or lets its result or control flow depend on uninitialised memory. Rejected calls respect the same bounds.",
  ["inputs", "memory layouts", "configurations"], "all inputs and lengths of the public API, all placements of the buffers, all build configurations",
  "A test passes whatever happens to the bytes around its buffers; reads past the end stay invisible unless the next page is unmapped (three such defects were repaired).",
  ALLSRC, [{"name": "block-wise vector loads, sponge and padding writes, fixed-size copies", "where": "third_party/sha512_2way.c, third_party/sha3.c, src/"}],
  "guard pages, canaries, AddressSanitizer, Valgrind memcheck",
  "Buffers end or begin at inaccessible pages, or are exact heap blocks, on five builds; memcheck on one. Stack overruns within one frame are seen by AddressSanitizer builds only; vector assembly accesses are covered by guard pages and memcheck, not by AddressSanitizer.")
P("C23", "No public call executes undefined behaviour",
  "No input to a public operation makes the library execute undefined behaviour of the C language at its own source level: signed overflow, out-of-range shifts, out-of-bounds indexing, null pointer use (including null with a zero length, which the API accepts for empty messages and contexts), pointer overflow, invalid values, or reaching the end of a value-returning function.",
  ["inputs", "configurations"], "all inputs of the public API; gcc and clang; the ADX and the plain code paths",
  "Undefined behaviour usually yields the expected value with one compiler and optimisation level, so tests pass; the repaired SHA-3 defect gave wrong digests only for some update histories at -O2.",
  ALLSRC, [{"name": "signed digit recoding, carry shifts, length arithmetic", "where": "src/, third_party/"}],
  "UndefinedBehaviorSanitizer on gcc and clang builds", "All drivers of the other properties on three sanitized builds. Alignment checks are off: x86 vector types are deliberately loaded from any address. Strict-aliasing violations have no sanitizer and are covered by the optimisation-level matrix of C05.")
P("C24", "Public operations can be called from any number of threads at once",
  "Any number of threads can call public operations simultaneously, including the first calls made in the process, with private outputs and shared read-only inputs. Every call returns what it returns alone, and no two calls access shared memory without synchronisation.",
  ["schedules"], "all interleavings of public calls in several threads",
  "The tests are single-threaded.", ALLSRC + ["third_party/prng.c"], [{"name": "re-entrancy: no mutable state outside the caller's buffers", "where": "src/, third_party/"}],
  "ThreadSanitizer plus per-call result monitor under contention", "Eight threads, random operation mixes including allocation, printing and random generation; data races are judged by happens-before, so a race is reported even when the interleaving was harmless. " + TR)
P("C25", "Execution does not branch or address memory depending on secrets",
  "Diffie-Hellman key generation and shared secrets, EdDSA key generation and signing in every mode, and hash-to-curve execute the same instructions and access the same addresses for all values of the secret (the private key; for hash-to-curve the message content), given equal lengths and public inputs. This holds with gcc and clang, at every usual optimisation level, with and without the multiply extensions, and for every conditional-swap method that is not explicitly address-dependent.",
  ["inputs", "configurations"], "all secrets; the compilers, optimisation levels, swap methods and instruction sets in the build matrix",
  "Functional tests cannot observe timing; compilers can turn masks into branches (one such case was repaired).",
  ["src/ladder255.c", "src/ladder448.c", "src/edwards255.c", "src/edwards448.c", "src/sign255.c", "src/sign448.c", "src/hash255.c", "third_party/sha512.c", "third_party/sha3.c"],
  [{"name": "masked table lookup, conditional swap, masked final reduction", "where": "src/edwards255.c, src/edwards448.c, src/ladder255.c, src/ladder448.c, src/fp255.c"}],
  "dynamic taint monitor: secrets undefined under Valgrind", "Secret bytes are undefined for memcheck, which tracks them bit by bit through registers and memory; eleven compiler and instruction-set builds plus the swap methods. Variable-latency instructions and microarchitecture are outside.")
P("C26", "Diffie-Hellman operations erase their copies of the private key",
  "When key generation or shared-secret computation of any X25519 or X448 implementation has returned, no copy of the private key, raw or clamped, is left in the stack memory the call used, nor in static or heap memory: the operations wipe the copies they make.",
  ["inputs", "configurations"], "all private keys; both operations of the three implementations, whatever compiler and optimisation level",
  "Tests see results only; a wipe that is removed, mis-sized or optimised away changes no result.",
  ["src/ladder255.c", "src/ladder448.c", "src/dh255.c", "src/dh448.c"], [{"name": "wipe of scalar copies at the end of each ladder", "where": "src/ladder255.c, src/ladder448.c"}],
  "memory residue monitor after every call", "The call's whole stack, and every fourth time all writable static and heap memory of the process, is searched for any 16 consecutive key bytes. Shorter fragments are tolerated because compilers may spill a single word of the scalar; intermediate values other than the key are not searched.")
P("C27", "Random keys and elements come whole from the system source or not at all",
  "Every byte of a generated random key, field element or buffer is a fresh byte from the operating system's random source, whatever that source does: short reads, interruptions and transient errors are retried until every byte is delivered, and if the source cannot deliver, the process ends instead of returning bytes that are not random. No file descriptor is left open, nothing outside the requested bytes is written, and no byte of the source is used twice.",
  ["faults", "inputs"], "all behaviours of the random source (short reads at any point, interruptions, errors, end of file, failure to open) and all request lengths",
  "Tests run with a source that always succeeds; failure paths are never executed (a defect there returned the previous buffer content as a key).",
  ["third_party/prng.c", "third_party/prng.h", "src/bytestring.c"], [{"name": "open/read loop on the random device", "where": "third_party/prng.c"}],
  "fault injection at interposed system calls, exact stream oracle", "open, read, close and their relatives are interposed with a known stream and faults at every call index. If the library changes to another system interface that is not interposed, the check gives no verdict rather than a pass.")
P("C28", "Results do not depend on history, stale registers or interrupts",
  "The outputs of every deterministic public operation are a function of its inputs only: not of earlier calls, of the initial content of registers, flags, vector state, stack or output buffers, nor of a signal handler interrupting it. Every call preserves what the platform's calling convention requires: callee-saved registers, stack pointer, direction flag, floating-point and vector control state.",
  ["histories", "inputs", "schedules"], "all sequences of public calls, all machine states at entry, interruption at any instruction",
  "Tests call each function from freshly initialised compiled code, so an operand that is read before it is written, a missing assembly clobber or a carry flag assumed clear stays invisible.",
  ["src/eltfp25519_1w_fullradix.c", "src/eltfp448_1w_fullradix.c", "src/eltfp25519_2w_redradix.c", "src/eltfp25519_4w_redradix.c", "src/eltfp448_2w_redradix.c", "src/eltfp448_4w_redradix.c", "src/ladder255.c", "src/ladder448.c"],
  [{"name": "inline assembly with carry chains and clobber lists", "where": "src/eltfp25519_1w_fullradix.c, src/eltfp448_1w_fullradix.c"}],
  "trampoline monitor: poisoned machine state, random histories", "Every call starts from random registers, flags and stack; outputs are compared with the first run; timer signals with a clobbering handler interrupt a share of the runs.")
P("C29", "Objects are allocated whole, printed exactly and released without leaks",
  "Allocation gives a block of at least the object's size with the alignment its operations need, or a null pointer when memory is exhausted; release returns it and accepts null. Printing writes exactly the object's value in hexadecimal, in the documented order, and changes nothing. No operation keeps heap memory after it returns. Reported key and signature sizes are the sizes the operations use.",
  ["inputs", "histories", "faults"], "all keys, signatures, field elements and lanes; allocation failure at any call; any sequence of allocations and releases",
  "The tests never release or fail an allocation and print nothing; a leak or a short block changes no result.",
  ["src/bytestring.c", "src/dh255.c", "src/dh448.c", "src/ed255.c", "src/ed448.c", "src/fp255.c", "src/fp448.c", "src/hash255.c"],
  [{"name": "aligned allocation, hexadecimal printing, temporary buffers", "where": "src/bytestring.c, src/fp255.c, src/fp448.c, src/hash255.c"}],
  "interposed allocator and memory-stream monitor", "Block sizes, alignment, injected failures, printed text against a reference, and the heap balance of every operation.")
P("C30", "The processor report names exactly the features the machine announces",
  "The environment report (machine_info, and the stand-alone processor identification example) lists for each of the twelve instruction-set features it knows exactly whether the processor's CPUID leaves announce it, and calls the machine supported exactly when every feature except the optional ADX is present. The feature query cpu_has answers the same for each feature. On processors without the extended-feature leaf none of that leaf's features is reported. Asking changes nothing and repeated questions get the same answer.",
  ["inputs", "configurations"], "all processors: every combination of announced features, every maximum leaf, arbitrary content of the unrelated register bits",
  "The report is only printed by the tests, for the one processor they run on, and no test reads it (two defects were repaired: query answers taken from the wrong registers, and machines without AVX2 or BMI2 called supported; the second one is still in the example program and a known finding).",
  ["third_party/cpu_caps.c", "examples/cpu_id.c"], [{"name": "CPUID leaf decoding", "where": "third_party/cpu_caps.c, examples/cpu_id.c"}],
  "fault injection: simulated processors behind the CPUID instruction, exact report oracle", "The compiler's assembly of the real source is reassembled with each CPUID instruction replaced by a call into the simulator; everything else runs as compiled. If no CPUID instruction is found the check gives no verdict.")
NOT_APPLICABLE = {}
