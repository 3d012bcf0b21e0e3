NA = {}
B = "Bounds: all bit patterns of the small formats, boundary lattices for bf16/f32/f64. "
c("C01", HON, B + TRUST)
c("C02", ADV, "All prover choices on the hinted wires for the enumerated encodings, inside and outside the format. " + TRUST)
c("C03", HON, B + TRUST)
for i in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"):
    c(i, HON, B + "All operand tuples of those value sets. " + TRUST)
for i in ("C14", "C15", "C16", "C17"):
    c(i, ADV, "All prover choices compatible with the constraints, for every operand tuple of the enumerated value sets of small formats. " + TRUST)
c("C18", ADV, "All lengths up to the stated bound, table widths, small mixes, interval boundaries and field wrap-around points. " + TRUST)
c("C19", ADV, "All pairs at small lengths, boundary lattices at large ones, honest and adversarial. " + TRUST)
c("C20", ADV, "All exponents around every table size up to the bound, all numbers of lookups up to 3. " + TRUST)
c("C21", "exhaustive cross-configuration execution of bounded programs on gnark's real builders and solvers", "Curves x arithmetisations x table widths x bounded float programs. " + TRUST)
c("C22", "explicit-state exploration of operation sequences up to a depth, canonical-form invariant checked at every step", "All operation sequences up to the stated depth over a value menu of each format. " + TRUST)
c("C23", "exhaustive enumeration of declaration orders and context mixes", "All orders of up to the stated number of independent operations, all pairs of contexts. " + TRUST)

c("C24", "controlled-scheduler exploration of hint interleavings up to a preemption bound on the instrumented code, plus all hint call histories up to a depth", "The functions are instrumented with scheduling points before every statement; happens-before races are also looked for in a race-detecting build. Assumes the Go memory model's sequential consistency for race-free runs. " + TRUST)
for i in ("C25", "C26", "C27", "C28"):
    c(i, HON, "Argument lattices of binary32 and binary64 listed in the evidence. " + TRUST)
for i in ("C29", "C30", "C31", "C32", "C33", "C34"):
    c(i, HON, "Every stage reached through an overlay that names the unexported functions; bounded grids over faces, directions and resolutions. Trusts the H3 constants for the final comparison. " + TRUST)
for i in ("C35", "C43"):
    c(i, ADV, "All prover choices compatible with the constraints for every listed input, in both precisions and both arithmetisations. " + TRUST)

c("C36", HON, "Lattice of angles in both precisions; accuracy judged against 400-bit references with the argument-reduction error of Go's math library allowed. " + TRUST)
c("C37", "exhaustive explicit-state enumeration of encodings and component tuples executed on the code", "All patterns of eleven small formats, lattices of binary32 and binary64, all component tuples in range of six formats.")
c("C38", "exhaustive enumeration of all table entries and pairs of faces", "Compared with H3's constants and with an exact icosahedron.")
c("C39", "exhaustive fault and output enumeration of the external tools under a stand-in that records its arguments", "Menu of tool behaviours times inputs; the tools themselves are not installed.")
c("C40", "exhaustive enumeration of all short strings over an alphabet and of boundary strings", "Strings up to 4 (thorough 5) characters of an 18-letter alphabet, all single-byte corruptions of full-width strings.")
c("C41", "explicit-state exploration of all histories of benchmark runs up to a depth with injected failures", "Histories up to length 2 (thorough 3) over 12 kinds of run, plus length 3 over 4 kinds; real proofs of tiny circuits.")
c("C42", "exhaustive enumeration of coordinate pairs, write histories and tool answers", "Grid of coordinates including poles, the date line and opposite points; all write histories up to length 2 (thorough 3).")
c("C44", "exhaustive enumeration of the cells around each origin at every resolution", "Trusts the H3 library for cells and grid distances; cells for which H3 has no local coordinates are skipped and counted.")
c("C45", "exhaustive enumeration of vertex lists and of tool failures at every call", "The program runs as built, in a scratch directory with stand-in tools.")
c("C46", "exhaustive enumeration of call sequences up to a depth, counted on gnark's own R1CS builder", "Sequences of up to two calls (thorough three) over the menu, with default compression switched off.")
c("C47", "explicit-state exploration of build histories plus controlled-scheduler exploration of concurrent builds", "Schedules at statement granularity (instrumented build) with one preemption, two for small builds; histories in processes of their own; a race-detecting build covers finer interleavings.")
c("C48", "exhaustive enumeration of recorded outcome histories, run through the script itself", "Failures at every subtest level; logs in the format of the test runner, which the check compares with what go test prints.")
