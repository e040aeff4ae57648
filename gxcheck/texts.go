package main

const commonRule = "abstract interpretation of the SSA form of the current source: every path of the named functions, for all inputs at once, with a fixpoint at every loop head; each obligation compares the abstract result of every path with the specification and fails when equality is not established, when an anchor is missing, or when the analysis cannot decide"

var commonAssume = []string{
	"the Go type checker and go/ssa translate the source faithfully, and the Go memory model and standard library behave as modelled",
	"slices have fewer than 2^46 elements and memory does not run out",
	"loops terminate (the results are about what a call does when it returns)",
}

type propText struct {
	technique, explain string
	assume             []string
}

var texts = map[string]propText{
	"C01": {technique: "inductive invariant over abstract buffers", explain: "each method is analysed from every buffer that satisfies the representation invariant (any length, cursors, contents) and must re-establish it and change the abstract sequence as specified"},
	"C02": {technique: "inductive invariant over abstract buffers", explain: "each method is analysed from every buffer that satisfies the representation invariant (any length, cursors, contents) and must re-establish it and change the abstract sequence as specified"},
	"C03": {technique: "inductive invariant over abstract buffers", explain: "each method is analysed from every slice (any length, capacity, contents) and must change the abstract sequence as specified"},
	"C04": {technique: "abstract interpretation with segment (rope) domain", explain: "each method of both instances is analysed for every slice and every index; the resulting buffer is compared segment by segment with the specified one"},
	"C05": {technique: "shape analysis with list segments", explain: "each method is analysed on every ring with the named nodes at every position (first, last, middle, neighbour, only one), with list segments of any length between them; the resulting ring is compared with the specified one in both directions"},
	"C06": {technique: "shape analysis with list segments", explain: "each method is analysed on every chain with the named nodes at every position, with list segments of any length between them; the resulting chain is compared with the specified one"},
	"C08": {technique: "abstract interpretation, relational integer domain", explain: "the comparators, their names and their constructors are analysed for every pair of values and every name"},
	"C07": {technique: "abstract interpretation with quantified predicate abstraction at loop heads (heap order with a hole, multiset sums)", explain: "each method is analysed for every content, length and limit and both orders; at every loop head the statements that hold about the array are picked from a set of templates (edges in order up to a bound, except around a hole; a value in order below a parent or above the children; a weighted sum over all elements, for an arbitrary weight per value) and shown inductive; the result is compared with the specification of the method"},
	"C26": {technique: "abstract interpretation with quantified predicate abstraction, contracts of the library sort routines", explain: "each Sort method is analysed for every slice: the call of the library sort must get exactly the length, strict ascending comparison and exchange of the slice's own elements; SortHeap is analysed for every content and length with the heap templates of C07 extended by statements about the sorted tail, and with an arbitrary weight per value to show that no element is lost or duplicated", assume: []string{"the routines of packages sort and slices sort what they are given when the comparison is a strict weak order"}},
	"C09": {technique: "abstract interpretation over an arbitrary tree (children and values as uninterpreted functions of the node), induction over tree and walk", explain: "each edit is analysed for every list of children and position; each step of the visitor in both directions is analysed from every position of every tree (any depth of ancestors, any positions among siblings), which by induction over the steps gives the whole walk; the collected list by induction over the tree"},
	"C10": {technique: "abstract interpretation, relational integer domain", explain: "each method of both types is analysed for every value, bound and operand, including the machine wrap-around of every operation"},
	"C12": {technique: "abstract interpretation with loop invariants, table fact checked on the source literal", explain: "the table literal is checked against a sieve, the root function is analysed over 64 ranges of the argument with the relational domain, and the trial division loop is analysed for every number with the invariant that no table prime below the cursor divides it"},
	"C13": {technique: "abstract interpretation, decimal digit (rope) domain", explain: "the formatter is analysed for every number; the resulting text is expanded to decimal digits of the argument and compared digit by digit with the specified grouping"},
	"C25": {technique: "points-to and lock-set analysis of package variables", explain: "a field-based points-to analysis finds every instruction, in any function that can run after initialisation, that reads or writes memory reachable from a package variable; each variable must be unwritten, atomic throughout, or consistently protected by one lock (must-lockset dataflow across calls)", assume: []string{"library functions outside a short list write through every pointer they are given", "packages that do not type-check offline are not analysed"}},
	"C14": {technique: "abstract interpretation with segment (rope) domain", explain: "each padding and unpadding function is analysed for every slice (any length, spare capacity, contents) and every block size from 1 to 255; the result and the caller's whole array are compared segment by segment with the specification"},
	"C15": {technique: "abstract interpretation, typestate of the block modes", explain: "constructors and both directions are analysed for every key and message with CBC as an uninterpreted pair of inverse functions of key, chain and text; the invariant that both ends have the same key and chain is shown inductive, so it covers every sequence of messages", assume: []string{"crypto/aes and crypto/cipher implement CBC: decrypting with the same key and chain undoes encrypting"}},
	"C16": {technique: "abstract interpretation with library hashes as uninterpreted functions", explain: "constructors, string hashes and every method of the composite and placeholder hashes are analysed for every method number, text, buffer and running state; a library hash is the named algorithm applied to the exact bytes written since its last reset, so a digest, text or state built from other bytes or another algorithm differs", assume: []string{"the standard library hashes compute the algorithms they are named after"}},
	"C17": {technique: "abstract interpretation with ghost stream, arbitrary destination index", explain: "the source is an endless byte sequence read in pieces of any size with any error, the writers take any part or fail; one arbitrary destination of any number is watched with ghost counters that take part in the loop invariants, and every read, write and return is judged against them", assume: []string{"readers and writers keep the io contracts on counts (0 <= n <= len), a copy moves fewer than 2^62 bytes, destinations are distinct objects"}},
	"C18": {technique: "thread-modular (rely/guarantee) effect analysis of atomic steps", explain: "every atomic step of a call sees any value the protocol allows other goroutines to leave, and its effect on the lock state is recorded; every returning path must take (or give back) exactly what a holder holds in one guarded step, every panicking path must change nothing, and no access to the state may be non-atomic; with these steps the one-holder invariant is inductive over all interleavings", assume: []string{"only the methods of the lock touch its fields"}},
	"C19": {technique: "thread-modular (rely/guarantee) effect analysis of atomic steps", explain: "as for the spin lock, with a reader counter: writers move it from zero to a negative mark and back, readers move it by one and only from non-negative (or positive) values, each in one guarded atomic step; the reader/writer invariant is inductive under these steps", assume: []string{"only the methods of the lock touch its fields", "fewer than 2^29 readers at a time"}},
	"C20": {technique: "word-level memory-layout evaluation of the SSA form", explain: "every function of the package is evaluated on the machine words of an arbitrary string or slice (no data, empty, not empty; address below, at, above the reference), with casts as changes of view; results must be exactly the same address, length and capacity words, and no pointer may pass through integer-typed memory or live as an integer across a call", assume: []string{"64-bit layout of strings and slices as in the gc compiler"}},
	"C21": {technique: "abstract interpretation with a symbolic call stack", explain: "the stack is a sequence of frames of unknown height and the run-time's reports are uninterpreted functions of the frame number; skip counts are resolved against the abstract call depth of the call that reaches the run-time, so inlined or extracted helpers are judged by what they report. Every listing length from none to fifty is a case of its own", assume: []string{"runtime.Caller, Callers, CallersFrames and FuncForPC behave as documented", "skip counts and depths are not negative"}},
	"C22": {technique: "abstract interpretation against a line-by-line specification (skolem section and key)", explain: "the stream delivers lines of arbitrary text and ends with EOF or an error after any of them; one arbitrary section name and one arbitrary key are watched, so a map is known exactly at the watched key and not at all elsewhere. The specification advances with every line read and the loop invariant relates the program's maps to it; the watched pair is finally looked up through the program's own lookup", assume: []string{"bufio.Reader, os.File and strings behave as documented", "one map is not stored under two section names (reported as undecided)"}},
	"C23": {technique: "abstract interpretation with lock-scoped havoc (rely/guarantee over critical sections)", explain: "the registry is an unknown map that becomes unknown again whenever the lock is taken, because other goroutines may have changed it; every critical section is recorded with what it saw and did. Each operation must take effect in exactly one section that itself saw the precondition, touch the registry only under one and the same lock in the right mode, and call a creator only without it", assume: []string{"sync.Mutex and sync.RWMutex behave as documented", "creators stored in the registry are not nil (shown for every registration)"}},
	"C24": {technique: "abstract interpretation over types and over sign/size classes of the difference", explain: "one predeclared and one declared type of every kind (and nil) stand for all dynamic types, since the code only sees a type's identity and kind through the operations modelled (anything else is reported as undecided); the float comparison is evaluated on ten classes of the difference that cover every pair of floats, including infinities and not-a-number", assume: []string{"package reflect behaves as documented", "IEEE 754 arithmetic"}},
	"C29": {technique: "thread-modular effect analysis of atomic steps, relational integer domain with wrap-around terms", explain: "every atomic access to the seed sees any value other goroutines may have left, and every change of it is recorded; each returning path of a draw must have changed it exactly once, from the value it guarded, to an expression that reduces to an affine function of that value modulo the word size; results are compared with bounds and with the recorded step for every pair of bounds", assume: []string{"only the methods of the generator touch its fields"}},
	"C30": {technique: "abstract interpretation, text (rope) domain and exact rationals for float conversions", explain: "each function is analysed for every duration; texts are compared piece by piece with the specified ones over the quotient and remainder by a day, constants are read from the type checker, float results are exact rationals of the argument together with a count of roundings", assume: []string{"package time of the standard library behaves as documented"}},
	"C31": {technique: "abstract interpretation with block ciphers as uninterpreted inverse functions per block", explain: "the buffers are symbolic ropes of any length; each cipher step on a block yields the named operation applied to that block, steps that undo each other cancel, and a ghost counter in the loop invariant shows that the blocks are taken one after the other without gap or overlap. The result must be exactly the specified operations, with exactly the specified keys, over exactly the padded message", assume: []string{"crypto/des implements a block cipher whose decryption undoes its encryption"}},
	"C32": {technique: "abstract interpretation with library operations as recorded uninterpreted steps", explain: "parsing, marshalling, hashing, encryption and signing are uninterpreted functions of the exact bytes and keys they are given and may each fail; every path is compared with the one specified operation, its arguments and its outcome", assume: []string{"the cryptographic packages and base64, hex and pem behave as documented", "the named hash is linked into the program"}},
	"C33": {technique: "abstract interpretation with system calls as recorded steps and path functions as uninterpreted functions", explain: "every function of os is a step that is recorded with its exact arguments and may fail, every function of path/filepath a function of its arguments with the laws of Clean, Join and IsAbs; each path through a method must leave exactly the specified steps and return exactly their outcome. Walking is one arbitrary visit from an arbitrary state of what the visitor keeps", assume: []string{"a system with slash-separated paths (the build analysed)", "os and path/filepath behave as documented", "files are smaller than 2^46 bytes"}},
	"C34": {technique: "abstract interpretation over an arbitrary registry", explain: "the registry is an arbitrary list of names of any length with one distinguished name at an arbitrary place; registering, looking up and showing must give exactly the specified id, name, text and registry, and the registry after initialisation is evaluated from the initialisers", assume: []string{"fmt.Sprintf with arguments that are not known is a function of format and arguments", "the list that ShowAll gives is decided for registries of 1, 2, 3 and 5 errors", "the text of an error about an unknown id is not specified"}},
	"C35": {technique: "abstract interpretation over directory trees with arbitrary names", explain: "for every set of options and a catalogue of tree shapes, with arbitrary names and an arbitrary directory, and with every open and every listing either working or failing, the list must be exactly the specified one, the failure must be reported and every opened directory closed", assume: []string{"the catalogue: 17 shapes with up to 4 levels (the given directory included) and up to 5 entries in a directory; the names of one tree start with the same number of dots (none, one, two or more)", "the system lists a directory without . and .., each entry once", "os, path and path/filepath behave as documented"}},
	"C36": {technique: "abstract interpretation over directory trees with arbitrary names and contents", explain: "for a catalogue of tree shapes, with arbitrary path, names, sizes, contents and salt, and with every open, description, listing and read either working or failing, the returned tree must have exactly one node for each entry, in order of size and hash, and each directory the specified size, mark and hash; hash functions are uninterpreted functions of the exact bytes", assume: []string{"the catalogue: 10 shapes with up to two entries in a directory and up to three levels", "sorting puts the children in the order of FileHash (that is decided by C26)", "the texts of hashes are ordered by an arbitrary strict order", "files are smaller than 2^46 bytes and do not change in between", "os, path/filepath and io behave as documented"}},
	"C37": {technique: "abstract interpretation, relational integer domain with exact scaled floats", explain: "for each unit, with an arbitrary size in its range, the text must be exactly the number, divided by the unit, with three decimals and the name of the unit; the division by a power of two is exact, the conversion of the size and the decimals are uninterpreted functions of exactly these numbers", assume: []string{"fmt formats floats as documented"}},
	"C11": {technique: "abstract interpretation, relational integer domain", explain: "every index is a case of its own and the value is arbitrary; the result must be the specified quotient and remainder"},
}

func fillTexts() {
	for id, pc := range props {
		t, ok := texts[id]
		if !ok {
			continue
		}
		pc.rule = commonRule
		pc.explain = t.explain
		pc.technique = t.technique
		pc.assume = append(append([]string{}, commonAssume...), t.assume...)
	}
}
