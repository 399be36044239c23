package main

var trustedBase = []string{
	"the go/types type checker, the go/ssa construction and the Go language semantics the abstract interpreter gives to SSA instructions",
	"the models of the standard library functions listed in checker/calls.go",
	"the specification automata of checker/spec.go, written from the documented syntax",
}

const absInt = "Abstract interpretation of the type-checked SSA form of /repo's current source, in product with a specification automaton that reads the same symbolic input of any length; numbers are kept in a zone domain, texts as sequences of input regions. Every outcome the analysed functions can have is judged. "

func init() {
	props = map[string]prop{
		"C01": {func(c *Ctx) { c.langJobs(M2141) }, absInt + "Rule: an accepting outcome needs the specification in a final state with the whole input read; a rejecting one needs that no continuation is in the language."},
		"C02": {func(c *Ctx) { c.langJobs(M8141) }, absInt + "Rule: as C01, for the RFC 8141 automaton."},
		"C03": {func(c *Ctx) { c.langJobs(MSCIM) }, absInt + "Rule: as C01, for the RFC 7643 automaton."},
		"C04": {func(c *Ctx) {
			c.eachRoute(allModes, func(a *API, m Mode, r route) { c.fidelity(a, m, c.acceptedBy(a, m, r, nil)) })
		}, absInt + "Rule: in every accepting outcome the fields ID and SS and the result of String() are exactly the input regions the specification delimits."},
		"C05": {func(c *Ctx) {
			c.eachRoute(allModes, func(a *API, m Mode, r route) { c.rqf(a, m, c.acceptedBy(a, m, r, nil)) })
		}, absInt + "Rule: in every accepting outcome the component accessors return exactly the input regions the specification delimits, or the empty string."},
		"C06": {func(c *Ctx) {
			c.eachRoute([]Mode{MSCIM}, func(a *API, m Mode, r route) { c.scimParts(a, c.acceptedBy(a, m, r, nil)) })
		}, absInt + "Rule: in every accepting outcome SCIM() is not nil and its fields and String() are the regions the specification delimits."},
		"C13": {func(c *Ctx) {
			c.par(job{"constants", func(a *API) {
				c.distinct(a.kinds, "NONE", "RFC2141", "RFC7643", "RFC8141")
				c.distinct(a.modes, "RFC2141Only", "RFC7643Only", "RFC8141Only")
			}})
			c.eachRoute(allModes, func(a *API, m Mode, r route) { c.kinds(a, m, c.acceptedBy(a, m, r, nil)) })
		}, absInt + "Rule: in every accepting outcome of a mode RFC(), IsSCIM() and SCIM() give that mode's constants, and those are distinct."},
		"C26": {func(c *Ctx) { c.handmade() }, absInt + "The fields ID and SS, or Type, Name and Other, hold texts of any content and length, the others are zero. Rule: String() is the documented concatenation, and empty for a URN exactly where ID or SS is; the accessors give the values of an absent kind, SCIM part or component."},
		"C10": {func(c *Ctx) {
			c.par(job{"hand-built", func(a *API) { c.handBuilt(a) }})
			c.eachRoute(allModes, func(a *API, m Mode, r route) { c.normal(a, m, c.acceptedBy(a, m, r, prepX)) })
		}, absInt + "A distinguished position X, any position of the input, is followed through the parse and Normalize(); rule: the byte the normal form has at X is the lower-case one inside identifiers and percent-encodings and the original one elsewhere, and lengths agree."},
		"C07": {func(c *Ctx) { c.outcomesAll() }, absInt + "Rule: for every mode value, every outcome of Machine.Parse has exactly one of URN and error nil and Error() gives the same error; urn.Parse is shown to hand Machine.Parse's outcome through (or is analysed against the grammar on its own)."},
		"C12": {func(c *Ctx) { c.reuse() }, absInt + "The fields of the machine that a parse or a selection can change are collected over all outcomes; a parse is then analysed from a machine in which they hold unknown left-over values. Rule: no left-over value is branched on, dereferenced, indexed with or part of a result, and no result shares memory that a later parse changes."},
		"C14": {func(c *Ctx) { c.selections() }, absInt + "Rule: every list of up to three options over all mode values makes the machine its last option makes alone (or parses its grammar); after WithParsingMode on a machine with unknown left-over values, Parse follows that mode's grammar and kind."},
		"C15": {func(c *Ctx) { c.unmarshal() }, absInt + "UnmarshalJSON of each type is followed from a document of any content into a zero and into an arbitrary receiver. Rule: an error leaves every field of the receiver as it was; no error means the document was a string that Machine.Parse, in the mode of the type, accepts, and the receiver is what it returned."},
		"C16": {func(c *Ctx) { c.marshal() }, absInt + "Rule: MarshalJSON, by value and by pointer, on arbitrary values returns no error and the encoding of exactly the text String() gives; for parsed values that text is the input."},
		"C11": {func(c *Ctx) { c.equal() }, absInt + "Two arbitrary URNs, or the same one twice, are normalized and compared; functions from texts to a text (or Normalize as a whole) stay uninterpreted: equal arguments, equal results. Rule: Equal is true only where the normalized IDs and the normalized SS are known to be equal, and false only where one of the two is known to differ."},
		"C20": {func(c *Ctx) { c.tools() }, "Abstract interpretation of the SSA form of each tool's main, for every number of arguments and with every file operation succeeding and failing, and a derivation analysis over the tool's value graph. Rule: a path that ends with exit status 0 had exactly one argument, a successful read of it and a successful write to it; every write is the first one, comes after a successful read, goes to the path that was read and writes a value derived from what was read."},
		"C23": {func(c *Ctx) { c.texts() }, "Abstract interpretation of the SSA form of removecomments' main, in which the file read is one unknown text and replacements by regular expressions give named texts, and a comparison of regular expressions as leftmost-first thread machines over all texts. Rule: every text written is the text read without what the reference expression for //line lines matches: deleted by an expression that matches the same in every text, or unchanged only where nothing is to be deleted."},
		"C21": {func(c *Ctx) { c.regen() }, "The parser is generated from the grammar with the makefile's recipe in a scratch copy and compared, as a syntax tree, with the committed one. Rule: they are the same program; where they are not, both are analysed like C01-C07, C10, C12-C14 and C18, and both have to fulfil every obligation of those, which fix the verdict, components, kinds, normal forms and errors of every input."},
		"C17": {func(c *Ctx) { c.scimTypes() }, absInt + "Rule: String() of every value (each constant, and the ranges around them) is its name or empty, and TypeFromString of an arbitrary text is one of the types only where the text is known to be its name, and Unsupported only where it is known to be none of the three."},
		"C18": {func(c *Ctx) { c.errors() }, absInt + "The specification automaton remembers the first byte at which the input stops being the beginning of a URN, and the part it belongs to. Rule: the error of every rejecting outcome is a constant text that names that part, followed by a column that is provably that position (or the documented distance from it) and within the input."},
		"C08": {func(c *Ctx) {
			c.effectRuns(effects{kinds: []string{"panic", "loop"}, rank: true, used: true, methods: true})
		}, absInt + "Rule: no reachable instruction can panic (bounds, nil, assertions, division, explicit panics), and every cycle of the fixpoint's graph has a number that shrinks along it and is bounded from below (ranking by components)."},
		"C25": {func(c *Ctx) {
			c.effectRuns(effects{kinds: []string{"superlinear", "loop"}, rank: true, linear: true, used: true, methods: true})
		}, absInt + "Rule: every cycle of the fixpoint's graph has a measure that starts from a number bounded by the input and shrinks, and that grows, inside an enclosing cycle, only along edges already known to be taken linearly often; no edge of a cycle whose rounds depend on the input copies, converts or goes through a text or list that can be as long as the input and is not a piece moving with the loop."},
		"C09": {func(c *Ctx) {
			c.effectRuns(effects{kinds: []string{"write-input"}, alias: true, used: true})
		}, absInt + "Rule: no reachable store, append, copy or builder writes memory the caller passed in, and that memory is not reachable from a result."},
		"C19": {func(c *Ctx) {
			c.effectRuns(effects{kinds: []string{"write-global", "write-frozen"}, used: true, methods: true, frozen: true})
		}, absInt + "Rule: no reachable store writes package-level memory, and the methods other than UnmarshalJSON, called on arbitrary values, write nothing reachable from receiver or arguments."},
	}
}
