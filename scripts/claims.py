for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"]:
    claimed[i] = (ABS, NOTE)
claimed["C20"] = ("abstract interpretation of each tool's main with an effect typestate, and a derivation (taint) analysis over the value graph",
    "Covers every number of arguments and every outcome of every file operation. Library calls whose effects are not modelled are reported, not assumed away. "
    "'Derived' is a flow-insensitive taint: that the text is the right one is C23's subject, not this one's.")
claimed["C21"] = ("regeneration with the makefile's recipe and syntax-tree comparison; where the trees differ, abstract interpretation of both parsers against the specification",
    "ragel and the repository's two small tools run as the build step they are; the comparison and the analysis of both programs decide. Trusts ragel and make; "
    "where the programs differ, error texts are compared up to what C18 states.")
na["C22"] = "run time on hardware is not a fact of the source: no static argument bounds nanoseconds"
claimed["C23"] = ("abstract interpretation of main with the file as one unknown text, and equivalence of regular expressions by a bisimulation of leftmost-first thread machines",
    "Decides every file content, given that the rewriting is done by regular expressions of package regexp; a rewriting loop of the tool's own would be reported as undecided. "
    "Trusts regexp/syntax and that package regexp implements leftmost-first matching.")
na["C24"] = ("a fixpoint of rewriting passes over regular-expression matches in arbitrary text: deciding it needs an inductive argument about the "
    "structure of the matches (each takes one underscore and moves nothing else) that none of the static domains here expresses; its file handling is C20")
claimed["C26"] = (ABS, "Decides every content and length of the fields; the unexported fields are zero, as they are for values made outside the package.")
claimed["C25"] = ("amortised-cost ranking over the abstract interpretation's fixpoint graph, with a cost marking of whole-text operations",
    "Every cycle of the fixpoint graph needs a measure whose growth is paid for by edges already known to be taken linearly often; operations on texts and lists "
    "that can be as long as the input and share an end with an outer text are not allowed on a cycle. Searches (strings.Index and the like) are taken to be paid "
    "for by the text they skip, and operations on pieces that move with the loop by the loop; the cost of library functions is taken to be linear in their arguments.")
