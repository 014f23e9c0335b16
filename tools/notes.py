E_ = "explicit-state model checking of the implementation: exhaustive enumeration of "
TECH = {
 "C01": E_+"space groups x settings x spin, and of all holohedry operations; oracle: ITA operations and an independent SU(2)",
 "C02": E_+"cells and user transformations; every detected operation replayed against the table operation",
 "C03": E_+"all 460 tables, every object and text round trip; oracle: independent parser, ITA, character theory",
 "C04": E_+"groups x settings x k-points x operations x gauges/orders/cutoffs on exact eigenstates; oracle: independent Seitz operators",
 "C05": E_+"groups x spin x all tabulated k-points x settings x wrong labels; oracle: traces of table operations",
 "C06": E_+"cells x k-points x every cutoff between shells x reduced cutoffs; oracle: exhaustive search of the sphere",
 "C07": E_+"all words of level spacings x parity words x windows x thresholds; oracle: reference model of grouping and counting",
 "C08": E_+"files x ordered selections of k-points x windows of bands; oracle: the calculation that was written",
 "C09": E_+"all syntactic forms of structure input, and malformed ones; oracle: the structure that was written",
 "C10": E_+"crystals x codes, differential against a common reference",
 "C11": E_+"the tree of sequences of separating operations up to a depth; oracle: independent operators",
 "C12": E_+"loops x lengths x starts x foldings x gauges x displacements; oracle: exactly solvable states",
 "C13": E_+"sublattices x k-points x images x thresholds; oracle: states of known composition",
 "C14": E_+"write/read histories of every group, lattice parameter and setting, and of contradictory files",
 "C15": E_+"combinations of options and crystals; every output read back by independent readers",
 "C16": E_+"all single options and all pairs through command line and files; oracle: model of the options",
 "C17": "explicit-state reachability (closed under all public calls) of objects, plus all ordered pairs/triples of calls, constructions and command lines",
 "C18": "exhaustive fault enumeration: every byte cut, record fault, contradictory field, missing file and mixture of files",
 "C19": E_+"groups x spin x codes x kinds of rounding or disturbance of the input; differential against the exact input",
}
NOTE = {k: "bounded exhaustive exploration of the real code against an independent reference model; bounds in evidence and mc/%s.py" % k.lower() for k in TECH}
