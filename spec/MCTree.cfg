SPECIFICATION SpecM
CONSTANTS
 Kinds = {"none", "doc", "dotted", "hidden", "bare", "case", "suffix", "longer", "old", "nested", "dir", "link", "dirlink", "loop", "dangling", "fifo", "spaced", "two"}
 SubNames = {"d", ".d", "d.graphql", "node_modules"}
 Variant = "right"
INVARIANTS Sound Complete Once Apart Links Cases
CHECK_DEADLOCK FALSE
