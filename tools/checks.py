LAYOUT = ("constructive generation of valid files with generated layout and comments; span/comment oracle computed by the generator and an independent comment-attachment model",
  "random exploration over generated files and layouts; trusts the layout model of protoc's comment attachment (cross-checked against protoc by C21)")
DONE["C10"] = ("metamorphic testing: re-layout, literal respelling, renaming and appending over generated files, tape shrinking",
  "random exploration of pairs of renderings of generated files; trusts the generator's notion of equivalent spellings")
DONE["C11"] = LAYOUT
DONE["C12"] = LAYOUT
DONE["C15"] = ("fault injection of file-local rule violations into generated valid files with a predicted error per violation",
  "random exploration over 40+ violation classes alone and combined; trusts the generator's classification")
DONE["C01"] = ("fuzzing of the parser in a child process (bounded stack and memory) over damaged files, soups and repetitive texts, with shrinking",
  "random exploration; sees panics, aborts and non-termination (60 s of processor time) only on the texts drawn")
DONE["C02"] = ("fuzzing with an invariant oracle over every reported error plus metamorphic checks (same input again, text put in front)",
  "random exploration of rejected texts; line and column follow miette's documented conventions")
DONE["C13"] = ("fault injection: one malformed token of a drawn class in a generated valid file, shrinking",
  "random exploration over classes, places and surrounding constructs")
DONE["C14"] = ("differential testing of acceptance against an independent recogniser over edited token sequences, shrinking",
  "random exploration; trusts the recogniser (written from the grammar, cross-checked with protoc)")

DONE["C16"] = ("stateful model-based testing: generated import graphs and open/flag sequences against a reference model, shrinking",
  "random exploration over acyclic graphs of up to a dozen files and open sequences; in-memory resolver stands in for the disk")
DONE["C17"] = ("stateful fault injection: cycles, missing, duplicate and invalid files in generated import graphs; state compared with a model after every failed open",
  "random exploration over faulty import graphs and open sequences; which of several faults is met first is taken from the model")
DONE["C18"] = ("model-based testing over generated directory trees, include lists and path spellings in a scratch directory, with a textual path model as oracle",
  "random exploration on a Linux file system; Windows path rules are not reached")
DONE["C19"] = ("model-based testing of resolver chains with injected resolver faults and recorded calls; generated descriptor sets",
  "random exploration over chains and names")
DONE["C22"] = ("fault injection on the file system and file contents at generated import depths, classification oracle",
  "random exploration; permission failures are unreachable as root and stand-in resolvers supply other I/O errors")

DONE["C21"] = ("differential testing against protoc over generated multi-file programs and programs with a broken reference, tape shrinking",
  "random exploration; protoc 3.21.12 is the oracle; three shapes of references prost-reflect resolves differently are known findings and otherwise avoided")

DONE["C20"] = ("metamorphic testing of the outputs: every flag combination against the fullest one, in-memory against encoded, and recompilation from the outputs through every kind of resolver, shrinking",
  "random exploration over generated programs; trusts prost's and prost-reflect's decoding to compare contents")
DONE["C23"] = ("differential testing of the built command against the library, both run on the same generated command line in the same generated directory, shrinking",
  "random exploration over programs, include lists and spellings of options on Linux")
DONE["C24"] = ("differential testing of decoding against prost's plain decode over equivalent and damaged encodings read through several kinds of buffers, shrinking",
  "random exploration; prost's FileDescriptorSet::decode defines well-formedness; nesting near prost's recursion limit is avoided inside files")
DONE["C25"] = ("metamorphic testing over histories, threads and processes: batches of similar jobs evaluated again in other orders, concurrently, in child processes with other environments and from other directories, shrinking",
  "random exploration; thread interleavings are those the scheduler produces; up to three threads and five jobs at a time")
