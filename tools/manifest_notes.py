BASE = ' Trusted: TLC, the specification as a reading of the README and RFC 8259, g++ for the driver, exact rational arithmetic for the decimal-to-binary table.'
NOTES = {
 'C01': (TRACE, 'Recorded round trips through the compiled headers, judged by TLC against Encoder.tla (what must survive): every edge value of every type, singular and repeated, all parameter combinations, sampled (thorough: all) code points, random values over fixed and random schemas.' + BASE),
 'C02': (TRACE, 'Every recorded output is read by the RFC 8259 machine of Rfc8259.tla and compared with the value by Encoder.tla; presence of each field alone and missing, NaN and infinities in every floating-point field.' + BASE),
 'C03': (TRACE, 'Outputs judged by Rfc8259.tla (ASCII, exact text); ill-formed UTF-8 enumerated to two bytes and by strata to four bytes, in every place a string can be (thorough: all code points).' + BASE),
 'C04': (TRACE, 'The byte-level decoder machine of Decoder.tla decides acceptance and value for generated valid documents in many notations; recorded results of the real decoder have to agree.' + BASE),
 'C05': (TRACE, 'Decoder.tla decides which damaged or mistyped texts must be rejected; the real decoder must reject them. Every truncation point of sampled texts.' + BASE),
 'C06': (TRACE, 'Error code and position are outputs of the decoder machine; compared for damaged, mistyped and cut texts, with dirty, clean and no parameters.' + BASE),
 'C07': (TRACE, 'Documents with unknown, transient and null members at all levels; the decoder machine skips them, the real decoder must give the same object.' + BASE),
 'C08': (TRACE, 'Ten ways of reading and twelve of writing are executed for each case, in guarded memory; all results must be one result, the one of the specification.' + BASE),
 'C10': (TRACE, 'The decoder machine starts from a used object; repeated names, nulls, nested merges, appended arrays.' + BASE),
 'C19': (TRACE, 'Base64 defined in Bytes.tla; all lengths to 70 and larger ones, every character at every position of a group, six schemas with bytes in different company.' + BASE),
 'C20': (TRACE, 'The decoder and encoder machines with an array as root; every container and element type, all library channels.' + BASE),
 'C09': (BOTH, 'ObjectsMC explores every state of three objects under the operations of Objects.tla (set, clear, copy, assign, move, swap, field copy and swap, deserialise) and its scripts are replayed; random longer scripts over other schemas are judged by TLC: contents, emptiness and every comparison after every step.' + BASE),
 'C11': (BOTH, 'ProtoMC explores the schema machine of Proto.tla over chunks (every state and chunk within the bounds, invariants of the design) and replays the texts; generated schemas in many layouts are judged by ProtoTrace: the AST of the library has to be the one specified.' + BASE),
 'C12': (BOTH, 'The same exploration and trace validation for rejected texts: damaged tokens and bytes, every prefix, every rule of a whole schema; the line and column of the offending token have to be the specified ones; library and command line tool.' + BASE),
 'C13': (BOTH, 'The machines of Proto.tla and Decoder.tla are total (TLC: every state takes every byte and the end). Their texts and families that grow (nesting, references, comments, names, numbers) run in the real tool, library and decoder built with the address and undefined behaviour sanitizers under limits on time and memory; growth has to stay proportional to the input.' + BASE),
 'C14': (EXPLORE, 'Order.tla: every graph of references between 3 (thorough: 4 and 5) messages; Parts.tla: every sequence of headers with different runtime parts. Each is generated, compiled alone and together by g++ and clang++ as C++11, linked and run.' + BASE),
 'C15': (BOTH, 'Binding.tla says what each option changes (TLC: and nothing else, in any position, false being the default); every combination of the options with every form of field is compiled, its types asserted, its literals searched, and its JSON judged by the codec machines.' + BASE),
 'C16': (EXPLORE, 'Cli.tla: every environment of the tool (arguments, input, destination, standard output, failing system call); TLC proves truth, silence and untouched files for the specification and prints the outcomes; each environment is made in a scratch directory for the real tool. Faults injected with strace and RLIMIT_FSIZE.' + BASE),
 'C17': (BOTH, 'Binding.tla gives the class and member types of every schema; static assertions generated from it are compiled (every type in every form under every option combination; every order of packages and messages in small schemas).' + BASE),
 'C18': (BOTH, 'Threads.tla is the product of the operation machines; TLC explores every interleaving and prints a schedule for every reachable combination of progress, replayed in the real code with streams that wait for their turn (in threads, and nested in one thread). Results of operations in other orders, in eight threads, of a shared object, under comma locales are judged by CodecTrace; ThreadSanitizer watches the threads.' + BASE),
 'C21': (BOTH, 'Generation.tla: every history of parsing, generating and dropping in two slots within the bounds, replayed in the library; GenerationTrace.tla keeps a memo from declarations (the result of the schema machine of Proto.tla, layout and meaningless parts removed) to headers and validates recorded histories of the tool (ten environments, two builds) and of the library (also in threads and under other locales): equal declarations, equal bytes.' + BASE),
 'C22': (BOTH, 'FaultsMC explores the decoder machine with a fault after any chunk, an object that lags behind it and a second reading (what is held is always explained by what was there and what was read); its texts and random ones are executed in the real code with streams that throw at every character or piece, standard streams that stop quietly or with an exception, and a heap that refuses every single allocation in turn; FaultTrace.tla judges the outcome, the object, the target, a copy, a cleared copy, a second operation and the number of live allocations.' + BASE),
}
