prop('P01', 'A damaged AutoFDO profile is never accepted as complete',
     'A reader of a GCC AutoFDO profile file (the dump tool, the merger, or the library reader) either delivers exactly the profile that a completed write stored, or reports failure. '
     'A file cut short at any byte, torn by a crash of its writer, or made unreadable by an I/O error part-way is reported as an error by every reader, never accepted as a smaller or different profile, and never makes a reader loop forever or crash with a memory error.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'Every profile, every prefix left by a crash or a full disk while it was written, and every sequence of read errors, short reads and vanished files while it is read.',
     'No test reads a damaged profile: the profile tests read intact golden files only, and the reachable damage points are as many as the bytes of the file times the profiles.',
     ['gcov.cc', 'profile_reader.cc', 'dump_gcov.cc', 'profile_merger.cc'],
     [('sticky error flag of the record reader', 'gcov.cc gcov_read_words/gcov_read_unsigned, checked through gcov_close'),
      ('magic, version and section tag checks', 'profile_reader.cc ReadFromFile, ReadFunctionProfile'),
      ('read result checks in the tools', 'dump_gcov.cc main, profile_merger.cc main')],
     'Seeded search. Prefix truncation is drawn over all lengths, crash points over every write call. Trusts the simulated disk (a crash leaves a prefix of the written bytes).',
     technique='truncation points, writer crash points and read-fault sequences', observe=['return value or exit status of the reader', 'profile it delivers'])
prop('P02', 'A reported AutoFDO write success means the whole profile is on disk',
     'When the AutoFDO profile writer or the profile merger reports success (return value or exit status 0), the output file holds the complete, readable profile that was to be written. '
     'If opening, writing or closing the file fails in any way (error, full disk, short write), failure is reported; the tools never report success over a missing, short or torn output.',
     ['fault_sequences', 'inputs', 'crash_points'],
     'Every profile and every sequence of open, write, flush and close failures, short writes and disk capacities.',
     'The writer tests only write to a healthy disk; no test makes a file operation fail.',
     ['gcov.cc', 'profile_writer.cc', 'profile_writer.h', 'profile_merger.cc'],
     [('error flag of the record writer, checked at close', 'gcov.cc gcov_write_words, gcov_close'),
      ('write result propagated to the caller', 'profile_writer.cc WriteToFile, profile_merger.cc main')],
     'Seeded search over fault sequences with an independent reader of the bytes left on the simulated disk.',
     technique='write-fault and crash sequences', observe=['return value or exit status', 'bytes on the simulated disk'])
prop('P03', 'Writing and reading back an AutoFDO profile preserves it',
     'For every profile, writing it as an AutoFDO file and reading it back gives the same functions, inlined call trees, source locations, execution counts, indirect call targets and totals, for every supported format version, and doing so repeatedly reaches a fixed point. '
     'The result does not depend on the iteration order of hash tables or on memory addresses.',
     ['inputs', 'schedules', 'configurations', 'histories'],
     'Every profile (any inline nesting, counts up to 64 bits, discriminators, constructor and destructor name variants), every hash-table order, and write/read histories of any length.',
     'No stable test writes a profile and reads it back; hash order is fixed in one build, so order dependence cannot show.',
     ['profile_writer.cc', 'profile_reader.cc', 'symbol_map.cc', 'gcov.cc'],
     [('string table and function profile encoding', 'profile_writer.cc WriteNameTable, SourceProfileWriter'),
      ('decoding', 'profile_reader.cc ReadNameTable, ReadFunctionProfile, ReadSymbolProfile')],
     'Seeded search over profiles, hash orders and histories against an independent reference model. One source file per function name.',
     technique='hash orders and write/read histories against a reference model')
prop('P06', 'Merging AutoFDO profiles adds them up, whatever the order or grouping',
     'Merging AutoFDO profiles gives, for every function, inlined call site, source location and indirect call target, the sum of the counts in the inputs, and nothing else, except for functions below the documented threshold. '
     'The merged counts are the same for every order of the inputs and for every way of merging them in stages.',
     ['inputs', 'histories', 'schedules'],
     'Every list of profiles, every permutation and grouping of it into merge stages, and every hash-table order.',
     'No stable test merges profiles.',
     ['profile_merger.cc', 'symbol_map.cc', 'profile_reader.cc', 'symbol_map.h'],
     [('summation while reading into one symbol map', 'symbol_map.cc AddSourceCount, AddIndirectCallTarget, Symbol::Merge'),
      ('merge driver', 'profile_merger.cc main')],
     'Seeded search over profiles, orders and groupings against an independent reference model. Averaged working-set counters are left out.',
     technique='merge histories, input orders and hash orders against a reference model')
prop('P04', 'A text sample profile is read back exactly or refused',
     'Writing the aggregated samples (ranges, addresses, branches) as a text sample file and reading it back gives exactly the same samples, for any counts and addresses and any split of the bytes into reads and writes. '
     'The writer reports success only when the complete file is on disk. A file that was cut short, torn by a crash of its writer or becomes unreadable part-way is refused, never read as a smaller or different set of samples.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'Every sample set, every prefix of its file, every crash point of its writer and every sequence of open, read, write and close failures.',
     'No test reads or writes a text sample file.',
     ['sample_reader.cc', 'sample_reader.h'],
     [('text writer', 'sample_reader.cc SampleWriter::Write / TextSampleReaderWriter::Write'), ('text reader', 'sample_reader.cc TextSampleReaderWriter::Append'),
      ('existence test', 'sample_reader.cc IsFileExist')],
     'Seeded search. One known finding: the format has no terminator, so a cut inside the digits of the last count goes unnoticed.',
     technique='fault sequences, truncation and crash points')
prop('P07', 'Merging samples into a file accumulates every input exactly once',
     'Running the sample merger again and again over one output file leaves there the exact sum of what the file held before and of the inputs of every run that reported success. '
     'A run that fails because an input or the output cannot be read leaves the accumulated samples as they were; it never replaces them by the new inputs alone. The sums do not depend on the order or grouping of the runs.',
     ['histories', 'fault_sequences', 'crash_points'],
     'Every history of merger runs over one output, with failing opens, reads and writes, crashes and restarts, and every grouping of the inputs.',
     'No test runs the merger; accumulated state across runs and failures is never exercised.',
     ['sample_merger.cc', 'profile_creator.cc', 'sample_reader.cc'],
     [('load previous output, then append', 'profile_creator.cc MergeSample'), ('accumulation', 'sample_reader.cc TextSampleReaderWriter::Merge'),
      ('existence test', 'sample_reader.cc TextSampleReaderWriter::IsFileExist')],
     'Seeded search over histories of runs. Failures while writing in place may tear the output (it is not replaced atomically): then the next run must refuse it.',
     technique='histories of merger runs with crashes and I/O faults')
prop('P10', 'Branch samples from perf data are attributed exactly',
     'Reading perf data gives, for the binary of interest, the exact number of sampled instruction addresses, taken branches and fall-through ranges that its records contain, with addresses resolved through the memory mappings in force when each sample was taken. '
     'Wrong-path branches and impossible ranges are left out, the earliest sample time of each address is kept, and reading several files gives the sum over the files, whatever their order. Nothing is carried over from one file to the next, and a file that is refused changes nothing.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'Every history of mapping and sample events in any number of files and processes, every file order, every hash-table and address order, and unreadable files in between.',
     'The reader test covers one recorded file; stale state between files, mapping changes and failing files need particular event histories.',
     ['sample_reader.cc', 'sample_reader.h', 'profile_creator.cc'],
     [('mapping focus by build id or name', 'sample_reader.cc PerfDataSampleReader::MatchBinary, GetFocusBins'),
      ('range and branch extraction', 'sample_reader.cc PerfDataSampleReader::Append')],
     'Seeded search over event histories against an independent model. The perf.data decoder (quipper, not part of the repository) is a stand-in.',
     technique='event histories, file orders and read faults against a reference model')
prop('P13', 'Arm SPE branch records are counted exactly, file by file',
     'Reading Arm SPE perf data with the simple reader counts every retired branch record of the binary of interest once, as a taken branch or as a not-taken address, derives ranges only from these counts, and over several files gives the sum of the files. A file without usable records, or an unreadable one, is refused and changes nothing.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'Every sequence of records, mappings and files, with unreadable files in between, under every hash order.',
     'The simple SPE reader has no test.',
     ['simple_spe_sample_reader.cc', 'simple_spe_sample_reader.h', 'sample_reader.cc'],
     [('record filter and counting', 'simple_spe_sample_reader.cc Read'), ('accumulation over files', 'simple_spe_sample_reader.cc Append'),
      ('range synthesis', 'simple_spe_sample_reader.cc SynthesizeRanges')],
     'Seeded search against an independent model. SPE packet decoding (quipper) is a stand-in.',
     technique='record and file histories with read faults against a reference model')
prop('P18', 'Addresses are symbolized exactly, or the binary is refused',
     'For every address of a binary, the symbolizer gives the complete inline stack that the debug information records (function, source file, line and discriminator of every frame, innermost first), and nothing for addresses without line information. '
     'The answer does not depend on the order or history of queries, on how many binaries are open, on the addresses sampled or on hash order. Symbol, section and build-id lookups in an ELF file agree with the bytes of the file. '
     'A binary that is cut short, unreadable or disappears is refused: no query ever gives a different stack, symbol table or build id than the intact file gives, and no reader runs forever.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'Every address of every binary (DWARF 2 to 5, split ranges, 32 and 64 bit, PIE, LTO, line tables only), every interleaving of queries to several readers, every damaged ELF image and every sequence of open, mmap and read failures.',
     'The one stable test symbolizes three addresses of one intact binary; stale iterator state, mixed DWARF versions, and failing or short reads never occur in it.',
     ['legacy_addr2line.cc', 'util/symbolize/elf_reader.cc', 'util/symbolize/dwarf2reader.cc', 'util/symbolize/dwarf3ranges.cc', 'util/symbolize/functioninfo.cc',
      'util/symbolize/addr2line_inlinestack.cc', 'util/symbolize/bytereader.cc', 'util/symbolize/nonoverlapping_range_map.h'],
     [('inline stack assembly', 'legacy_addr2line.cc Google3Addr2line::GetInlineStack, util/symbolize/addr2line_inlinestack.cc'),
      ('line program and debug info decoding', 'util/symbolize/dwarf2reader.cc LineInfo, CompilationUnit'),
      ('range lists', 'util/symbolize/dwarf3ranges.cc AddressRangeList'), ('ELF access', 'util/symbolize/elf_reader.cc ElfReader, ElfReaderImpl')],
     'Seeded search over addresses and query histories of 19 binaries against an independent symbolizer (llvm-symbolizer, recorded), over generated ELF images and generated DWARF 2 to 5 programs (random trees of functions, inlined calls, range lists, line programs, attribute forms) against the model of the generator, and over cut files and read faults. Split DWARF (.dwo and .dwp files of GCC and Clang) is covered by fixed binaries only. Unsupported: DWARF64.',
     technique='query histories, generated and damaged images, and read-fault sequences', observe=['inline stacks', 'ELF symbols, sections and build id', 'death of the reader process'])

prop('P19', 'Creating an AutoFDO profile attributes every sample to its source position, or fails',
     'The gcov profile that create_gcov writes for a binary holds, for every function with samples, exactly the counts that the line table and inline stacks of the binary assign to the recorded addresses, ranges and branches: '
     'each instruction of an executed range counts once per execution at its innermost source position, below the inlined callsites it was inlined through, with the call targets of its branches; head counts come from the entries into the function, and functions below the threshold are left out. '
     'This holds for LBR and plain samples, for text, perf data and Arm SPE input, for non-zero segment offsets and load addresses, and for the llc_misses and prefetch hint modes, and does not depend on hash or allocation order. '
     'When the binary, the samples or the output cannot be read or written completely, create_gcov fails: a run that reports success never leaves an empty, partial or misattributed profile.',
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'Every binary, every set of samples, every mode and threshold, every hash and allocation order, and every sequence of read, open, mmap and write failures during the run (the binary is opened several times, each of which can fail).',
     'No stable test creates a profile. Which addresses are hot, how they nest in inlined code, segment layouts and read failures at each of the several openings of the binary are combinations a handful of golden files cannot cover.',
     ['create_gcov.cc', 'profile_creator.cc', 'profile.cc', 'symbol_map.cc', 'instruction_map.cc', 'sample_reader.cc', 'simple_spe_sample_reader.cc', 'profile_writer.cc', 'legacy_addr2line.cc'],
     [('sample to profile conversion', 'profile.cc Profile::AggregatePerFunctionProfile, ProcessPerFunctionProfile, ComputeProfile'),
      ('instruction map', 'instruction_map.cc InstructionMap::BuildPerFunctionInstructionMap'),
      ('attribution to source positions', 'symbol_map.cc SymbolMap::AddSourceCount, AddIndirectCallTarget, TraverseInlineStack'),
      ('reading the binary', 'profile_creator.cc ProfileCreator::CreateProfile, ReadSample; symbol_map.cc BuildSymbolMap, ReadLoadableExecSegmentInfo')],
     'Seeded search against an independent model built from the recorded line tables of real binaries. perf.data decoding (quipper) is a stand-in.',
     technique='sample sets, modes and read or write fault sequences against a reference model')
prop('P05', 'A reported LLVM profile success means the whole profile is on disk',
     'When profile_merger, working on LLVM profiles, or create_llvm_prof reports success (exit status 0), the output file holds the complete, readable profile that belongs to the inputs, in the requested format (text, binary or extensible binary, with its symbol list and flags). '
     'If an input cannot be opened or read completely, or opening, writing or closing the output fails in any way (error, full disk, short write), failure is reported; the tools never report success over a missing, short, torn or partial output.',
     ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
     'Every set of inputs, every output format and option, and every sequence of open, read, write and close failures, short transfers and disk capacities.',
     'No test runs the tools on LLVM profiles or makes a file operation fail; the writer tests write to a healthy disk.',
     ['profile_merger.cc', 'llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'create_llvm_prof.cc', 'profile_creator.cc'],
     [('input opening and parsing', 'llvm_profile_reader.cc LLVMProfileReader::ReadFromFile'),
      ('output opening, writing and closing', 'llvm_profile_writer.cc LLVMProfileWriter::CreateSampleWriter, WriteToFile, LLVMProfileBuilder::Write'),
      ('result propagated to the exit status', 'profile_merger.cc main, create_llvm_prof.cc main')],
     'Seeded search over fault sequences; the output is decoded with the reader of the LLVM library, which is trusted.',
     technique='read- and write-fault sequences against a reference model', observe=['exit status', 'bytes on the simulated disk'])
prop('P08', 'Merging LLVM profiles adds them up, whatever the order',
     'Merging LLVM sample profiles (text, binary or extensible binary) with profile_merger gives, for every function, inlined call site, line offset and discriminator, and call target, the sum of the counts in the inputs, summed entry counts, the union of the symbol lists, and nothing else, except for functions below the documented threshold. '
     'Options that trim the result (call targets per location, inlined functions per location, inline nesting, stripped symbols, special symbols) do exactly what they say: they keep the hottest, and drop or move nothing else. The result is the same for every order of the inputs and every hash-table order.',
     ['inputs', 'histories', 'schedules', 'configurations'],
     'Every list of LLVM profiles in any mix of formats, every order of them, every hash-table order, and every combination of the trimming and format options.',
     'No stable test merges LLVM profiles; hash order differs from run to run in deployment but never within a test.',
     ['profile_merger.cc', 'llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'symbol_map.cc'],
     [('summation while reading into one symbol map', 'llvm_profile_reader.cc ReadFromFunctionSamples; symbol_map.cc AddSourceCount, AddIndirectCallTarget, AddSymbolEntryCount'),
      ('trimming', 'symbol_map.cc throttleInlineInstancesAtSameLocation, trimCallTargets, FlattenNestedInlineCallsites'),
      ('symbol lists', 'profile_merger.cc MergeSampleProfile / verifyProperFlags; llvm_profile_writer.cc'),
      ('encoding', 'llvm_profile_writer.cc LLVMProfileBuilder::Convert, VisitTopSymbol, VisitCallsite, Visit')],
     'Seeded search over profiles, options, orders and hash orders against an independent reference model. Inputs and outputs are encoded and decoded by the LLVM library, which is trusted.',
     technique='merge histories, input orders and hash orders against a reference model')
prop('P09', 'An LLVM sample profile counts every sample at its source position',
     'create_llvm_prof turns samples of a binary into an LLVM profile (text, binary or extensible binary) in which every function whose samples exceed the documented threshold appears with its total and entry counts, and every sampled instruction is counted at exactly the inlined call path, line offset and base discriminator that the debug information of the binary gives for its address, scaled by its duplication factor (with flow-sensitive discriminators: at the whole discriminator or its base bits, as asked, and not scaled); taken calls appear as call targets of their position. '
     'Suffixed parts of a function are merged into it as the suffix policy says, all names of one address get its profile, and the optional symbol list names the biggest unsampled functions up to the requested share of the size. '
     'This also holds for kernels, whose samples are relative to their first executable segment, and for kernel modules, where only code of .text counts even though all sections start at the same address. '
     'The result does not depend on hash-table or address order, or on how reads are split; when the samples or the binary cannot be read completely, failure is reported and no success is claimed over a smaller or different profile.',
     ['inputs', 'configurations', 'fault_sequences', 'schedules'],
     'Every set of samples of every binary, every input kind (text samples, perf data, prefetch hints) and mode, every hash-table and address order, and every sequence of I/O failures.',
     'No stable test creates an LLVM profile; attribution depends on the combination of inlining, discriminators, segments, suffixes and order.',
     ['create_llvm_prof.cc', 'profile_creator.cc', 'profile.cc', 'symbol_map.cc', 'instruction_map.cc', 'addr2line.cc', 'source_info.h', 'profile_symbol_list.cc', 'llvm_profile_writer.cc'],
     [('sample to profile conversion', 'profile.cc Profile::AggregatePerFunctionProfile, ProcessPerFunctionProfile, ComputeProfile'),
      ('symbolization', 'addr2line.cc LLVMAddr2line::GetInlineStack'), ('offsets and discriminators', 'source_info.h SourceInfo::Offset, DuplicationFactor'),
      ('symbol list', 'symbol_map.cc collectNamesForProfSymList, profile_symbol_list.cc fillProfileSymbolList'),
      ('encoding', 'llvm_profile_writer.cc LLVMProfileBuilder')],
     'Seeded search against an independent model built from the recorded line tables of real binaries. perf.data decoding (quipper) is a stand-in; LLVM decodes debug information and profiles.',
     technique='sample sets, modes, orders and I/O fault sequences against a reference model')
PROP_FILES = ['create_llvm_prof.cc', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc']
prop('P11', 'The control flow Propeller sees is what the branch records say',
     'For a binary with a basic-block address map and branch records (LBR) of its execution, the profile that create_llvm_prof --format=propeller derives names exactly the functions in text sections that the records touch and that have an unambiguous name (duplicates are resolved as documented), '
     'each with all its symbol names, its entry frequency, all its basic blocks with the frequency the records imply, and every edge between blocks with the number of times the records show it: taken branches, fall-throughs between consecutive records, calls and returns, the return from a call that ends a block included. '
     'Run-time addresses are mapped to the binary by the mappings of the recorded process, whatever its load address, segments, offsets or build-id matching (build id, binary name, --ignore_build_id, kernel, kernel modules), and records of other binaries or processes do not count. '
     'With --propeller_output_module_name every function has the name of the compile unit that covers it, from the binary or its .dwp file, and the run fails when there is no such information. '
     'Without any usable input, or when the records contradict the binary (source drift), the run fails.',
     ['inputs', 'configurations', 'histories'],
     'Every binary (sections, segments, duplicate and aliased names, empty blocks, block ids in any order, 64-bit addresses), every set of recordings and mappings, and every execution.',
     'The stable tests do not run Propeller. Its upstream tests look at a handful of recorded binaries; which blocks fall through, which addresses fall into which segment and which names collide depend on the input.',
     PROP_FILES + ['perfdata_reader.cc', 'lbr_branch_aggregator.cc', 'llvm_propeller_perf_lbr_aggregator.cc', 'llvm_propeller_binary_address_mapper.cc', 'llvm_propeller_binary_content.cc',
                   'llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_cfg.cc', 'llvm_propeller_cfg.h'],
     [('mapping run-time to binary addresses', 'perfdata_reader.cc SelectMMaps, PerfDataReader::RuntimeAddressToBinaryAddress'),
      ('branches and fall-throughs', 'perfdata_reader.cc PerfDataReader::AggregateLBR'),
      ('function selection and block lookup', 'llvm_propeller_binary_address_mapper.cc BinaryAddressMapperBuilder, FindBbHandleIndexUsingBinaryAddress, CanFallThrough'),
      ('edges', 'llvm_propeller_program_cfg_builder.cc CreateEdges, CreateEdge, CreateFallthroughs'), ('frequencies', 'llvm_propeller_cfg.cc CalculateNodeFreqs')],
     'Seeded search over generated binaries, executions, mappings and hash orders against an independent account of the records. perf.data decoding (quipper) is a stand-in; fewer than 16 functions of at most 15 blocks.',
     technique='executions, mappings and hash orders against a reference model', observe=['cluster file with its verbose profile', 'exit status'])
prop('P12', 'Propeller never reports success over input it could not read',
     'When create_llvm_prof --format=propeller reports success although opening, mapping or reading the binary, a profile or the list of profiles failed or was cut short somewhere, its outputs are exactly those it writes when nothing fails; otherwise it reports failure. It never crashes with a memory error or hangs.',
     ['fault_sequences', 'inputs', 'configurations'],
     'Every input and every sequence of open, stat, mmap, seek and read failures, short reads and vanishing files, for each of the files and each of the times they are opened.',
     'No test makes reading fail.',
     PROP_FILES + ['llvm_propeller_file_perf_data_provider.cc', 'llvm_propeller_binary_content.cc', 'llvm_propeller_perf_lbr_aggregator.cc'],
     [('profile list', 'create_llvm_prof.cc GeneratePropellerProfiles option building; llvm_propeller_options_builder.cc'),
      ('reading profiles', 'llvm_propeller_file_perf_data_provider.cc GenericFilePerfDataProvider::GetNext'),
      ('reading the binary', 'llvm_propeller_binary_content.cc GetBinaryContent')],
     'Seeded search over fault sequences; the reference is the same run without faults.',
     technique='read-fault sequences', observe=['exit status', 'cluster file, symbol order and dump'])
prop('P14', 'A Propeller layout places every hot block exactly once',
     'In the cluster file every block id exists in its function and occurs at most once; every executed block is placed; an entry block begins its cluster; landing pads stay in one cluster when any of them is hot; blocks that were never executed are left out (unless splitting is disabled); without inter-function reordering a function has one cluster, and with --propeller_split_only blocks keep their order. '
     'Blocks that only ever follow each other stay adjacent. The symbol order lists the symbols of every cluster of every function exactly once, with the names the cluster file implies, the hot parts of an output section before its cold parts, and the cold parts in the order of the hot parts; functions move only when call chain clustering or interleaving is requested. '
     'The reported extended-TSP scores are those of the original and of the written layout, the dumped graphs show every block and edge, and copies of paths (which another program may have made) are listed with their predecessor and placed by block and copy number.',
     ['inputs', 'configurations', 'schedules'],
     'Every control flow graph and profile, every combination of layout options, and every hash-table and address order.',
     'The stable tests do not run Propeller; its upstream tests check chosen graphs. Chain merging, splitting and clustering take other paths for each graph and each order.',
     PROP_FILES + ['llvm_propeller_code_layout.cc', 'llvm_propeller_node_chain.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_node_chain_assembly.cc', 'llvm_propeller_chain_cluster_builder.cc',
                   'llvm_propeller_code_layout_scorer.cc', 'llvm_propeller_profile_writer.cc', 'llvm_propeller_cfg.cc'],
     [('chains', 'llvm_propeller_node_chain_builder.cc NodeChainBuilder'), ('clusters', 'llvm_propeller_chain_cluster_builder.cc ChainClusterBuilder'),
      ('layout and cluster ids', 'llvm_propeller_code_layout.cc CodeLayout::GenerateLayout'), ('scores', 'llvm_propeller_code_layout_scorer.cc GetEdgeScore'),
      ('output', 'llvm_propeller_profile_writer.cc PropellerProfileWriter::Write')],
     'Seeded search over graphs, options and hash orders; structural rules, an independent score and forced successions are the oracle. Optimality of the layout is not a property.',
     technique='graphs, layout options and hash orders against structural invariants and a reference score', observe=['cluster file', 'symbol order', 'dumped graphs'])
prop('P15', 'Propeller gives the same result for the same recordings',
     'The cluster file, symbol order and dump that Propeller writes depend only on the binary, the options and the multiset of recorded samples: not on hash-table iteration order, memory addresses, the order of the samples in a file or of the profiles on the command line, nor on whether these are given directly or in a list file.',
     ['schedules', 'histories', 'configurations'],
     'Every input and option, every hash-table and heap order, every order of samples and files.',
     'Hash order changes from process to process in deployment (randomised seeds) but tests compare one run with itself or with a golden file.',
     PROP_FILES + ['llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_cfg.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_chain_cluster_builder.cc', 'llvm_propeller_file_perf_data_provider.cc'],
     [('aggregation into hash maps', 'perfdata_reader.cc AggregateLBR; lbr_aggregation.h'), ('edge order', 'llvm_propeller_program_cfg_builder.cc CreateEdges'),
      ('ties between merges', 'llvm_propeller_node_chain_builder.cc; llvm_propeller_chain_cluster_builder.cc'), ('profile order', 'llvm_propeller_profile_computer.cc')],
     'Seeded search over hash orders, heap orders and sample and file orders; two to four runs of the same job are compared byte by byte.',
     technique='hash, heap, sample and file orders, differential', observe=['cluster file, symbol order and dump'])
prop('P16', 'A reported Propeller success means its files are complete',
     'When create_llvm_prof --format=propeller reports success, the cluster file, the symbol order and, if asked for, the dumped graphs are all completely on disk; if opening, writing or closing any of them fails in any way (error, full disk, short write), failure is reported.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'Every input and every sequence of open, write and close failures, short writes, and disk capacities, on any of the output files.',
     'No test makes writing fail.',
     ['llvm_propeller_profile_writer.cc', 'llvm_propeller_profile_generator.cc', 'create_llvm_prof.cc', 'llvm_propeller_cfg.cc'],
     [('outputs', 'llvm_propeller_profile_writer.cc PropellerProfileWriter::Write, DumpCfgs'), ('exit status', 'create_llvm_prof.cc main')],
     'Seeded search over fault sequences; the reference is the same run without faults.',
     technique='write-fault sequences', observe=['exit status', 'cluster file, symbol order and dump'])
prop('P17', 'The status page of a Propeller run tells the truth',
     'At every moment a status consumer looks, a Propeller run with --http reports a progress from 0 to 100 that never goes back, names the job being worked on, and reports done exactly at 100%, which it reaches only after all outputs are completely written and the run will report success. '
     'Every registered consumer is started once, before any work is reported, and stopped once before the run ends, also when it fails; the consumers do not change the result. '
     'For any tree of weighted jobs, progress is the weighted share of the work done and never decreases as jobs advance.',
     ['schedules', 'fault_sequences', 'configurations', 'histories'],
     'Every moment of observation (between any two I/O calls or allocations), every failure of the run, every tree of jobs and every order in which they advance.',
     'The stable tests do not cover status reporting; a consumer looks at moments that a test does not choose.',
     ['status_provider.h', 'status_provider.cc', 'status_consumer_registry.cc', 'status_consumer_registry.h', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc'],
     [('progress of a tree of jobs', 'status_provider.cc MultiStatusProvider::GetProgress, GetJob'), ('consumers', 'status_consumer_registry.cc Start, Stop'),
      ('progress of the run', 'llvm_propeller_profile_generator.cc GeneratePropellerProfiles')],
     'Seeded search over observation points and faults in one thread: torn memory accesses between threads are out of scope.',
     technique='asynchronous observation points and fault sequences', observe=['what GetProgress, GetJob and IsDone say, at any time'])
prop('P20', 'Propeller counts what SPE recorded',
     'A Propeller profile made from Arm SPE records counts every branch record of a thread of the profiled program (whatever the order in which threads, mappings and records appear in the file, also when thread ids are reused), and nothing else: '
     'the taken and not-taken counts of each block\'s branches are those recorded, fallthrough counts follow from them by conservation of flow, records of other processes or outside the binary change nothing, and a recording without usable branches is refused.',
     ['inputs', 'schedules', 'histories', 'configurations'],
     'Every binary, every interleaving of processes, threads and mappings in time, every order of records in the file, and every hash-table order.',
     'The stable tests do not run Propeller; upstream tests use one recorded file with one process.',
     PROP_FILES + ['spe_tid_pid_provider.cc', 'spe_tid_pid_provider.h', 'frequencies_branch_aggregator.cc', 'llvm_propeller_perf_branch_frequencies_aggregator.cc', 'branch_frequencies.h'],
     [('threads to processes', 'spe_tid_pid_provider.cc SpeTidPidProvider'), ('records', 'perfdata_reader.cc AggregateSpe, ReadWithSpeRecordCallBack'),
      ('fallthrough inference', 'frequencies_branch_aggregator.cc InferFallthroughs')],
     'Seeded search over generated binaries and recordings against an independent account of the records. SPE packet decoding (quipper) is a stand-in.',
     technique='histories of processes, threads and mappings against a reference model', observe=['cluster file with its verbose profile', 'exit status'])
prop('P21', 'AutoFDO counts from SPE are those of the recorded branches',
     'Reading Arm SPE records for AutoFDO yields, for every branch, call and instruction range, exactly the counts that the records of the profiled binary imply (each taken branch from its source to its target; each range of straight-line code by conservation of flow between the branches found by disassembly or by sampling), '
     'attributed to the right process and mapping, independent of the order of events and of hash order; the LLVM profile that create_llvm_prof --profiler=perf_spe makes of a recording counts each of them at its source position, and there is none of a recording that is not of the binary; when the recording or the binary cannot be read, reading fails or has the same result.',
     ['inputs', 'fault_sequences', 'schedules', 'histories'],
     'Every binary and recording, both ways to identify branches, selection by build id or by file name, every event order and every sequence of open, read and mmap failures.',
     'Only upstream tests that do not run here cover this reader, with one recorded file and no faults.',
     ['spe_sample_reader.cc', 'branch_frequencies_autofdo_sample.cc', 'perfdata_reader.cc', 'spe_tid_pid_provider.cc', 'mini_disassembler.cc', 'symbol_map.cc'],
     [('reader', 'spe_sample_reader.cc PerfSpeDataSampleReader::Append'), ('ranges', 'branch_frequencies_autofdo_sample.cc'), ('instructions', 'mini_disassembler.cc MayAffectControlFlow'), ('profile', 'profile_creator.cc ProfileCreator::CreateProfile, create_llvm_prof.cc')],
     'Seeded search over generated binaries, recordings and faults against a reference model. SPE packet decoding (quipper) is a stand-in.',
     technique='histories, event orders and read faults against a reference model', observe=['branch, address and range counts', 'success or failure of Append'])
prop('P22', 'profile_diff reports the overlap of the two profiles it was given',
     'profile_diff prints the sum over all functions of the smaller of their shares in the two profiles (0 when either profile is empty): the same in both directions, 1 for a profile and itself, whatever the format of either profile and whatever hash order; --compare_function lists exactly the functions hot in either profile with their sizes in both. '
     'When a profile is missing, damaged or could not be read, profile_diff fails and does not report an overlap.',
     ['inputs', 'fault_sequences', 'schedules', 'configurations'],
     'Every pair of profiles in every pair of formats, every hash order and every sequence of read failures.',
     'There is no test of profile_diff.',
     ['profile_diff.cc', 'symbol_map.cc', 'llvm_profile_reader.cc'],
     [('overlap', 'symbol_map.cc SymbolMap::Overlap'), ('listing', 'symbol_map.cc SymbolMap::DumpFuncLevelProfileCompare'), ('exit status', 'profile_diff.cc main')],
     'Seeded search over generated profiles, formats, hash orders and read faults; numbers are compared up to the last printed digit.',
     technique='read-fault sequences and hash orders against a reference model', observe=['standard output', 'exit status'])
prop('P23', 'Propeller\'s layout is the one that greedy ext-TSP chain merging gives',
     'Starting from the hot blocks of each function (blocks that only ever follow each other joined first, or blocks in the chains another program asks for), Propeller repeatedly applies the merge of two chains, possibly splitting one of them, that gains the most ext-TSP score (as documented: fallthrough, forward and backward jumps weighted by distance; ties by block order, then merge order and split position) until no merge gains anything; '
     'the chains of a function are then joined with the entry first and the rest by execution density, and with call chain clustering functions are grouped behind their heaviest callers as documented. '
     'The clusters and the symbol order that are written are exactly this layout, for every profile, chain-split and distance option, with and without function interleaving, and whatever the order of hash tables.',
     ['inputs', 'configurations', 'schedules', 'histories'],
     'Every binary, profile and layout option, every sequence of merges and every hash-table and heap order: the scores are maintained incrementally over the whole history of merges.',
     'The stable tests do not run Propeller; upstream tests pin a few small graphs, while an error in the incremental bookkeeping shows only after particular sequences of merges and splits.',
     ['llvm_propeller_node_chain_builder.cc', 'llvm_propeller_node_chain.cc', 'llvm_propeller_node_chain_assembly.cc', 'llvm_propeller_code_layout_scorer.cc', 'llvm_propeller_code_layout.cc', 'llvm_propeller_chain_cluster_builder.cc'],
     [('merging', 'llvm_propeller_node_chain_builder.cc NodeChainBuilder::BuildChains, UpdateNodeChainAssembly'), ('bookkeeping', 'llvm_propeller_node_chain.cc NodeChain::MergeWith'),
      ('gain', 'llvm_propeller_node_chain_assembly.cc ComputeScoreGain'), ('clustering', 'llvm_propeller_chain_cluster_builder.cc ChainClusterBuilder::BuildClusters')],
     'Seeded search over binaries, executions, options and hash orders; a naive reference recomputes every score from scratch at every step. Runs in which rounding could decide between two merges are skipped.',
     technique='refinement against a naive reference under hash and heap orders', observe=['cluster file', 'symbol order'])

prop('P24', 'dump_gcov and --debug_dump print the profile that was written',
     'For every AutoFDO profile that create_gcov or profile_merger can write, dump_gcov prints each function with its total and head counts, and below it every source position and inlined call site with its count and its indirect-call targets, nested as they were inlined, ordered by count and position; nothing else and nothing missing, whatever hash order. The listing of create_gcov --debug_dump has every function that is written once with its total, head count and time, is the same in every run of the same inputs, and does not change the profile. '
     'When the profile is missing, cut off or cannot be read to its end, dump_gcov fails instead of printing part of it as if it were the profile.',
     ['inputs', 'fault_sequences', 'schedules'],
     'Every profile in every supported version of the format, every sequence of open and read failures and short reads, and every hash order.',
     'There is no test of dump_gcov; the reader has upstream tests with two recorded files only.',
     ['dump_gcov.cc', 'profile_reader.cc', 'symbol_map.cc', 'symbol_map.h', 'profile_writer.cc', 'gcov.cc'],
     [('reading', 'profile_reader.cc AutoFDOProfileReader::ReadFunctionProfile, ReadSymbolProfile'), ('printing', 'symbol_map.cc Symbol::Dump, Symbol::DumpBody, SymbolMap::Dump; profile_writer.cc ProfileWriter::Dump')],
     'Seeded search over generated profiles, hash orders and read faults; the expected listing is made from the operations that built the profile, without the reader.',
     technique='read-fault sequences and hash orders against a reference model', observe=['standard output', 'exit status'])
prop('P25', 'The statistics Propeller reports are those of the run',
     'After a successful Propeller run every registered telemetry reporter is called once, in the order of registration, with the statistics of that run; a failed run reports nothing. '
     'The statistics agree with what was read and written: profiles parsed, mappings of the binary, branch records; functions with samples, without a symbol, sharing a name; graphs, blocks, edges and edge weights by kind, executed blocks, empty ones, functions with executed landing pads; '
     'branch instructions by what is at their addresses in the binary (may affect control flow, cannot, no instruction), each weighted by its records; chains and merges by kind; and the layout scores before and after, summed over the functions. The text form says the same. Statistics of several runs add up field by field.',
     ['inputs', 'configurations', 'schedules'],
     'Every binary, recording and option, and every hash-table and heap order.',
     'The stable tests do not run Propeller; the statistics are what users watch to notice a stale binary or a layout that got worse, and each sums over the whole input.',
     ['llvm_propeller_statistics.cc', 'llvm_propeller_statistics.h', 'llvm_propeller_telemetry_reporter.cc', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_perf_lbr_aggregator.cc', 'mini_disassembler.cc', 'llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_code_layout.cc', 'llvm_propeller_node_chain_builder.cc'],
     [('reporters', 'llvm_propeller_telemetry_reporter.cc InvokePropellerTelemetryReporters'), ('disassembly', 'llvm_propeller_perf_lbr_aggregator.cc PerfLbrAggregator::CheckLbrAddress, mini_disassembler.cc MiniDisassembler::DisassembleOne'),
      ('graphs', 'llvm_propeller_program_cfg_builder.cc ProgramCfgBuilder::Build, InternalCreateEdge'), ('scores', 'llvm_propeller_code_layout.cc CodeLayout::OrderAll')],
     'Seeded search over binaries with real branch instructions, executions, options and hash orders, through the library interface; every number is recomputed from the inputs and from the layout reference.',
     technique='statistics recomputed independently, under hash and heap orders', observe=['telemetry reporters', 'DebugString'])
prop('P26', 'Propeller\'s control-flow graphs as a library: the graphs of the execution, exact copies and exports',
     'PropellerProfileComputer, however it is created (from files, from a collector of samples, from an aggregator), gives the control-flow graphs of the hot functions with every block, every kind of edge and its weight as the recording implies, and the same profile for the same data; a collector that fails at any point makes the whole computation fail. '
     'Queries over the graphs (node frequencies, frequency percentiles, hot join nodes, graphs by section) agree with the graphs; copying a graph gives the same graph, and copying paths in it adds numbered copies that can be found again and changes nothing else. '
     'Building the graphs in stages, each recording on top of the graphs so far, gives the graphs of all the recordings in whatever order and however often. '
     'The exported form describes exactly these graphs; when export or import cannot be completed it reports failure, and what was exported is read back unchanged.',
     ['inputs', 'fault_sequences', 'schedules', 'crash_points'],
     'Every binary, recording and way of creation, every point of failure of the collector, every sequence of write, close and read failures, and every hash-table order.',
     'The stable tests do not run Propeller; upstream tests of these classes use a few constructed graphs and no failures.',
     ['llvm_propeller_program_cfg.cc', 'llvm_propeller_program_cfg.h', 'llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_cfg.cc', 'llvm_propeller_cfg.h', 'llvm_propeller_program_cfg_proto_builder.cc', 'llvm_propeller_profile_computer.cc', 'llvm_propeller_profile_generator.cc'],
     [('graphs', 'llvm_propeller_program_cfg_builder.cc ProgramCfgBuilder::Build'), ('queries', 'llvm_propeller_program_cfg.cc GetNodeFrequencyThreshold, GetHotJoinNodes'),
      ('copies', 'llvm_propeller_cfg.cc CloneCfg, ControlFlowGraph::ClonePath'), ('export and import', 'llvm_propeller_program_cfg_proto_builder.cc AddCfgs, WriteAndClose, Read'),
      ('creation', 'llvm_propeller_profile_computer.cc PropellerProfileComputer::Create')],
     'Seeded search over binaries, executions, ways of creation, failures and hash orders; graphs are recomputed from the execution. A text file that ends between two messages without an error cannot be told from a whole one.',
     technique='failure points, write/read faults and hash orders against a reference model', observe=['graphs and answers to queries', 'exported graphs', 'success or failure'])
prop('P27', 'Transforming a profile in memory keeps its counts',
     'Making a flat profile of a SymbolMap (BuildFlatProfile) gives every function the sum of its out-of-line and inlined copies at every source position, with each inlined call site turned into a call whose count is that of the entries into the inlined copy (recorded, or that of its first position); the selective form leaves hot functions as they are and does this to the others one level deep. '
     'BuildHybridProfile leaves inlined call sites above the threshold in place and moves the body of every other one, at any depth, into the out-of-line function. Both report how many functions or call sites there were and how many were flattened. UpdateWithRatio scales every count of every function, GetTotalSum is the sum over the functions. '
     'ComputeTotalCountIncl gives every function its own count plus, for every call outside its cycle of recursion, the share of the callee\'s inclusive count that the call stands for; functions of one cycle get one common sum; and the listing for analysis prints these counts. None of it depends on hash order or memory addresses, and no call graph makes it fail.',
     ['inputs', 'schedules', 'configurations'],
     'Every profile (nesting, several inlined functions at one position, recursion and cycles of calls), every threshold and ratio, and every hash-table order and heap layout.',
     'The transformations are not covered by the stable tests; the call graph is kept in hash sets of pointers, so each run of one build sees one order of its nodes only.',
     ['symbol_map.cc', 'symbol_map.h'],
     [('flattening', 'symbol_map.cc BuildFlatProfile, FlattenCallsite, FlatMerge, EstimateHeadCount'), ('keeping hot call sites', 'symbol_map.cc BuildHybridProfile, PopulateSymbolRetainingHotInlineStacks'),
      ('inclusive counts', 'symbol_map.cc CallGraph::FindAndCollapseSCC, ReverseTopoSort, SymbolMap::ComputeTotalCountIncl')],
     'Seeded search over profiles, thresholds, hash orders and heap layouts; results are recomputed from a snapshot of the input. Call graphs whose inclusive counts exceed 64 bits are left out.',
     technique='hash orders and heap layouts against a reference model', observe=['counts of every function', 'listing for analysis'])
prop('P28', 'A symbol map knows the functions and segments of its binary',
     'A SymbolMap made for a binary gives for every address the function whose symbol covers it, with its start and end, or none; where several symbols stand at one address the first of the symbol table names the function and the others are names of the same function, as are names added by AddAlias: adding it makes one symbol with one set of counts under all of its names. '
     'File offsets and link-time addresses convert to each other by the executable segments (offsets in a kernel count from its first one, in a kernel module the .text section stands for the segment). The functions given as sampled are those at the sampled offsets and those with counts; the functions listed as never sampled are all others. '
     'ElideSuffixesAndMerge leaves only names without the suffixes of the chosen policy and loses and doubles no counts, whatever names share a symbol. A binary that cannot be read in full ends the process or is marked as unreadable; it is never answered from in part.',
     ['inputs', 'fault_sequences', 'configurations'],
     'Every binary, symbol table, layout of segments and sequence of calls, every failure while the binary is read, every hash-table order.',
     'The stable test reads one binary and asks for source lines only; symbol tables with parts of functions, several names per address and failing reads are not tested.',
     ['symbol_map.cc', 'symbol_map.h', 'util/symbolize/elf_reader.cc'],
     [('addresses', 'symbol_map.cc GetSymbolInfoByAddr, BuildSymbolMap, SymbolReader'), ('segments', 'symbol_map.cc ReadLoadableExecSegmentInfo, symbol_map.h get_static_vaddr, GetFileOffsetFromStaticVaddr'),
      ('names', 'symbol_map.cc AddSymbol, AddAlias, AddSymbolMappings, ElideSuffixesAndMerge, GetOriginalName'), ('sampled functions', 'symbol_map.cc GetSampledSymbolStartAddressSizeMap, collectNamesForProfSymList')],
     'Seeded search over fixture binaries with generated symbol tables and program headers, sequences of calls, read faults and hash orders. Symbols that overlap, and sampled addresses between functions, are left out.',
     technique='read faults and hash orders against a reference model', observe=['answers to queries', 'counts by name', 'whether the binary counts as readable'])

prop('P29', 'The LLVM tools refuse what they cannot honour before they write',
     'create_llvm_prof and profile_merger carry out exactly the options they were given or end unsuccessfully and leave every file as it was. Refused are: no output, or --out and --gcov that disagree; an unknown output format; --prof_sym_list with an output format other than extbinary; --ignore_build_id, several input files and list files outside the propeller format; an unknown profiler; a binary that is missing or no binary; for Propeller both --propeller_split_only and --propeller_layout_only, an unknown encoding version, no profiles or one that is missing; in profile_merger a merge without inputs or with an unreadable one, and writer options (--compress, --gen_partial_profile and the like) for a format that cannot carry them. '
     'With options that can be honoured, in any order and with --gcov in place of or beside --out, the profile written is the one the options ask for.',
     ['inputs', 'configurations'],
     'Every combination and order of options, every state of the files beforehand, every hash-table order.',
     'No test runs either tool.',
     ['create_llvm_prof.cc', 'profile_merger.cc', 'profile_creator.cc', 'llvm_propeller_profile_generator.cc'],
     [('create_llvm_prof', 'create_llvm_prof.cc main, CreatePropellerOptionsFromFlags'), ('propeller', 'llvm_propeller_profile_generator.cc GeneratePropellerProfiles, GetProfileType; llvm_propeller_profile_writer.h GetProfileEncoding'), ('profile_creator', 'profile_creator.cc CreateProfile, ReadSample'), ('profile_merger', 'profile_merger.cc main, verifyProperFlags')],
     'Seeded search over combinations and orders of options with one or several that cannot be honoured, with and without an older output file; all files are compared before and after. Limit: options of no effect on the outcome (verbosity) are not varied.',
     technique='whole tool runs on a simulated disk against a reference model', observe=['exit status', 'every file before and after'])
prop('P30', 'Working sets say how few instructions carry each share of the counts',
     'The working sets that ComputeWorkingSets leaves in a symbol map, and that create_gcov stores in the profile, hold for each of the 128 shares i/129 of all counts (summed over instructions) the largest number of instructions, hottest first, that together stay within the share, and the count of the next one. '
     'Every instruction counts once, with the count of its source position: under however many names its function is known, into however many parts it is split and whichever suffixes were elided, inlined code included, functions without counts left out. The order of functions and positions has no influence.',
     ['inputs', 'configurations'],
     'Every set of counts, ties, numbers of instructions per position, names and parts of functions, and every hash-table order.',
     'The stable test does not touch profiles; the unit test of symbol maps checks one total.',
     ['symbol_map.cc', 'profile.cc', 'profile_writer.cc', 'profile_reader.cc', 'instruction_map.cc'],
     [('computation', 'symbol_map.cc ComputeWorkingSets, AddSymbolProfileToHistogram'), ('instructions per position', 'instruction_map.cc BuildPerFunctionInstructionMap, symbol_map.cc AddSourceCount'), ('storage', 'profile_writer.cc WriteWorkingSet, profile_reader.cc ReadWorkingSet')],
     'Seeded search: generated counts with ties and large and zero numbers of instructions, and whole runs of create_gcov over binaries with functions in parts, against sets recomputed share by share. Limits: the instruction counts in the file are multiples of ten; sums beyond 64 bits are left out.',
     technique='whole tool runs and library calls against a reference model', observe=['the 128 working sets', 'those read back from the written profile'])
