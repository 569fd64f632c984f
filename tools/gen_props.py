#!/usr/bin/env python3
# Source of properties.jsonl: edit here, then run this script.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)

WS=["src/kokkos/ekat_workspace.hpp","src/kokkos/ekat_workspace_impl.hpp"]
p("C01","Blocks live in a team workspace never overlap and keep their contents",
 "At every point of any legal history of takes and releases (single, many, contiguous, macro-block, take-and-reset, reset of one workspace or of the manager), the memory of the blocks that are live in a workspace is pairwise disjoint, lies inside the manager's (own or user supplied) buffer, is as large as the configured block size (n blocks for a macro-block), and keeps what the user wrote until it is released. Releasing in any order makes exactly the released blocks available again: as long as fewer blocks are live than configured a take succeeds, and after a reset all blocks are available. This holds for debug and release builds, for element types narrower and wider than the bookkeeping, for views of another value type than the manager's, and for every interleaving of the threads of a team, all of which get the same blocks; a thread may go on to its next operation while others still use the blocks of the last.",
 ["histories","configurations"],"every legal sequence of workspace operations, every block count, block size, value type and build mode",
 "workspace_mgr.cpp runs a few fixed take/release patterns, mostly LIFO, in debug mode only; aliasing appears only after particular release orders.",
 WS,[("free list threaded through the blocks","ekat_workspace_impl.hpp take*/release*/init_slot_metadata")],
 ["data()/extent() of the views returned by take*","contents read back"],
 [("next free slot","head of the free list of a workspace","m_next_slot"),("slot metadata","index and next of every slot, in front of its data","init_slot_metadata")])
p("C02","Workspace bookkeeping reports exactly what was taken, and catches misuse",
 "In debug builds the bookkeeping agrees with the history: the name of a live block is the one it was taken with, the usage report gives for every workspace the blocks currently in use, the largest number ever in use since set up (or the last manager-wide reset), and per name how often it was taken and released. Taking more blocks than exist, releasing a block that is not live, and requesting contiguous blocks where the free blocks are not contiguous end in a diagnosed failure instead of handing out memory. The bytes-needed query equals the memory a manager built with the same arguments uses.",
 ["histories"],"every sequence of operations, legal or not, in debug builds",
 "The tests look at counters after a few fixed sequences and never provoke misuse.",
 WS,[("debug metadata","ekat_workspace_impl.hpp change_num_used/change_indv_meta/get_name_idx/report")],
 ["get_name","report() output","abort with kernel assertion message","get_total_bytes_needed"])
p("C03","Two teams that run at the same time never hold the same workspace",
 "Whatever the interleaving of teams, number of threads, team size, league size and over-provisioning factor, the workspace index given to a team is within the number of workspaces, is the same for all threads of the team, and is not given to another team until the first one has released it; every team that asks obtains one eventually while others release theirs, and released workspaces are usable again.",
 ["schedules","configurations"],"every interleaving of acquire and release steps of the teams; every league/team size",
 "The tests run whatever interleaving the machine happens to produce, and the lock used on GPUs is not compiled at all in this configuration.",
 ["src/kokkos/ekat_team_policy_utils.hpp","src/kokkos/ekat_workspace_impl.hpp"],
 [("compare-and-swap lock per slot","ekat_team_policy_utils.hpp get_workspace_idx/release_workspace_idx"),("thread-number mapping","TeamUtils<_,OpenMP>::get_workspace_idx")],
 ["value returned by get_workspace_idx per team","get_num_ws_slots"])
p("C04","Team policies and concurrency figures follow the documented sizing rules",
 "A team policy built for ni teams has league size ni; its team size is 1 on host (up to 7 threads when the host mimics a GPU), the forced size when one is forced, and on GPUs the number of threads requested rounded up to a multiple of 32 and capped at 128 (for scans, computed from the largest power of two not above the request). The number of concurrent teams is the number of threads (halved on GPU for double precision) divided by the team size, never more than the league size and at least one; the number of workspaces is that number times the over-provisioning factor, capped by the league size (a factor below one is an error). In builds with checks, asking for these numbers before a policy was given is an error.",
 ["inputs","configurations"],"every league size, team size, thread count, over-provisioning factor",
 "Tests use four sizes on host; GPU rules are not compiled.",
 ["src/kokkos/ekat_team_policy_utils.hpp"],[("TeamPolicyFactory, TeamUtils constructors","ekat_team_policy_utils.hpp")],["league_size()","team_size()","get_num_concurrent_teams()","get_num_ws_slots()"])
p("C05","A parameter list returns exactly what was last stored, with its type",
 "After any history of set, get-with-default, sublist creation, removal-free copy, assignment and import on a tree of parameter lists, each entry holds the last value stored under that name in that list, with the type it was stored with; names not stored are reported absent; asking for a missing name or for a different type is an error that leaves the list unchanged, and changing one list or copy never changes another, sublists included. Import adds all entries of the source, overwriting those of the same name, and merges sublists of the same name recursively; assignment replaces the whole content. Printing shows every list and entry once, with the values of those of common types.",
 ["histories"],"every history of operations on a tree of lists",
 "parameter_list.cpp runs one fixed scenario.",
 ["src/core/ekat_parameter_list.hpp","src/core/ekat_parameter_list.cpp"],[("map of any per list, recursive sublists","ekat_parameter_list.hpp/.cpp")],["get","isParameter","isSublist","begin/end of names","print"])
p("C06","YAML input yields the parameters written in the file, with the type they denote",
 "For every YAML document, each map becomes a list of parameters with the same nesting and names, each scalar gets the type its text denotes (the boolean spellings, an integer that fits int, a real number, otherwise text) or the type of its explicit tag, and each sequence gets the narrowest type that fits all its entries, in order; quoted text is text, in sequences too. Text that is not a valid value of its declared type, unknown tags, nested sequences, documents that are not a map and unreadable files are rejected with an error. Entries without a value are skipped; nothing else is lost, reordered, truncated or retyped, and nothing is left from what the destination list held before.",
 ["inputs"],"every YAML document built from maps, sequences and scalars",
 "yaml_parser.cpp parses one file and one string.",
 ["src/parser/ekat_yaml.cpp","src/parser/ekat_yaml.hpp","src/core/ekat_string_utils.cpp"],[("type inference per node","ekat_yaml.cpp is_type/str2type/parse_node")],["ParameterList produced by parse_yaml_string/parse_yaml_file"])
p("C07","Writing parameters as YAML and reading them back gives the same parameters",
 "For every parameter list of supported types (booleans, integers, reals, text, arrays of them, nested lists), writing it and parsing the text gives a list with the same names, nesting and values of the same type; finite reals are recovered to the 14 significant digits written, at any magnitude (an empty array comes back as the empty sequence), and text that looks like a number or boolean stays text. Unsupported types are rejected, not dropped, and a file that cannot be completely written is reported.",
 ["inputs"],"every parameter list",
 "One list of benign values is written and compared.",
 ["src/parser/ekat_yaml.cpp"],[("write_param specialisations","ekat_yaml.cpp write_parameter_list")],["write_yaml_file/write_parameter_list output, parsed again"])
p("C08","A factory creates the product registered under the key, and only that",
 "After any history of registrations, a request for a registered key calls exactly the creator registered for it with the given arguments and returns its product; registering a key again is reported as not done and keeps the first creator, unless replacing was asked for, in which case the newest creator is used; unknown keys are an error naming the key and listing what is registered, and create nothing. Queries of the registered products reflect the history, keys compare as the key type says, and distinct factory types do not share registrations.",
 ["histories"],"every history of register/create/query over several keys and factories",
 "factory.cpp registers two products once.",
 ["src/core/ekat_factory.hpp"],[("singleton registry","ekat_factory.hpp")],["create","register_product","register_size","has_product"])
p("C09","Nested-list strings are accepted exactly when well formed and parsed as written",
 "A string is accepted as nested list exactly when it is a bracketed, comma separated list whose entries are non-empty words or again such lists; for accepted strings the parse yields the entries and sublists in order, with the same nesting; every other string is rejected with an error, and parsing never crashes or hangs.",
 ["inputs"],"every string over letters, commas and brackets",
 "A handful of strings are tried.",
 ["src/core/ekat_string_utils.cpp","src/core/ekat_string_utils.hpp"],[("valid_nested_list_format, parse_nested_list","ekat_string_utils.cpp")],["parse_nested_list result or exception"])
p("C10","String helpers split, join, trim, search and convert as documented for any text",
 "For every text: splitting at a delimiter returns the pieces in order, and joining them with it gives back the text; trimming removes exactly the leading and trailing given characters; case conversion changes letters only; removing characters, prefix tests, joining of computed or selected entries and tokenisation (with separators and words that are not cut) agree with their definition; numbers are padded to the width asked for. An empty delimiter is an error.",
 ["inputs"],"every string and delimiter",
 "A few strings are tried per helper; edge cases (empty, all-delimiter, leading/trailing, longer delimiters) are not.",
 ["src/core/ekat_string_utils.cpp","src/core/ekat_string_utils.hpp"],[("split/join/trim/gather_tokens/...","ekat_string_utils.cpp")],["return values"])
p("C11","Case-insensitive strings compare, order and hash into maps ignoring case only",
 "Case-insensitive strings are equal exactly when they differ in letter case only, and their order is a strict weak ordering consistent with that equality in every mix with plain strings; so a map keyed by them keeps one entry per case-folded key and finds it with any spelling, in any history of insertions and lookups.",
 ["inputs","histories"],"every pair/triple of strings; every map history",
 "A couple of pairs are compared.",
 ["src/core/ekat_string_utils.hpp","src/core/ekat_string_utils.cpp"],[("CaseInsensitiveString operators","ekat_string_utils.hpp")],["==, !=, <, <=, map lookups"])
p("C12","String similarity scores equal their definition, for any pair of words",
 "The Jaro score, the Jaro-Winkler score and the token-set (Jaccard) score equal their published definition for every pair of words: in particular they lie in [0,1], are 1 for equal words, 0 when nothing matches, do not depend on argument order, and the token score is the number of common distinct tokens over the number of distinct tokens.",
 ["inputs"],"every pair of strings over a small alphabet, exhaustively to a bounded length",
 "A few pairs are checked against constants.",
 ["src/core/ekat_string_utils.cpp"],[("jaro_similarity/jaro_winkler_similarity/jaccard_similarity","ekat_string_utils.cpp")],["returned value"])
p("C13","Rational constants are exact, reduced and follow the laws of the rationals",
 "For all numerators and non-zero denominators within range, of either sign, a rational constant has the value n/d, stored in lowest terms with positive denominator; sum, difference, product, quotient, power and comparison give the exact rational result, and printed forms denote the value. A zero denominator, division by zero and 0 to the power 0 are errors.",
 ["inputs"],"every pair of rationals and exponents in the representable range",
 "units.cpp checks a dozen values, none with a negative denominator.",
 ["src/core/ekat_rational_constant.hpp"],[("constructor reduction, operators","ekat_rational_constant.hpp")],["numerator/denominator, comparison, to_string"])
p("C14","Unit scalings and units form an exact algebra with faithful names",
 "Two scaling factors or two units compare equal exactly when they denote the same power-product of base and SI dimensions; multiplication adds exponents, division subtracts, powers and roots multiply, each exactly for rational exponents and independently of the order of evaluation. The printed name denotes the value it is attached to, names of products and powers are built from the operands' names (a decimal prefix times a symbol is the prefixed symbol), and invalid or none units behave as documented.",
 ["inputs"],"every expression tree over the provided units, scalings and rational exponents",
 "units.cpp compares about ten fixed expressions.",
 ["src/core/ekat_scaling_factor.hpp","src/core/ekat_units.hpp"],[("exponent vectors + scaling","ekat_units.hpp, ekat_scaling_factor.hpp")],["operator==","get_si_string/get_string/to_string"])
p("C15","Communicator operations deliver every rank the same values the standard defines",
 "For every number of ranks, contribution, type, count and root, reductions, prefix sums, broadcasts and gathers deliver exactly the combination of the ranks' contributions (the gathers in rank order), in place or not; splitting puts exactly the ranks with the same color together, in the parent's order, recursively; nobody leaves a barrier before everybody has arrived. Rank, size and root test are those of the communicator wrapped, also after wrapping another one (by default, the process alone); wrapping a null communicator is an error that changes nothing.",
 ["inputs","configurations","schedules"],"all rank counts, colors, types, operations and roots",
 "comm.cpp runs fixed contributions on few ranks.",
 ["src/core/ekat_comm.hpp","src/core/ekat_comm.cpp"],[("wrappers over MPI","ekat_comm.hpp/.cpp")],["results of collectives per rank"])
p("C16","A build without MPI behaves as a run on one rank",
 "For every sequence of communicator operations, the serial communicator gives exactly what the MPI communicator gives on one rank: size one, rank zero, root of everything, reductions and gathers copy the input to the output, in-place operations leave the data as is, split returns an equivalent communicator.",
 ["histories","configurations"],"every sequence of operations on one rank, in both builds",
 "The serial implementation is not compiled by the test build at all.",
 ["src/core/ekat_comm_serial.cpp","src/core/ekat_comm.hpp"],[("serial implementation","ekat_comm_serial.cpp")],["results of operations"])
p("C17","A log message reaches a sink exactly when logger and sink levels admit it",
 "In any history of level and format changes, sink sharing, loggers going away and messages, a message is delivered, once, in order and in the format last set on the sink, to exactly those of the logger's console and file sinks (its own or those it shares) whose level and the logger's level are both at or below the message's severity; a level set to off delivers nothing, and destinations of loggers that share nothing with it are not touched. Lines logged by several threads at once arrive whole, each thread's in its order.",
 ["histories"],"every history of configuration calls and messages on several loggers",
 "The logging tests print a few messages and check one file's size or existence.",
 ["src/logging/ekat_logger.hpp"],[("spdlog sinks held by the logger","ekat_logger.hpp")],["console text","file contents"])
p("C18","Log files are created per policy: right name, right ranks, right append/rotate",
 "Under every policy combination, exactly the ranks the MPI policy selects produce output (unless levels are raised on the others, which write to the console only) and a file, named after the log with the suffix given (with the rank count and rank in between for the all-ranks policy); the basic policy starts a new file, the big-files policy appends to what is there and moves on to a next file when the size limit is reached, keeping as many older files as configured, and without a file policy no file appears. The name a logger reports is the file it writes, also when the file is shared.",
 ["configurations","histories"],"all policy combinations, rank counts, histories of opening the same name",
 "The tests try each policy once with fixed ranks.",
 ["src/logging/ekat_log_file_policy.hpp","src/logging/ekat_log_mpi_policy.hpp","src/logging/ekat_logger.hpp"],[("policy classes","ekat_log_*_policy.hpp")],["files on disk per rank"])
p("C19","Checks throw exactly when their condition fails, with the message given",
 "A requirement, error or assertion check evaluates its condition once, does nothing when it holds, and otherwise throws the requested exception type whose text carries the failing expression, the place and the full message; assertions are active in debug builds only. If a check fails while another exception is already propagating (in a destructor), the program is not terminated and the original exception is the one the user sees.",
 ["programs","histories","configurations"],"every nesting of failing and passing checks, including during stack unwinding, in both build modes",
 "Tests cover single failing checks.",
 ["src/core/ekat_assert.hpp"],[("throw_exception with uncaught_exceptions guard","ekat_assert.hpp")],["exception type and text","side effects of the condition"])
p("C20","Floating point traps are exactly those enabled, after any enable/disable history",
 "After any sequence of enabling, disabling, querying and disabling-all of floating point exception traps, the set of active traps is the one the sequence denotes, the query returns it and its text lists exactly the active ones; an operation raises a signal exactly when its trap is active.",
 ["histories"],"every sequence over all subsets of traps",
 "debug_tools_tests.cpp toggles a single trap.",
 ["src/core/ekat_fpe.cpp","src/core/ekat_fpe.hpp"],[("feenableexcept wrappers","ekat_fpe.cpp")],["get_enabled_fpes","signal raised or not"])
p("C21","Test arguments after --args become the flags and parameters written",
 "For every command line, what follows --args is split into flags, single-valued and multi-valued parameters exactly as written (name, '=' or separate values, comma lists, repeated names), and what precedes reaches the test framework unchanged; malformed arguments are errors. The exit status of a test session, and of the launcher wrapper around it, is failure exactly when something failed; the launcher runs the command given with the thread placement asked for, and on the resources of its rank when it manages them.",
 ["inputs"],"every argument list over a small vocabulary",
 "One command line is tested.",
 ["src/core/ekat_test_utils.cpp","src/testing-support/ekat_catch_main.cpp","bin/test-launcher"],[("parse_test_args","ekat_test_utils.cpp")],["TestSession contents","exit status"])
p("C22","A Kokkos session starts Kokkos at most once and ends it exactly when asked",
 "In any history of session initialise and finalise calls (with or without arguments, repeated, through the default test session, or after an application initialised Kokkos itself), Kokkos is initialised after the first initialise, with the options given to Kokkos in its arguments if there are any and without warnings otherwise, and is not initialised again; it is finalised by the first finalise after that, and calls without a session to end do nothing. Floating point traps in force before are in force afterwards, plus the usual ones where the default test session was configured so. The configuration is printed exactly when asked for, and arguments are left alone.",
 ["histories"],"every history of calls",
 "Tests initialise once in main.",
 ["src/kokkos/ekat_kokkos_session.cpp","src/testing-support/ekat_test_session.cpp"],[("Kokkos::is_initialized guards","ekat_kokkos_session.cpp")],["Kokkos::is_initialized/is_finalized","number of threads","get_enabled_fpes","output"])
p("C23","Zipped iteration, map-key iteration and container helpers visit what they should",
 "Zipping any number of containers visits the i-th elements of all together, for every i in order, by reference (writes reach the containers, also those whose iterators return proxies or values), and containers of different lengths are rejected; iterating the keys of any map visits exactly its keys in map order, gives them as constants, and iterators stay valid as those of the map do; the searches (position, presence, containment, erasing) agree with their definition on any content, and sets of weak pointers order by owner, also after the owner has gone.",
 ["inputs","histories"],"every container content and size, every history of insertions and removals",
 "zip.cpp zips one pair of vectors.",
 ["src/core/ekat_zip.hpp","src/core/ekat_std_map_key_iterator.hpp","src/core/ekat_std_utils.hpp"],[("iterator adaptors","ekat_zip.hpp, ekat_std_map_key_iterator.hpp")],["elements visited"])
p("C24","Compile-time type lists, maps and type traits give the right types and indices",
 "For every list of types, position of a type, membership, uniqueness, concatenation, map lookup by type and iteration over the list (stopped early where the body returns true, as a bool) agree with the list as a sequence, duplicates and absent types included; run-time values stored per type are independent and found under their type; maps that are ill formed or asked for an absent key do not compile. For every type built from constants, volatiles, pointers, arrays and references, the traits (all pointers or constants removed, value type, ranks, scalar and pack traits, existence of == and <<) describe that construction.",
 ["programs"],"every type list up to a bounded length, every type up to a bounded number of constructors",
 "meta_utils.cpp checks a few lists.",
 ["src/core/ekat_meta_utils.hpp","src/core/ekat_type_traits.hpp","src/core/ekat_std_type_traits.hpp","src/core/ekat_scalar_traits.hpp"],[("TypeList/TypeMap templates","ekat_meta_utils.hpp"),("traits","ekat_type_traits.hpp, ekat_scalar_traits.hpp")],["constants and types evaluated in a program"])
p("C25","Pack arithmetic and math act on every lane as on scalars, for every pack size",
 "For every pack length, value type and operand mix (pack-pack, pack-scalar, scalar-pack, assignment forms, math functions, min/max, sum/other reductions, shifts, ranges), each lane of the result equals the scalar operation on that lane's operands, in the order written; no lane depends on another except in shifts and reductions, which equal their sequential definition, and masked forms involve only the selected lanes. Update with coefficient zero for the old value overwrites it whatever it was.",
 ["inputs","configurations"],"all lane contents, pack sizes 1..16, int/float/double",
 "pack.cpp uses one pack size and smooth values per type.",
 ["src/pack/ekat_pack.hpp","src/pack/ekat_pack_math.hpp"],[("lane loops generated by macros","ekat_pack.hpp")],["lane values"])
p("C26","Masks and masked assignment touch exactly the selected lanes",
 "Mask comparisons and logic equal the lane-wise boolean operation, and any/all/none and iteration over set lanes agree with the lanes; a masked set or where-assignment (=, +=, -=, *=, /=), on packs and on scalars, changes exactly the lanes where the mask holds to the given operand's lane, and leaves all others bit-identical.",
 ["inputs","configurations"],"all masks and lane contents, several pack sizes",
 "pack_where.cpp and pack.cpp try a few masks.",
 ["src/pack/ekat_pack.hpp","src/pack/ekat_pack_where.hpp","src/kokkos/ekat_where.hpp"],[("where expressions","ekat_pack_where.hpp, ekat_where.hpp")],["lane values before/after"])
p("C27","Scalar and packed views of the same memory index the same elements",
 "For every extent and pack size, the number of packs covers the elements exactly, scalar index k is lane k mod n of pack k div n, and reinterpreting a view between scalar, packed and smaller/larger packs keeps the memory, the element order and all other dimensions, for padded views (slices of others) as well; the last pack's valid range is right, and gathering through an index pack (also shifted) reads exactly the indexed elements.",
 ["inputs","configurations"],"all extents, pack sizes, ranks and index packs",
 "pack_kokkos tests are not even built here; others use one extent.",
 ["src/pack/ekat_pack_kokkos.hpp","src/pack/ekat_pack_utils.hpp"],[("scalarize/repack/PackInfo/index","ekat_pack_kokkos.hpp, ekat_pack_utils.hpp")],["data pointers, extents, values"])
p("C28","Host-device transfers move every element to its place, and back",
 "Copying host arrays to (packed or scalar) device views, rank 1 to 3, with or without transposition and with individual sizes per array, puts every element at its index and touches no element beyond the sizes given; copying back returns the same data, for every size and pack length. Transposing back and forth is the identity. In debug builds, numbers of arrays, sizes and views that do not agree, or extents that do not, are errors.",
 ["inputs","configurations"],"all sizes, pack sizes, ranks",
 "The tests that exercise transfers are not built in this configuration.",
 ["src/pack/ekat_pack_kokkos.hpp","src/kokkos/ekat_view_utils.hpp"],[("host_to_device/device_to_host/transpose","ekat_pack_kokkos.hpp")],["contents of arrays and views"])
p("C29","Reductions sum exactly the requested range, reproducibly when asked",
 "For every range, pack size and team size, a reduction over a view or function adds each element of the requested range exactly once and nothing else; in the serialised (bit-for-bit) mode the elements are added in increasing order, so that the result is bit-identical for any team size and between packed and scalar data, and every thread of the team gets the result.",
 ["inputs","configurations","schedules"],"all ranges (also inside one pack), pack sizes, team sizes, values",
 "reduction_tests.cpp uses full or few ranges.",
 ["src/algorithm/ekat_reduction_utils.hpp"],[("view_reduction/parallel_reduce, Serialize switch","ekat_reduction_utils.hpp")],["result value, order of visits"])
p("C30","The tridiagonal solvers solve the system they are given, in every format",
 "For every non-singular diagonally dominant tridiagonal system, number of rows, right-hand sides, systems, pack size and team size, each solver (Thomas, cyclic reduction, bit-for-bit) returns in the right-hand side the solution of that system, column by column, independently of other columns and of the padding the views may have; the bit-for-bit solver gives bit-identical answers whatever the team size, packing or number of right-hand sides.",
 ["inputs","configurations","schedules"],"all sizes and formats within a bound, random dominant matrices",
 "The tests use fixed sizes with a tolerance on one norm.",
 ["src/algorithm/ekat_tridiag.hpp"],[("thomas/cr/bfb","ekat_tridiag.hpp")],["solution values"])
p("C31","Linear interpolation finds the right interval and is exact for linear data",
 "For every pair of strictly increasing source and target grids, column count, pack size and team size, each target value is the straight line through the two source points that bracket its abscissa (the end intervals extended beyond the grid); targets on a source point reproduce its value, columns do not influence each other, and setup may be repeated.",
 ["inputs","configurations"],"all grids within a bound, pack sizes, targets inside and outside",
 "lin_interp tests are not built in this configuration; they use random grids and a tolerance.",
 ["src/algorithm/ekat_lin_interp.hpp","src/algorithm/ekat_lin_interp_impl.hpp"],[("setup index map, lin_interp","ekat_lin_interp_impl.hpp")],["target values"])
p("C32","A subview addresses exactly the elements its indices select",
 "For every rank, layout, extent and fixed index or range, the subview's element at the remaining indices is the parent's element at the full index: same memory, remaining extents in order; out-of-range requests are errors in debug builds.",
 ["inputs"],"all ranks, positions and extents",
 "subview_utils.cpp checks one size per rank.",
 ["src/kokkos/ekat_subview_utils.hpp"],[("subview/subview_1/multi_subview","ekat_subview_utils.hpp")],["element addresses, extents"])
p("C33","A broadcast view repeats the source along the added dimensions, and only that",
 "For every source rank, target rank and placement of the source dimensions, the broadcast view has the target extents and its element at any index is the source's element at the indices of the source dimensions; ill-formed placements or extents are rejected.",
 ["inputs"],"all ranks and placements within a bound",
 "view_broadcast tests are not built in this configuration.",
 ["src/kokkos/ekat_view_broadcast.hpp"],[("ViewBroadcast","ekat_view_broadcast.hpp")],["elements, extents"])
p("C34","Expressions over views evaluate elementwise to the value of the formula",
 "For every expression built from views, scalars, arithmetic, comparison and logical operators, conditionals and math functions, evaluating it into a view stores at each index the value of the same formula over the scalars at that index, with usual operator meaning, operand order and types; a result whose extents differ from the expression's is an error, and inputs stay unchanged. Of a conditional, only the chosen side is computed (so it can guard a division).",
 ["programs","inputs"],"every expression tree to a bounded depth; ranks 0..6",
 "expressions.cpp is not built in this configuration; it checks a few formulas.",
 ["src/expression/"],[("expression templates","ekat_expression_*.hpp")],["view contents after evaluation"])
p("C35","Device-safe math, search and string functions equal their standard meaning",
 "min, max, max_element, upper_bound, the NaN and finiteness tests and the string length, comparison and copy functions usable in kernels give, for all inputs (ties, signed zeros, infinities; NaN where the standard function has a meaning for it; arrays of any length), what the standard library gives on the host, in the variant compiled for GPUs as well; set_min_max orders its limits and divides by the vector size; transpose maps C order to Fortran order and back, for 2 and 3 dimensions; invalid<T> is NaN or the largest value.",
 ["inputs","configurations"],"all small arrays, numbers, strings; both compiled variants",
 "Few values; GPU variants are not compiled.",
 ["src/kokkos/ekat_math_utils.hpp","src/kokkos/ekat_upper_bound.hpp","src/kokkos/ekat_kokkos_str_utils.hpp"],[("free functions","ekat_math_utils.hpp, ekat_upper_bound.hpp")],["return values"])
ids=[d['id'] for d in P]; assert len(set(ids))==len(ids)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
