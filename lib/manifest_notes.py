NOTES = {
 "C07": ("differential monitoring of generated compilers: tokens seen by the typesystem against a reference lexer, sanitized build", "random patterns, keywords, comments and sources"),
 "C09": ("differential monitoring of generated compilers against an Earley recogniser, sanitized build", "random and structured grammars, sentences and near sentences"),
 "C12": ("online recording of the AST handed to the typesystem, compared with the AST of the derivation, sanitized build", "random grammars with calls and scopes"),
 "C13": ("monitoring of the errors of generated compilers against an Earley recogniser and an LR reference, sanitized build", "random grammars, sentences with errors"),
 "C08": ("differential monitoring of generated compilers: tokens and acceptance of indented sources against a reference lexer and an Earley recogniser, sanitized build", "random line structures, tabs, comments, multi line tokens, damaged blocks"),
 "C10": ("monitoring of exit status, messages and output of the generator against the conflicts of an LALR(1) automaton built by the reference, sanitized build", "ambiguous, deep, LALR and SLR families, spoiled and random grammars"),
 "C11": ("monitoring of the AST of operator expressions against a precedence parser, and of the rejection of undecided declarations, sanitized build", "random operator declarations, expressions, conditionals"),
 "C18": ("round trip monitoring: text printed for generated values is loaded by Lua and compared with the value, sanitized build", "random nested tables, strings of all bytes, numbers of all sizes, cycles, depth"),
 "C19": ("comparison of the printed bit patterns with an independent rounding of the number, sanitized build", "halfway cases, denormals, limits and random bit patterns"),
 "C21": ("shadow table of names kept by the workload, compared with lookups and read backs, sanitized build", "long, binary and near equal names, many names"),
 "C16": ("round trip monitoring: grammars written in random layouts, the description printed by the generator is loaded in Lua and compared with the grammar and the recorded lines and attributes, sanitized build", "random grammars using all of the grammar language, four layouts"),
 "C23": ("monitoring of exit status, messages, streams and files of the generator under random options and injected file faults against a model of the options, sanitized build", "random grammars, templates, renderings and orders of options; missing files, directories, full devices, closed stdout, file size limits"),
 "C15": ("monitoring of generated files: repeated and re-laid-out grammars give the same bytes, tables are loaded and compared with the grammar and with the tables printed by the loaded compiler, large grammars are run, sanitized build", "random grammars with hostile names, patterns and arguments in six layouts; grammars near the limits"),
 "C17": ("monitoring of streams, files, messages and globals over scripts of runs against a model of the runs, with injected file faults, sanitized build", "random sequences of runs of several compilers, nested runs, failing runs, templates, printed values, output targets, file faults"),
 "C14": ("monitoring of exit status, messages, lines and files of the generator against a reference reader of the grammar language, on mutated and planted texts and around all limits, sanitized build", "grammar texts near valid ones (token, declaration and byte mutations, planted mistakes at random places), random bytes; limits of the tables"),
 "C22": ("sanitizers on the parser and the Lua calls of a run, monitoring of outcomes against a reference parser, of a fixed sentence compiled between all others, and of the time by size", "hostile sources of random grammars (bytes, broken UTF-8, nulls, unclosed comments, garbage), Lua allocation limits and collector modes, sources of several 100 kB"),
 "C20": ("sanitizers and link-time wrappers that check every call of the Lua C API, monitoring of the kind of errors, of database dumps before and after failing calls and of canary objects", "random calls of all functions with hostile arguments, in coroutines, metamethods, finalizers, callbacks and under memory limits; altered definitions of compilers"),
 "C24": ("replay monitoring: the debug output is replayed against the grammar, the tokens of a reference lexer and the calls recorded, sanitized build", "random grammars of all shapes, valid, altered and random sources"),
 "C25": ("monitoring of the list returned against the stack of calls kept by the workload, sanitized build", "random stacks of functions, methods, closures, tail calls and coroutines in generated files"),
 "C26": ("ThreadSanitizer and comparison of the outputs of states running in parallel threads with those of the same states running alone", "2 to 8 states with random work on compilers and type databases, pairs of states with the same work"),
 "C27": ("monitoring of the functions called, the outcome and the message of runs with a function raising an error against a model, and of the run that follows, sanitized build", "random error values and messages of 21 kinds at random nodes and depths, caught or not, nested runs, runs in coroutines and with debug output"),
}
