#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code because JSON lines are hard to review)."""
import json, os
P = "pyclibrary/c_parser.py"; L = "pyclibrary/c_library.py"; B = "pyclibrary/backends/ctypes.py"
U = "pyclibrary/utils.py"; I = "pyclibrary/init.py"
out = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

prop("C01", "Declarations are recorded with the type C gives them",
 "For every variable, typedef, function prototype or function definition built from pointers, arrays, parameter lists, parentheses, const/volatile qualifiers and calling conventions, with one or several declarators, the parser records exactly the declared names, each with its base type, its modifiers in the order C derives them, its qualifiers and its parameters' names and types. Storage classes and function bodies leave no trace in what is recorded.",
 ["inputs", "programs"], "All declarations of arbitrarily nested declarators over any base type (fundamental, typedef, struct, union, enum), named or abstract parameters.",
 "The tests hold a few dozen hand-written declarations; nesting of declarators is unbounded and each nesting exercises a different path of the grammar.",
 [P], [("declarator grammar", P + " CParser.build_parser"), ("declarator to type", P + " CParser.process_declarator / process_type"), ("recording", P + " process_variable / process_typedef / process_function")],
 ["CParser(...).defs['variables' | 'types' | 'functions']"])
prop("C02", "Resolving a type follows typedefs down to the C type",
 "Resolving any type replaces every typedef name by its definition, transitively, giving the base type, modifiers and qualifiers C gives the declaration (dimensions of arrays of typedef'd arrays included), with 'signed' dropped; resolving an already resolved type changes nothing. A type that depends on an unknown name or on itself raises DefinitionError instead of looping or answering, and resolving never changes the recorded definitions.",
 ["inputs", "programs"], "All acyclic typedef graphs and all graphs with a cycle or a missing name, whatever the order in which they were defined.",
 "Tests resolve fixed chains of at most a few links; the combination of modifiers across links, cycles of any length and diamonds are not sampled.",
 [P], [("resolution", P + " Type.eval"), ("cycle detection", P + " Type.eval used list")], ["CParser.eval_type", "Type.eval"])
prop("C03", "Conditional compilation keeps exactly the lines C keeps",
 "For every nesting of #if, #ifdef, #ifndef, #elif, #else and #endif whose conditions combine defined, comparisons of integer arithmetic over constants and macros, !, && and ||, exactly the declarations, #define and #undef lines that a C preprocessor keeps take effect, with unknown names worth 0. Whatever is skipped leaves nothing behind, in every category of definitions.",
 ["inputs", "programs"], "All nestings, conditions and placements of definitions within the branches, including macros predefined through the parser arguments.",
 "The test header has about ten branches; the truth table of nested branches grows exponentially.",
 [P], [("branch stack", P + " CParser.preprocess if_true / if_hit"), ("condition", P + " CParser.eval_preprocessor_expr")], ["CParser(...).defs", "CParser(...).files"])
prop("C04", "Macro expansion gives the tokens C gives",
 "For every set of object-like and function-like macros (arguments containing nested calls, parenthesised commas, strings or braces; empty argument lists and bodies) and every later line of code using them, the preprocessed text has the tokens a C preprocessor produces. Names inside string or character literals and parts of longer names are never replaced, and the name of a function-like macro without arguments stays as it is.",
 ["inputs", "programs"], "All macro sets in which a macro only uses macros defined before it, redefinitions after #undef, and all single-line uses; the # and ## operators and variadic macros are excluded as documented limits.",
 "Tests check a dozen calls; nesting of calls and positions of quotes and parentheses are unbounded.",
 [P], [("definition", P + " process_macro_defn / compile_fn_macro"), ("expansion", P + " expand_macros / expand_fn_macro / split_macro_args")], ["CParser(...).files", "CParser(...).defs['macros' | 'fnmacros']"])
prop("C05", "Constants have the value C gives them",
 "For every constant expression over decimal, hexadecimal and octal integers with suffixes, floating-point numbers, string literals, value-preserving casts, parentheses and the operators + - * / % << >> & | ^ ~, referring to constants defined earlier, the value recorded for a macro, a variable initialiser, an array initialiser or an array dimension equals the value C computes. A macro or variable whose value cannot be computed is recorded with no value rather than a wrong one.",
 ["inputs", "programs"], "All such expressions whose evaluation fits the C type (no wrap-around), of any nesting.",
 "Tests hold a few literals of each kind; digits, suffixes, precedence and casts combine without bound.",
 [P], [("evaluation", P + " CParser.eval_expr / eval"), ("number syntax", P + " hexint / decint / floating")], ["CParser(...).defs['values' | 'variables' | 'macros']", "lib.NAME"])
prop("C06", "Enumerators have the values C gives them",
 "For every enumeration, named or anonymous, with any mix of implicit values, explicit constant expressions and references to previous enumerators, each enumerator is recorded once, with the value C gives it, both in its enumeration and as a constant. Anonymous enumerations stay distinct, typedefs and uses of an enumeration refer to it by name, and mentioning an enumeration before or after its definition does not change it.",
 ["inputs", "programs"], "All enumerations and all interleavings of definitions and mentions.",
 "Tests check a handful of enumerations and one mention order.",
 [P], [("enumeration", P + " CParser.process_enum")], ["CParser(...).defs['enums' | 'values' | 'types']", "lib('enums', name)"])
prop("C07", "Structures and unions are recorded member by member as declared",
 "For every structure or union definition, the recorded members are the declared ones, in order, each with its name, type, and bit width if any, including several declarators per line, arrays, function pointers, unnamed bit-fields, and nested or anonymous inner structures, unions and enumerations. Forward declarations and later mentions neither replace nor empty a definition, and every unnamed structure or union is a separate entry.",
 ["inputs", "programs"], "All structure and union definitions of any nesting, all orders of forward declarations, definitions and uses.",
 "The tests declare about ten structures; nesting, orders of mention and combinations of member kinds are unbounded.",
 [P], [("structure", P + " CParser.process_struct"), ("member grammar", P + " build_parser struct_member")], ["CParser(...).defs['structs' | 'unions' | 'types']"])
prop("C08", "Each structure gets the packing in force where it is defined",
 "For every sequence of #pragma pack directives (a value, none, push or pop with or without value or identifier) mixed with other text, comments, skipped branches and other directives, each structure or union records the packing in force at the place of its definition, none meaning the default. Packing never leaks from one file to the next, and unrelated, skipped or unbalanced pragmas change nothing.",
 ["histories", "programs"], "All push/pop histories in which a push happens while the packing is the one selected by the enclosing push (the pinned test suite fixes another reading of the rest), at every line position.",
 "Tests check one sequence of eight pragmas and look at the internal list, never at structures between pragmas.",
 [P], [("pragma stack", P + " CParser.preprocess pragma branch"), ("packing by line", P + " CParser.packing_at")], ["CParser(...).defs['structs' | 'unions'][name].pack"])
prop("C09", "Structure and union classes have the memory layout of the C compiler",
 "For every structure or union over arithmetic types, pointers, arrays, enumerations and nested or anonymous aggregates, packed or not, the class built for it has the size and the member offsets that the C compiler gives the same definition. Members named as declared read and write the bytes of that member, bit-fields included, also when reached through typedefs, pointers or self-referential structures.",
 ["inputs", "programs"], "All aggregates of any nesting and packing; bit-fields within the default packing.",
 "Tests check a few members of three structures, no offset, no packing, no bit-field.",
 [B, P], [("class construction", B + " CTypesCLibrary._get_struct"), ("type construction", B + " CTypesCLibrary._get_type")], ["lib('structs' | 'unions' | 'types', name)", "ctypes.sizeof and field offsets", "bytes of instances"])
prop("C10", "Layout of the source text does not change what is recorded",
 "Inserting or removing spaces, tabs, line breaks, comments of both kinds or backslash-newline splices anywhere C allows between the tokens of a header (outside of macro calls for line breaks), or ending lines with CR LF, changes none of the recorded definitions. Text looking like a comment inside a string literal is kept, and a comment separates tokens just as a space does.",
 ["inputs", "programs"], "All headers and all positions and contents of the inserted white space and comments, except for line breaks inside the call of a function-like macro (calls are expanded line by line).",
 "The tests compare one commented file to one clean file.",
 [P], [("comment removal", P + " CParser.remove_comments"), ("splicing", P + " CParser.preprocess")], ["CParser(...).defs"])
prop("C11", "Parsing several files is parsing their concatenation in order",
 "Parsing a list of files records the same definitions as parsing their concatenation, and as importing earlier files from another parser before parsing the later ones, later definitions replacing earlier ones. Every definition is attributed to the file that made it, searching by name or pattern reports exactly those files and categories, and imported parsers are left unchanged.",
 ["programs", "configurations"], "All ways of splitting a header into files and of distributing the files between a list and imported parsers.",
 "Tests import one parser once and search two names.",
 [P], [("file loop", P + " CParser.process_all"), ("import", P + " CParser.import_dict"), ("attribution", P + " CParser.add_def / rem_def"), ("search", P + " CParser.find")], ["CParser(...).defs", "CParser(...).file_defs", "CParser.find"])
prop("C12", "Loading from the cache gives what parsing gives",
 "A parser that loads its definitions from a valid cache file has, in every category and per file, the definitions it has when parsing the headers, and produces the same library objects. This includes qualifiers, packings, values and imported or predefined definitions, and holds when the header files are no longer available.",
 ["inputs", "histories"], "All headers, arguments and sequences of write, reload and reload without headers.",
 "One test writes and reloads one cache and compares one category list.",
 [P], [("cache", P + " CParser.write_cache / load_cache / import_dict"), ("pickling", P + " Type.__getnewargs__")], ["CParser(cache=...).defs", "file_defs"],)
prop("C13", "A stale, foreign or damaged cache is never used",
 "A cache file is used only when the list of files, replacements, encoding, imported parsers and predefined definitions are those it was written with, no header is newer, and its version is the current one; otherwise the headers are parsed again and the cache is rewritten. A cache that is truncated, unreadable or of another kind never makes parsing fail or changes its result, and disabling the validity checks loads the cache whatever the headers became.",
 ["histories", "fault_sequences", "configurations"], "All sequences of edits of headers, time stamps and arguments between runs; truncation at any byte, files of another kind.",
 "Tests change one option at a time, a few times, and never damage the file.",
 [P], [("validity checks", P + " CParser.load_cache"), ("options", P + " CParser.__init__ init_opts")], ["CParser(cache=...).defs"])
prop("C14", "What cannot be parsed does not disturb its neighbours",
 "Inserting between the declarations of a header a construct outside the supported subset (variadic functions, assembler or attribute statements, static assertions, pragmas and other directives, linkage blocks, stray text without declarations) changes none of the definitions recorded for the other declarations, and never raises. The report of unparsed text contains what could not be read and none of the declarations that were recorded.",
 ["inputs", "programs"], "All headers and insertion points of the listed constructs.",
 "Tests never parse anything unsupported on purpose.",
 [P], [("scanning", P + " CParser.parse_defs"), ("error containment", P + " process_* exception handlers")], ["CParser(...).defs", "process_all(return_unparsed=True)"])
prop("C15", "Names in a header are never looked up in the host interpreter",
 "Whatever text a header, a macro, an initialiser or a condition contains, parsing it never calls, imports or reads anything of the host Python: no file or process is touched, nothing is printed, and the process is not ended. Names which happen to be Python builtins or modules behave as any other name, with the value their definition gives them or none.",
 ["inputs"], "All expressions, including calls, attribute accesses and subscripts on Python builtins and literals.",
 "Tests only evaluate well-behaved numbers.",
 [P], [("restricted evaluation", P + " CParser.eval"), ("name neutralisation", P + " CParser.eval_preprocessor_expr")], ["audit events of the interpreter during parsing", "CParser(...).defs['values']"])
prop("C16", "Every spelling of an arithmetic type has the size and sign C gives it",
 "For every spelling of an integer, floating-point, boolean, wide character or fixed-width type, in any order of its words and through any typedef, pointer or array, the class built for it has the size of the C type and stores the same range of values. Enumerations have the size of int, pointers the size of a pointer, and arrays the size and nesting of the C array.",
 ["inputs"], "All orders of words, typedef chains and derived types; plain and signed char are both treated as a character.",
 "Tests cover one spelling of most types and no size.",
 [B], [("type table", B + " init_clibrary"), ("derived types", B + " CTypesCLibrary._get_type")], ["lib('types', name)"])
prop("C17", "A call passes its arguments and returns its result unchanged",
 "For every function over integers, floating-point numbers, booleans, characters, enumerations, pointers, strings, arrays, structures and callbacks, a call through the library object passes each argument, positional or by name, to the C parameter of the same position and returns the C result with its exact value; void functions return None. The callee sees exactly the given values, a missing non-pointer argument, an unknown name or an argument of the wrong type raises without calling, and a function missing from the library is reported when accessed.",
 ["inputs", "programs"], "All signatures and argument values representable in the C types, all mixes of positional and named arguments.",
 "Tests call one small library with a few constants.",
 [L, B], [("argument binding", L + " CFunction.__call__"), ("signature", L + " CFunction.__init__"), ("argument types", B + " _init_function")], ["lib.function(...)()", "memory written by the callee"])
prop("C18", "Omitted pointers, NULL and the call result behave as documented",
 "Any subset of pointer arguments to values, structures or pointers may be omitted: each gets a fresh object whose content after the call is what the callee wrote, readable by position, by name, by unpacking or through the list of automatic values, which lists exactly the omitted ones in order. Passing None gives the callee a NULL pointer, objects passed explicitly are the ones the callee writes to and the result returns, and no state leaks between calls.",
 ["inputs", "histories"], "All signatures mixing pointer and value arguments, all subsets omitted, given or null, and all sequences of calls.",
 "Tests omit one or two arguments of fixed functions once.",
 [L, B], [("omitted arguments", L + " CFunction.__call__ missings"), ("result", L + " CallResult"), ("fresh pointer", B + " CTypesCLibrary._get_pointer")], ["CallResult"])
prop("C19", "Names are found in the documented order and with every prefix",
 "Accessing a name on a library gives the object of the first category defining it, in the order values, functions, types, structures, unions, enumerations, trying the name itself and then each prefix; access by category and name gives that same object and only it, and access by category alone gives the header's definitions. A name with no definition raises, for every order of accesses, and repeated accesses return the same object.",
 ["inputs", "histories", "configurations"], "All headers with names shared across categories, all prefix lists, all sequences of accesses.",
 "Tests look up six names with one prefix.",
 [L], [("attribute lookup", L + " CLibrary.__getattr__"), ("category lookup", L + " CLibrary.__call__ / _make_obj_"), ("prefixes", L + " CLibrary._all_names_")], ["lib.name", "lib(kind, name)", "lib[kind]"])
prop("C20", "Using a library never changes the definitions it is built on",
 "Whatever sequence of accesses, class constructions, calls, array constructions and casts is made, successful or failing, the definitions of the parser stay equal to what parsing recorded. The objects obtained (sizes, members, values, call results) do not depend on the order of the accesses, and a structure reached by tag, typedef, pointer or function argument is always the same class.",
 ["histories"], "All sequences of operations on one library object.",
 "Each test performs one access on a fresh or shared library and never compares the definitions afterwards.",
 [L, B], [("object cache", L + " CLibrary._objs_"), ("class cache", B + " CTypesCLibrary._get_struct"), ("array merging", B + " CTypesCLibrary._get_type")], ["CParser.defs before and after", "lib objects"])
prop("C21", "A shared library has one library object while it is alive",
 "Opening a shared library that is already open, whether named by an absolute path, a relative path, a symbolic link, a file name found in the search directories or an already loaded library, returns the existing object; different files give different objects. Once the object is released, opening the library again builds a new one from the headers then given.",
 ["histories", "configurations"], "All sequences of openings under different spellings and releases.",
 "One test opens one library twice by the same name.",
 [L, B], [("registry", L + " CLibraryMeta.__call__ libs"), ("path of a loaded library", B + " get_library_path")], ["identity of CLibrary objects"])
prop("C22", "Locked calls never overlap",
 "When a library is opened with locked calls, at any time at most one thread executes inside its functions, whatever threads call whatever functions, with or without omitted arguments; a callback may call back into the library from the same thread. The lock is released when a call fails, is not held by libraries opened without it, and every call still returns its own result.",
 ["schedules"], "All assignments of calls to threads and all their interleavings that the harness can provoke with blocking calls.",
 "No test uses two threads.",
 [L], [("lock", L + " CFunction.__call__ / CLibrary.__init__")], ["overlap counters kept by the C library"])
prop("C23", "Headers and libraries are searched in the documented order",
 "A header or library name is found in the directories given for the search first, in their order, then in the directories added by the user, latest first, then in the package's own and the system's locations; nonexistent directories are ignored and a name found nowhere raises OSError. Searching never changes the lists given by the caller and only ever returns an existing regular file, and no name, whatever its characters, has any other effect.",
 ["inputs", "histories", "configurations"], "All layouts of files over directories and sequences of additions and searches.",
 "Tests search one name in one directory.",
 [U, P], [("header search", U + " find_header"), ("library search", U + " find_library"), ("registration", U + " add_header_locations / add_library_locations"), ("use by the parser", P + " CParser.find_headers")], ["find_header / find_library results", "CParser([...]).files"])
prop("C24", "The architecture of a library is read from its content",
 "For every ELF file the reported bitness is the one of its header, for every PE file the machine type is the one of its header, and anything else reports none, whatever the name of the file or the links leading to it. Opening a library whose bitness differs from the interpreter's raises OSError before anything is loaded.",
 ["inputs"], "All file contents, names (spaces, non-ASCII, misleading words) and symbolic links.",
 "Tests look at one or two existing files.",
 [U, L], [("ELF", U + " get_arch"), ("PE", U + " get_shared_library_arch"), ("refusal", L + " CLibraryMeta.__call__")], ["LibraryPath.arch / bitness / is_64bit", "CLibrary(...)"])
prop("C25", "Arrays and casts built for a library have the requested shape and content",
 "For every type named by a string or given as a class, every shape of one or more dimensions and every iterable of initial values (one dimension), the array built has that element type and shape, holds the given values in order followed by zeros, and can be passed to C functions, which see that memory. Casting an object to a pointer type gives a pointer of that type to the same memory.",
 ["inputs"], "All element types, shapes and contents; casts between pointer types.",
 "Tests build two arrays and make one cast.",
 [L, B], [("array", B + " CTypesCLibrary._get_array"), ("cast", B + " CTypesCLibrary._cast_to")], ["build_array / cast_to results"])
prop("C26", "Initialisation happens once and registers the extra types and modifiers",
 "Initialising with extra types and modifiers makes those types usable as base types, with the given class, and makes the modifiers transparent after the type they follow, without changing how any other declaration is read. A second initialisation of any kind raises and changes nothing, creating a parser without initialising does it with the defaults, and the caller's arguments are left unchanged. A cache written under another initialisation is not used.",
 ["histories", "configurations"], "All sets of extra types and modifiers, all orders of init, auto_init and parser creation, each in a fresh interpreter.",
 "Tests call each initialiser once by resetting private flags.",
 [I, P, B], [("once", I + " init"), ("grammar", P + " _init_cparser"), ("types", B + " init_clibrary")], ["CParser definitions", "lib('types', name)", "RuntimeError"])
prop("C27", "Type, structure and enumeration objects behave as values",
 "Type descriptions compare equal exactly when base type, modifiers and qualifiers are equal, and remain so through pickling, copying, evaluation of their representation, and conversion to and from the function form. Structure, union and enumeration objects survive the same round trips with their members and packing, and none of these operations changes its operand.",
 ["inputs"], "All type descriptions of any nesting with any qualifiers, all members and packings.",
 "Tests compare a few hand-written types and never pickle or copy qualified ones.",
 [P], [("Type", P + " Type.__eq__ / __repr__ / __getnewargs__ / add_compatibility_hack"), ("Compound", P + " Compound / Struct / Union / Enum")], ["Type, Struct, Union, Enum objects"])
prop("C28", "Replacements, encodings and predefined definitions act as if in the source",
 "Parsing with a set of replacements gives what parsing the text after performing those regular-expression substitutions in order gives; parsing with an encoding gives what parsing the same text in UTF-8 gives. Macros, types, values and other definitions given as arguments act as if defined before the first file, in conditions, expansion, evaluation and type resolution, and a header file on disk is never modified.",
 ["inputs", "configurations"], "All replacement tables, encodings able to represent the text, and predefined definitions.",
 "Tests use one table of replacements and one encoding.",
 [P], [("replacement", P + " CParser.load_file"), ("predefinition", P + " CParser.__init__")], ["CParser(...).defs", "CParser(...).files"])

prop("C29", "Parsers are independent of each other",
 "What a parser records depends only on its files and arguments: not on the parsers created, processed, changed or dropped before it or meanwhile, on parsing that failed, on being processed at once, later, again or in another thread, nor on libraries built on it. Changing the definitions of one parser changes no other one that does not import from it.",
 ["histories", "schedules"], "All interleavings of creations, processings, failures, searches, changes and releases of parsers over headers that mention each other's names.",
 "Each test parses one header with a new parser, in one order and one thread.",
 [P], [("state of a parser", P + " CParser.__init__"), ("processing", P + " CParser.process_all / preprocess / parse_defs"), ("shared grammar", P + " _init_cparser / CParser.build_parser")], ["CParser(...).defs and file_defs after every step"])
prop("C30", "Searching and printing report exactly what was recorded",
 "Searching a text gives exactly the lines that contain it, each with its file and line number in the text held by the parser. The printed listing, of everything or of one file, holds every category and evaluates back to the recorded definitions. Neither changes anything, and both work for parsers loaded from a cache, imported, not processed yet, or whose header no longer exists.",
 ["inputs", "configurations"], "All headers, split into files, all ways of loading them and all searched texts.",
 "Tests only check that searching one name answers something.",
 [P], [("search", P + " CParser.find_text"), ("listing", P + " CParser.print_all / _format_parsed_file")], ["CParser.find_text", "CParser.print_all and str output"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in out: f.write(json.dumps(p) + "\n")
print(len(out))
