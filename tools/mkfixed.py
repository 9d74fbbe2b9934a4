#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (words of the subject, property)
 ("use the lock created", "C22"), ("reuse objects already built", "C19"), ("functions declared with a calling convention", "C17"),
 ("definitions when building array types", "C20"), ("use the bit width", "C09"), ("second class for a struct", "C20"), ("member named value", "C18"),
 ("omit char *", "C18"), ("evaluate !=", "C03"), ("end of names looking", "C03"), ("floating point numbers with", "C05"), ("octal integers", "C05"),
 ("integer division in #if", "C03"), ("as Python builtins", "C15"), ("__debug__", "C15"), ("Unicode names", "C15"), ("preprocess the files only once", "C14"), ("following a string", "C04"), ("inside character", "C04"), ("arguments only from", "C04"),
 ("braces in the text", "C04"), ("split the arguments", "C04"), ("make #undef", "C04"), ("between parenthesis for a cast", "C05"), ("replace comments by", "C10"),
 ("packing in force", "C08"), ("pack(push)", "C08"), ("enum referenced before", "C06"), ("whatever the order of their words", "C16"), ("several or unnamed bit", "C07"),
 ("unnamed pointers to functions or arrays", "C01"), ("dimensions of arrays of typedef", "C02"), ("compatibility hack", "C27"), ("list of directories of the caller", "C23"),
 ("standard locations on linux", "C23"), ("architecture of a library from its content", "C24"), ("by its real path", "C21"), ("encoding or the copied", "C13"),
 ("when the headers are missing", "C12"), ("whose version matches", "C13"), ("arguments of init", "C26"), ("pointing at a struct which", "C09"), ("following a type to all", "C01"),
 ("members of structs as Python attributes", "C15"), ("unnamed function pointers", "C01"), ("merge tokens", "C04"), ("C division", "C05"), ("unary operators and adjacent", "C05"),
 ("casts to fundamental", "C05"), ("same meaning in C and Python", "C05"), ("casts to qualified", "C05"), ("unbalanced #pragma", "C08"), ("without arguments", "C09"),
 ("bit fields of type char", "C09"), ("unnamed bit fields as the anonymous", "C09"), ("tabulations", "C10"), ("half of a damaged", "C13"), ("order of the replacements", "C13"),
 ("pointers to function pointers", "C16"), ("NULL for the array", "C18"), ("a union when asked", "C19"), ("prefer the name itself", "C19"), ("typedefs of void", "C17"), ("arguments named self", "C17"), ("callers of the parser alive", "C21"), ("to a shell", "C23"), ("class of ELF", "C24"), ("given to init for time_t", "C26"), ("names with $ for keywords", "C01"), ("cache written with other types", "C26"), ("represent the calling", "C27"), ("represent structs without", "C27"), ("enumerators named self", "C27"), ("given as names or tuples", "C28"), ("#define and #undef without", "C14"), ("compiler specific qualifiers", "C27"), ("text of the known files", "C30"), ("widths of bit-fields", "C07"), ("null directives", "C14"), ("comparisons a value", "C05"), ("characters or unknown values", "C06"), ("priorities of C", "C03"),
 ("flexible array", "C09"), ("size of array parameters", "C01"),
 ("qualifiers of an array type", "C02"), ("escape sequences", "C05"), ("as signed characters", "C06"), ("values which cannot be read", "C06"), ("of a file again", "C29"), ("for the typedef of a struct", "C19"),
 ("initializer of every declarator", "C01"), ("names for sizeof or new", "C05"), ("sizeof and calls applied", "C07"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
lines = []
for ln in log:
    h, s = ln.split(" ", 1)
    if not s.startswith("fix: "): continue
    props = [p for w, p in MAP if w in s]
    assert props, s
    lines.append("fixed: property=%s %s %s" % (props[0], h, s[5:]))
path = V + "/known_findings.txt"
keep = [x for x in open(path).read().splitlines() if not x.startswith("fixed:")]
open(path, "w").write("\n".join(keep + lines) + "\n")
print(len(lines))
