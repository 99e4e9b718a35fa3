#!/usr/bin/env python3
"""Wrote spec/Registered.tla, once, from the registries of the crate as of the revision given.

It is not part of any check: the module is the reference, reviewed by hand against the OpenType
registries of scripts, language systems and features, and it does not follow the code.
"""

import re
import subprocess
import sys

revision = sys.argv[1]


def source(name):
    text = subprocess.run(["git", "-C", "/repo", "show", "%s:src/layout/%s.rs" % (revision, name)],
                          check=True, capture_output=True, text=True).stdout
    return re.sub(r"\\\n\s*", "", text)


def bytes_of(text):
    return "<<%s>>" % ",".join(str(byte) for byte in text.encode())


def entries(name, coded):
    pattern = r'((?:#\[cfg[^\n]*\n\s*)?)b"(.{4})" => "([^"]*)" => (\w+)' + (' => "([^"]*)",' if coded else ",")
    for attribute, tag, title, variant, *codes in re.findall(pattern, source(name)):
        codes = codes[0].split(", ") if coded and codes[0] else []
        optional = "default-language" in attribute
        yield '<<%s, %s, "%s", <<%s>>, %s>>' % (
            bytes_of(tag), bytes_of(title), variant, ", ".join('"%s"' % code for code in codes),
            "TRUE" if optional else "FALSE"), "%s %s" % (tag, title.encode("ascii", "replace").decode())


print("----------------------------- MODULE Registered -----------------------------")
print("(* The registered tags: tag, name (in UTF-8), variant, ISO 639 codes, and    *)")
print("(* whether only builds with the default-language feature register it.         *)")
for title, name, coded in (("Scripts", "script", False), ("Languages", "language", True),
                           ("Features", "feature", False)):
    rows = list(entries(name, coded))
    print("\nRegistered%s == <<" % title)
    for i, (row, comment) in enumerate(rows):
        print("    %s%s \\* %s" % (row, "," if i + 1 < len(rows) else "", comment))
    print(">>")
print("=" * 77)
