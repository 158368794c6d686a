#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewable)."""
import json, os

IO, SO, UT, ST, UP = ("sofar/io.py", "sofar/sofa.py", "sofar/utils.py",
                      "sofar/sofastream.py", "sofar/update_conventions.py")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(),
         observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": None}})


NODATA = ("The convention data is a git submodule that is absent here, so no "
          "existing test that needs a convention runs; ")

prop("C01", "Nothing is written unless the object passes verification",
     "write_sofa opens, creates or changes a file only after the object it was given has passed write-mode verification with "
     "detected errors raised. If verification fails, no file is created and an existing file at the target path stays untouched, "
     "for every object, file name and compression level.",
     ["inputs", "configurations"],
     "all Sofa objects, file names and compression levels",
     NODATA + "even with it, tests write a few valid objects and cannot show that no path reaches the disk unverified.",
     [IO], [("verify call before Dataset(..., 'w')", "sofar/io.py:_write_sofa")],
     observe=["file system content after write_sofa", "exception from write_sofa"])

prop("C02", "Writing stores every entry of the object in the file",
     "A file produced by write_sofa contains every dimension of the object with its size, every GLOBAL attribute, every variable with "
     "all of its values (doubles in 64 bit) on the variable's dimensions, and every attribute of every variable. "
     "No public entry is skipped, altered, cut short or stored under another name, for any object and any compression level.",
     ["inputs"], "all verified Sofa objects, including custom entries and dimensions, and all compression levels",
     NODATA + "a round trip of default objects samples a handful of entries and values.",
     [IO, UT], [("entry loop of the writer", "sofar/io.py:_write_sofa"), ("value formatting", "sofar/io.py:_format_value_for_netcdf"),
                ("dimension padding", "sofar/utils.py:_atleast_nd")],
     observe=["content of the written NetCDF file"])

prop("C03", "Reading returns exactly what the file contains",
     "The object returned by read_sofa or read_sofa_as_netcdf contains every global attribute, every variable and every variable "
     "attribute found in the file (except the technical string-encoding marker) with the value stored there, custom entries included; "
     "custom variables are registered with the dimensions, in their order, and the kind of data (text or numbers) the file states. "
     "It contains no entry that the file does not contain: defaults the convention would supply are removed.",
     ["inputs"], "all NetCDF files, with and without custom, missing or unknown entries",
     NODATA + "tests cannot range over all sets of entries a file may hold.",
     [IO], [("load loops and removal of unread defaults", "sofar/io.py:_read_netcdf")],
     observe=["entries of the returned object"])

prop("C04", "read_sofa only returns verified data when asked to verify",
     "With verify=True, or with verify='auto' for files whose convention version is at least 1.0, read_sofa verifies the completely "
     "loaded object in read mode before returning it and raises ValueError if verification fails. Files that name an unknown "
     "convention or version are rejected by read_sofa with ValueError whatever verify is.",
     ["inputs", "configurations"], "all files and all values of verify and verbose",
     NODATA + "tests try single files for some settings of verify.",
     [IO, UT], [("verify gate of the reader", "sofar/io.py:_read_netcdf"),
                ("convention check", "sofar/utils.py:_verify_convention_and_version")],
     observe=["return value and exceptions of read_sofa"])

prop("C05", "Objects, files and streams agree on entry and file names",
     "An entry has the same identity everywhere: the names write_sofa stores, the names both readers restore and the names SofaStream "
     "resolves are the same mapping (GLOBAL_X is global attribute X, Data_X is variable Data.X, Variable_X is attribute X of Variable), "
     "so a name that is valid on the object that was read gives the same entry on the stream. A path given to write_sofa and to the "
     "readers denotes the same file, which carries the suffix .sofa.",
     ["inputs"], "all entry names and all file names",
     NODATA + "tests look up three names and use file names that already end in .sofa.",
     [IO, ST], [("key.replace/key slicing in the writer", "sofar/io.py:_write_sofa"),
                ("var.replace and GLOBAL_ prefix in the reader", "sofar/io.py:_read_netcdf"),
                ("name resolution of the stream", "sofar/sofastream.py:SofaStream.__getattr__")],
     observe=["names in files, objects and streams"])

prop("C06", "Protected objects refuse illegal changes",
     "While an object is protected, assigning a name it does not have, assigning an entry that its current convention flags read only, "
     "and deleting an entry that its current convention flags mandatory raise TypeError and leave the object unchanged. Assigning any "
     "other existing entry stores the given value, and deleting any other existing entry removes it together with its custom definition (also from the convention table, so that it can be added anew).",
     ["inputs", "histories"], "all objects, entry names, values and sequences of operations, including objects that were upgraded",
     NODATA + "tests try one read-only name, one mandatory name and one unknown name.",
     [SO], [("guards", "sofar/sofa.py:Sofa.__setattr__, Sofa.__delattr__, Sofa.delete"),
            ("flag predicates", "sofar/sofa.py:Sofa._mandatory, Sofa._read_only")],
     [("_read_only_attr", "names flagged read only", "sofar/sofa.py:Sofa.__init__")],
     observe=["TypeError", "object entries after a refused change"])

prop("C07", "No operation leaves the write protection switched off",
     "Every operation that lifts the protection of an object for its own work has the protection switched on again when it ends, "
     "whether it returns or fails with an exception. Objects handed out by the constructor for a convention and by both readers are protected.",
     ["inputs", "histories", "fault_sequences"], "all public operations, all inputs, normal and exceptional ends",
     "An operation can fail at any statement between lifting and restoring the protection; the tests reach the normal end of a few operations only.",
     [SO, IO], [("protected = False ... protected = True brackets",
                 "sofar/sofa.py:_add_custom_api_entry, add_missing, verify, upgrade_convention, _convention_to_sofa; sofar/io.py:_read_netcdf")],
     [("_protected", "write protection of one object", "sofar/sofa.py:Sofa.protected")],
     observe=["Sofa.protected after an operation"])

prop("C08", "A rejected addition leaves the object unchanged",
     "If add_variable or add_attribute fails because of the name, the type, the dimensions or the value it was given, the entries of the "
     "object, its custom definitions and its convention table are the same as before the call. An existing entry is never replaced by add_variable or add_attribute. "
     "An addition of unknown type, a variable without dimensions or with an underscore in its name, and an attribute whose name does not have the "
     "form Variable_Attribute or whose variable is not part of the object are rejected.",
     ["inputs", "fault_sequences"], "all names, values, types and dimensions",
     NODATA + "tests check that an exception is raised, not that the object is unchanged afterwards.",
     [SO], [("input checks", "sofar/sofa.py:Sofa._add_entry"), ("registration", "sofar/sofa.py:Sofa._add_custom_api_entry")],
     [("_custom", "definitions of custom entries", "sofar/sofa.py:Sofa._add_custom_api_entry")],
     observe=["object state after a failed call"])

prop("C09", "Verification reports every issue it detects",
     "Every error and every warning that Sofa.verify detects reaches the channel the caller selected: with 'raise' errors raise ValueError and "
     "warnings are issued, with 'print' both are printed, with 'return' both are contained in the returned text and None means that nothing was detected. "
     "With 'raise' verification never ends normally once an error was detected, and 'print', 'return' and 'ignore' never raise for a detected issue.",
     ["inputs"], "all objects, all combinations of detected issues, all values of issue_handling and mode",
     NODATA + "tests provoke one issue at a time and mostly with 'raise'.",
     [SO], [("message accumulation", "sofar/sofa.py:Sofa.verify"), ("routing", "sofar/sofa.py:Sofa._verify_handle_issues")],
     observe=["exceptions, warnings, console output and return value of Sofa.verify"])

prop("C10", "Verification examines every entry of the object",
     "Sofa.verify checks every mandatory entry of the convention for presence, every public entry for its data type and its name, every custom entry "
     "against the names of the convention, every variable for its shape, every rule of the rule table that concerns an entry of the object (value, general "
     "and specific dependencies, restricted dimensions), every unit when writing, and deprecation. An entry that fails such a check is always detected as an error, "
     "no matter which or how many other entries the object has.",
     ["inputs"], "all objects and rule tables",
     NODATA + "tests violate one rule at a time on a default object.",
     [SO], [("checks 1 to 8", "sofar/sofa.py:Sofa.verify"), ("value check", "sofar/sofa.py:Sofa._verify_value, _verify_unit")],
     observe=["issues reported by Sofa.verify"])

prop("C11", "Verifying, inspecting, comparing and writing never change data",
     "verify, inspect, info, list_dimensions, get_dimension, copy, repr, equals and write_sofa never alter, replace in place or delete an existing "
     "entry of an object they are given. The only change to the entries they may make is to add mandatory entries that are missing, with the default value, "
     "when issues are not raised.",
     ["inputs", "histories"], "all objects and parameters of these operations",
     NODATA + "no test compares the complete object before and after.",
     [SO, UT, IO], [("guarded default", "sofar/sofa.py:Sofa.verify"), ("value copies", "sofar/io.py:_format_value_for_netcdf")],
     observe=["entries of the object before and after"])

prop("C12", "equals reports identity only for identical content",
     "equals returns True only if, after the requested exclusion, both objects have the same entries and every entry has the same kind and an equal value "
     "(numbers up to floating point tolerance, shapes compared without single dimensions, missing values of masked arrays equal to missing values only); for objects that verify, any difference gives False and never an exception, with verbose on or off. "
     "The exclusion removes exactly global attributes ('GLOBAL'), attributes ('ATTR') or entries with 'Date' in their name ('DATE') from both objects, and the "
     "verdict is the same when Python runs with assertions disabled.",
     ["inputs", "configurations"], "all pairs of objects, all values of exclude and verbose, python and python -O",
     NODATA + "tests change single entries of one object and never run with -O.",
     [UT], [("comparison loop", "sofar/utils.py:equals")],
     observe=["return value of equals"])

prop("C13", "Sofa objects never share mutable state",
     "Two Sofa objects share no mutable data: creating, reading, copying, verifying or editing one object, including its custom entries, its convention table "
     "and its default arrays, never changes what another object contains or reports. The convention and rule tables are obtained fresh for every object and no "
     "state is kept between calls.",
     ["histories", "inputs"], "all sequences of operations on any number of objects",
     NODATA + "tests work on one object at a time.",
     [SO, UT], [("tables loaded per object", "sofar/sofa.py:Sofa._load_convention, _verification_rules"), ("deepcopy", "sofar/sofa.py:Sofa.copy")],
     observe=["content of other objects"])

prop("C14", "Upgrading changes an object only for a valid target, then fully",
     "upgrade_convention leaves the object's entries unchanged when it is called without a target, with a target that is not offered, or when no upgrade applies. "
     "For an offered target it sets convention name, convention version, SOFA version and data type to those of the target, moves every datum the upgrade rules list to its "
     "new name, removes exactly the data they list, adds missing mandatory data, and verifies the result when verify is True or 'auto' with a version of at least 1.0.",
     ["inputs", "configurations"], "all conventions, versions, upgrade rules, targets and values of verify",
     NODATA + "tests look at the console output of an upgrade, not at the data.",
     [SO], [("target check and rule interpreter", "sofar/sofa.py:Sofa.upgrade_convention")],
     observe=["entries before and after upgrade_convention"])

prop("C15", "Only writing functions touch the disk, only updating uses network",
     "The only operations that create, change or delete files are write_sofa (the target file), inspect with a file argument (that file) and update_conventions "
     "(the conventions folder and its own temporary folder); all other operations, readers and SofaStream included, open files for reading only. Network access happens only in "
     "update_conventions, importing the package does neither, and inspect without a file argument writes nothing.",
     ["inputs", "histories"], "all public operations and inputs",
     "A test can only show that one call did not write; the property is about every path of every operation.",
     [IO, SO, ST, UT, UP], [("open/Dataset modes", "sofar/*.py")],
     observe=["file system and network effects"])

prop("C16", "Updating conventions needs consent and never loses a convention",
     "update_conventions changes, adds or removes convention files only after the user typed y, or with assume_yes=True, and only those that differ from the download; no convention file is "
     "touched if the user declines. File names taken from the web page cannot lead outside the conventions folder, responses with an HTTP error status are never installed nor taken for the list of conventions, "
     "and at every moment of an update each convention being deprecated still exists in one of the two folders, as csv and as compiled json.",
     ["crash_points", "inputs", "fault_sequences"], "all web page contents, all states of the conventions folder, all answers, a crash at any point",
     "The only test needs the network and the convention data and runs through once without interruption or declining.",
     [UP], [("staging, consent, install", "sofar/update_conventions.py:update_conventions")],
     observe=["content of the conventions folder"])

prop("C17", "Every file that is opened is closed on every exit",
     "Whatever way an operation ends, by returning or by an exception at any point, every SOFA file, text file and temporary folder it opened is closed or removed again. "
     "A SofaStream closes its file when the with block is left, normally or by an exception, and does not suppress the exception.",
     ["fault_sequences", "inputs"], "all operations that open a file, all exits",
     "Exceptions can occur at any statement while a file is open; tests do not look for leaked handles.",
     [IO, ST, SO, UT, UP], [("with statements", "sofar/*.py"), ("__exit__", "sofar/sofastream.py:SofaStream.__exit__")],
     observe=["open file handles after an operation"])

prop("C18", "No input makes an operation trip over an unset variable",
     "On every path through every operation each local value is computed before it is used, so that no object, file or argument makes an operation fail with an "
     "unbound-variable or undefined-name error instead of giving its result or its documented exception.",
     ["inputs"], "all inputs of all functions in the package",
     "Such errors hide on paths that only particular data reach, for example data types or version combinations no test uses.",
     [SO, ST, IO, UT, UP], [("branches that compute values", "sofar/sofa.py:list_dimensions, upgrade_convention; sofar/sofastream.py:list_dimensions")],
     observe=["UnboundLocalError / NameError"])

prop("C19", "SofaStream is read only, lazy and fails cleanly",
     "SofaStream opens its file for reading when the with block is entered, closes it when the block is left, without swallowing errors, and never modifies it; looking up a variable returns the file's own variable without loading its values. "
     "Looking up a name that the file does not contain raises AttributeError, for every name, also when the stream is not open, and get_dimension raises ValueError for unknown dimensions.",
     ["inputs", "histories"], "all files, all names, before, inside and after the with block",
     NODATA + "tests look up three existing names and one missing name.",
     [ST], [("__enter__/__exit__/__getattr__", "sofar/sofastream.py:SofaStream")],
     observe=["returned objects and exceptions of SofaStream"])

prop("C20", "Reported and written dimensions describe the current data",
     "get_dimension, list_dimensions, inspect and write_sofa work with dimension sizes, shapes and a convention table that are recomputed from the object's current data in that very call; sizes "
     "from an earlier verification are never reused. If the current data have wrong types or shapes, get_dimension and list_dimensions raise ValueError instead of reporting sizes.",
     ["histories"], "all sequences of edits, upgrades and queries",
     NODATA + "tests query dimensions once after creating an object.",
     [SO, IO], [("reset of _convention, _dimensions and _api", "sofar/sofa.py:Sofa.verify, Sofa._reset_convention, Sofa._update_dimensions")],
     [("_api", "size of each dimension", "sofar/sofa.py:Sofa.verify"), ("_dimensions", "dimensions of each variable", "sofar/sofa.py:Sofa.verify")],
     observe=["Sofa.get_dimension, Sofa.list_dimensions, written dimensions"])

prop("C21", "Text is handled independently of platform and locale",
     "Every text file the package writes or reads is either opened with an explicit encoding or holds only ASCII, and string data written to SOFA files are read back with the encoding they were written "
     "with. The result of an operation does not depend on the locale of the machine.",
     ["configurations", "inputs"], "all locales and platforms, all text content",
     "Tests run under one locale with ASCII text.",
     [IO, SO, ST, UP], [("open(...), stringtochar/chartostring", "sofar/*.py")],
     observe=["bytes of written files", "decoded strings"])

prop("C22", "No entry is skipped because its collection changes during a loop",
     "Every loop over entries, conventions, files or issues visits each element exactly once: no operation adds elements to or removes elements from a collection while it walks over it. In particular "
     "the congruency report names every convention that exists on only one of the two platforms, and entries are removed or added without skipping others.",
     ["inputs"], "all collections the package iterates over",
     "Skipping needs particular neighbouring elements, e.g. two consecutive items that are removed.",
     [IO, SO, ST, UT, UP], [("loops that delete or append", "sofar/io.py:_read_netcdf, sofar/sofa.py:_reset_convention, sofar/update_conventions.py:_check_congruency")],
     observe=["results of the loops"])

prop("C23", "Compiling conventions covers every source and every line",
     "Compiling conventions writes, for every csv file in the conventions folder and in its deprecated sub folder, one json file of the same name next to it, holding the table parsed from exactly that csv file. "
     "Every line after the header becomes one entry with the header's lower case field names, and a line that cannot be parsed raises ValueError naming the file instead of being dropped.",
     ["inputs"], "all convention folders and csv contents",
     NODATA + "the only test compares the shipped files.",
     [UP], [("_compile_conventions, _convention_csv2dict", "sofar/update_conventions.py")],
     observe=["json files written"])

prop("C24", "A convention request gets exactly that convention and version",
     "Sofa(name, version=v) uses the definition whose name and version are exactly those requested, never one whose name merely starts with the same letters; 'latest' selects the numerically highest version of exactly "
     "that name, standardized and deprecated folders both considered. A name or version that does not exist raises an error instead of falling back to another definition.",
     ["inputs", "configurations"], "all names, versions and contents of the conventions folder",
     NODATA + "tests request one or two conventions.",
     [SO, UT], [("selection", "sofar/sofa.py:Sofa._load_convention"), ("file list", "sofar/utils.py:_get_conventions")],
     observe=["convention of the created object"])

prop("C25", "New and completed objects contain all required entries",
     "A new Sofa object holds every mandatory entry of its convention and, unless mandatory=True, every optional one, each with the convention's default (the entries that record the date, the API and the application are filled in on creation); it is verified on creation when verify is True, or "
     "'auto' with a version of at least 1.0, unless mandatory=True. add_missing adds exactly the missing entries of the kinds it was asked for, with their defaults, and never overwrites an existing entry.",
     ["inputs", "configurations"], "all conventions and parameters",
     NODATA + "tests create a few conventions.",
     [SO], [("defaults", "sofar/sofa.py:Sofa._convention_to_sofa, Sofa.add_missing, Sofa.__init__")],
     observe=["entries of the object"])

prop("C26", "File and network content is never executed",
     "Content read from SOFA files, convention files or the network is only parsed as data: no operation evaluates or imports code, unpickles objects, deserializes with code execution, or starts processes. Path names built from such content are "
     "not used outside the folders the operation works on.",
     ["inputs"], "all file and network contents",
     "No test feeds hostile content, and the absence of such calls is a property of the whole code base.",
     [IO, SO, ST, UT, UP], [("parsers", "sofar/update_conventions.py:_convention_csv2dict, json.load, netCDF4")],
     observe=["calls of code executing functions"])

prop("C27", "Numeric round trip equality",
     "For every object that verifies, reading the written file gives numerically equal data (up to discarded trailing single dimensions and scalars).",
     ["inputs"], "all objects", NODATA + "round trips of default objects sample the value space.",
     [IO, UT], [("_format_value_for_netcdf / _format_value_from_netcdf", "sofar/io.py")])

prop("C28", "Verification verdicts agree with AES69-2022",
     "verify accepts an object if and only if it satisfies the rules of AES69-2022 for its convention and version.",
     ["inputs"], "all objects", "Tests violate single rules of the rule table.",
     [SO], [("rule interpreter", "sofar/sofa.py:Sofa.verify")])

prop("C29", "Array shapes map to SOFA dimensions correctly",
     "For every accepted variable the detected dimension sizes equal the sizes of the corresponding axes after padding with trailing single dimensions, whatever mixture of scalars, lists and arrays the user entered.",
     ["inputs"], "all values and dimension strings", "Tests cover a few shapes.",
     [SO, UT], [("_nd_newaxis, _atleast_nd, verify step 4 and 5", "sofar/sofa.py, sofar/utils.py")])

prop("C30", "csv cells are parsed into the intended numbers and lists",
     "Every cell of a convention csv is converted to the number, nested list or string it denotes.",
     ["inputs"], "all cell texts", "Tests compare the shipped files only.",
     [UP], [("_convention_csv2dict", "sofar/update_conventions.py")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
