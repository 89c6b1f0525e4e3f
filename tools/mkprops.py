#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

p("P01", "Key schema changes are exact and all-or-nothing",
  "Adding a key that is not present makes it visible exactly once (existence, type, last place in the key order, default value) in the vault and in every record set attached to it, and gives every existing record a value for it; removing a key removes it everywhere. An add that is refused (the key exists, a unique key is added without a generator to a non-empty vault, or the generator repeats a value) leaves keys, order, defaults, records and indexes as they were. No schema operation changes the value of any other key.",
  ["inputs", "histories"], "every vault state, key name, value type, default, unique-value generator; every sequence of add/update/remove",
  "tests add a handful of literal keys of built-in types and look at one outcome; 'nothing else changed' and 'a refused add leaves nothing behind' quantify over all other keys, records and states",
  ["Source/Vault.hpp", "Source/Vault.cpp", "Source/VaultRecordSet.cpp"],
  [("private AddKey overload creating per-key indexes and closures", "Source/Vault.hpp"), ("RemoveKey", "Source/Vault.cpp"), ("UpdateKey / GetKeyValue", "Source/Vault.hpp")],
  [("KeysTypes, RecordTemplate, KeysOrder, UniqueKeys, per-key function tables", "one entry per key", "Source/Vault.h")],
  ["GetKeys", "GetKeyType", "GetKeyValue", "IsKeyExist", "GetUniqueKeys"])

p("P02", "Record creation is all-or-nothing and fills defaults",
  "A successful creation adds exactly one record whose value for every key is the given parameter, or the key's current default when the key is not among the parameters, and the returned reference denotes that record. A creation that names an unknown key, passes a value of another type, or would repeat a unique key's value adds nothing and leaves every lookup, set and other record as it was. The result names the first offending parameter or unique key.",
  ["inputs", "histories"], "every vault state and every parameter list (any length, order, types, repetitions)",
  "tests try a few parameter lists on small vaults; the claim is about every list and about the absence of any residue after a refusal",
  ["Source/Vault.cpp", "Source/VaultParamInput.hpp", "Source/VaultRecord.cpp"],
  [("CreateRecord", "Source/Vault.cpp"), ("per-key adder closures and rollback with erasers", "Source/Vault.hpp")],
  [("RecordTemplate", "default of every key", "Source/Vault.h")], ["CreateRecord", "GetData", "Size"])

p("P03", "Writing one field changes that field of that record only",
  "A successful write through a record reference makes later reads of that key of that record return the new value, and changes no other field, no other record and no key. A refused write (null or invalid reference, unknown key, other type, repeated unique value) changes nothing. Writing a list of fields applies them in order up to the first refusal, which is the reported result.",
  ["inputs", "histories"], "every vault and record state, every key, type, value, including the value already stored",
  "tests write single records with distinct values; records sharing a value with others, or holding unique keys, are sampled a few times only",
  ["Source/Vault.hpp", "Source/VaultRecordRef.hpp", "Source/VaultRecordRef.cpp", "Source/VaultRecord.hpp"],
  [("SetDataToRecord", "Source/Vault.hpp"), ("VaultRecordRef::SetData", "Source/VaultRecordRef.hpp")], None, ["GetData", "SetData"])

p("P04", "Value lookups agree with the records after any history",
  "At any time a lookup by key and value finds exactly the live records whose current value for that key equals the given value: none is missing, none is stale, none appears twice. It holds for the vault and for each attached record set (restricted to its members), whatever creations, writes, erasures, key changes and clears came before.",
  ["histories", "inputs"], "every history of operations of any length, every key, value type and value",
  "an index that loses or keeps a wrong entry shows up only after particular multi-step histories with equal values; tests run short scripted ones",
  ["Source/Vault.hpp", "Source/Vault.cpp", "Source/Map.h"],
  [("hash index and tree index per key, updated by adder/eraser/clearer closures", "Source/Vault.hpp"), ("SetDataToRecord index update", "Source/Vault.hpp")],
  [("VaultHashMapStructure / VaultMapStructure", "key -> value index", "Source/Vault.h")], ["GetRecord", "GetRecords", "RequestEqual"])

p("P05", "Range requests return exactly the matching records",
  "A request for equal, greater, greater-or-equal, less, less-or-equal or interval (with each combination of inclusive ends) fills the given set with exactly the records whose value satisfies the relation and for which the optional predicate holds; an empty or inverted interval gives no record. With a limit n the set holds at most n of the matching records, and all of them when n is large enough. Unknown key or other type yields the error and an empty set.",
  ["inputs", "histories"], "every index content, bound values present or absent, limits from 0 up, any predicate",
  "tests use ten-record vaults and bounds inside the data; boundary combinations, duplicates and limits multiply beyond them",
  ["Source/Vault.hpp", "Source/VaultRecordSet.hpp"],
  [("RequestRecordsSet bound selection and scan", "Source/Vault.hpp"), ("Request* wrappers", "Source/Vault.hpp")], None, ["RequestEqual", "RequestGreater", "RequestGreaterOrEqual", "RequestLess", "RequestLessOrEqual", "RequestInterval"])

p("P06", "And/Or requests equal set intersection and union",
  "A composed request returns the intersection (and) or the union (or) of what its two operands return on their own, for operands of any kind on the same or different keys and with their predicates; an error in an operand that is evaluated makes the whole request fail with that error and leaves the result set empty.",
  ["inputs", "programs"], "every pair of operand requests, every nesting, every vault state",
  "the two-sided-interval shortcut fires only for some operand combinations; tests cover a few of them",
  ["Source/VaultRequest.hpp", "Source/Vault.hpp"],
  [("composed request constructor and interval shortcut", "Source/VaultRequest.hpp"), ("Request", "Source/Vault.hpp")], None, ["Request"])

p("P07", "A unique key never holds the same value twice",
  "No two live records of a vault share a value of a unique key, whatever mixture of creation, writing, key addition with a generator, file loading and vault copying produced them. An operation that would repeat a value is refused with the duplicate-value code and leaves the vault unchanged; a value that is not in use is accepted.",
  ["histories", "inputs"], "every history and every value of any type",
  "a uniqueness breach needs a particular value collision through a particular operation; tests try single collisions on creation",
  ["Source/Vault.hpp", "Source/Vault.cpp"],
  [("non-multi containers for unique keys", "Source/Map.h"), ("uniqueness tests in CreateRecord, SetDataToRecord, AddKey, ReadFile", "Source/Vault.cpp")],
  [("UniqueKeys", "names of unique keys", "Source/Vault.h")], ["CreateRecord", "SetData", "AddUniqueKey"])

p("P08", "Sorted retrieval is ordered, complete and limited as asked",
  "Sorted retrieval by a key visits every record exactly once in ascending (or, reversed, descending) order of that key's value; with a limit n it visits the first min(n, size) of them, and a visitor that answers false stops the iteration. An unknown key yields nothing.",
  ["inputs", "histories"], "every content, duplicates, both directions, every limit and visitor",
  "ordering and completeness over arbitrary contents with ties and limits is beyond the sampled vaults",
  ["Source/Vault.hpp", "Source/Vault.cpp", "Source/Map.h"],
  [("sorter closures over the tree index", "Source/Vault.hpp"), ("GetSortedRecords / SortBy", "Source/Vault.cpp")], None, ["GetSortedRecords", "SortBy"])

p("P09", "Erasing removes exactly the requested records",
  "Erasing by reference, or by key and value with a limit, removes exactly the record(s) asked for (as many as match, at most the limit when it is positive) from the vault, from all lookups and from every record set, and makes references to them invalid; all other records, values and memberships stay. The outcome reports whether something was erased. Clearing the data removes every record and keeps the keys; dropping the vault removes both.",
  ["inputs", "histories"], "every vault state, key, value, limit and reference, including references into other vaults and already erased records",
  "erasing one of several records with equal values, in several indexes at once, is combinatorial; tests erase single records",
  ["Source/Vault.hpp", "Source/Vault.cpp", "Source/VaultRecord.cpp"],
  [("RemoveRecord, EraseRecord, EraseRecords", "Source/Vault.cpp"), ("eraser closures", "Source/Vault.hpp"), ("DropData, DropVault", "Source/Vault.cpp")], None, ["EraseRecord", "EraseRecords", "DropData", "DropVault"])

p("P10", "Record-set operations follow set algebra",
  "Join, exclude, intersect, union and intersection give exactly the union, difference or intersection of the operand sets, leave the other operand(s) unchanged, and keep the result's lookups and sorting consistent with its members. Operands without a vault, of different vaults, or the same object are refused with the matching code and leave all sets unchanged. Equality of sets is equality of members.",
  ["inputs", "histories"], "every pair of sets (empty, disjoint, overlapping, nested, of any vault)",
  "tests use one or two small overlaps and never follow the result through later updates",
  ["Source/VaultRecordSet.cpp"],
  [("Join, Exclude, Intersect, Union, Intersection, operator==", "Source/VaultRecordSet.cpp")], None, ["Join", "Exclude", "Intersect", "Union", "Intersection", "operator=="])

p("P11", "Record sets stay in step with their vault",
  "However a record set got its members, every member is a live record of its vault: erasing a record in the vault removes it from every set, a written value is found through every set containing the record, key additions and removals show in every set, and dropping the vault empties and detaches the sets. Destroying, clearing or reassigning a set leaves no trace of it in vault or records.",
  ["histories"], "every interleaving of vault operations, set operations and set lifetimes (single thread)",
  "the bookkeeping links are many-to-many; a missing or stale link is visible only after later operations on the other side",
  ["Source/VaultRecord.cpp", "Source/VaultRecordSet.cpp", "Source/Vault.cpp", "Source/VaultRecordSet.hpp"],
  [("dependent-set links of each record", "Source/VaultRecord.cpp"), ("RecordSetsSet of each vault", "Source/Vault.h"), ("AddRecord, RemoveRecord, Clear, Reset, copy and move of sets", "Source/VaultRecordSet.cpp")],
  [("dependentVaultRecordSets / RecordSetsSet / ParentVault", "links between vaults, records and sets", "Source/VaultRecord.h")], ["AddRecord", "RemoveRecord", "CheckRecord", "Reset", "Clear"])

p("P12", "References never outlive or leak the record they denote",
  "A record's storage is released exactly once, at the moment when it is no longer in a vault and no reference to it remains; until then references may be copied, moved, assigned and reset in any way, including onto themselves. A reference to an erased record reports itself invalid and every operation through it fails with the invalid-record code without touching the record's data or the vault.",
  ["histories"], "every sequence of creating, copying, moving, assigning, resetting references and of erasing records",
  "reference-count errors need a particular order of assignments and erasures; tests only run a few short orders",
  ["Source/VaultRecord.cpp", "Source/VaultRecordRef.cpp", "Source/VaultRecordRef.hpp"],
  [("AddRef, RemoveRef, Invalidate", "Source/VaultRecord.cpp"), ("VaultRecordRef constructors, assignments, Reset, destructor", "Source/VaultRecordRef.cpp")],
  [("RefCounter, IsValid", "number of references; membership in a vault", "Source/VaultRecord.h")], ["IsValid", "GetData", "operator=="])

p("P13", "Vault copies are equal and independent; moves transfer everything",
  "A copied vault has the same keys in the same order, types, defaults, uniqueness and record values as the original, and no later operation on one of them is visible in the other. Moving a vault transfers keys, records, references and attached sets to the new object, through which they keep working, and leaves the source an empty usable vault. Assignment discards the old content of the target; self-assignment changes nothing.",
  ["histories", "inputs"], "every source content and every later history on either side",
  "tests copy a small vault and compare once; defaults after an update, uniqueness of the copy and sets of a moved vault are not exercised",
  ["Source/Vault.cpp", "Source/Vault.hpp", "Source/VaultRecord.cpp"],
  [("copy/move constructors and assignments", "Source/Vault.cpp"), ("key copier closures", "Source/Vault.hpp")], None, ["Vault(const Vault&)", "operator=", "Vault(Vault&&)"])

p("P14", "The type-erased value holder is type-safe and copies deeply",
  "A value holder gives back the value last stored when asked for it with the stored type and otherwise refuses and leaves the output untouched. Copies are deep: writing, resetting or destroying one holder never changes another; assigning from an empty holder empties the target. Each owned value is destroyed exactly once, and the keyed containers of holders behave as maps from names to such values.",
  ["inputs", "histories"], "every stored type, value and sequence of set, get, copy, assign, swap, reset",
  "ownership and type-tag errors depend on operation order and on arbitrary user types; tests use ints and strings",
  ["Source/DataSaver.h", "Source/DataSaver.cpp", "Source/DataContainer.h"],
  [("SetData, GetData, operator=, ResetData, destructor", "Source/DataSaver.h"), ("DataContainer set/get/erase", "Source/DataContainer.h")],
  [("Ptr, DataType and function pointers", "owned value and its operations", "Source/DataSaver.h")], ["SetData", "GetData", "operator=", "ResetData"])

p("P15", "CSV fields survive quoting and parsing",
  "Every byte string written as a CSV field is parsed back as the same field, in any position of a row and with any neighbours, including separators, quotes, line breaks, and empty fields at the end of a row. The parser splits every input into exactly the rows and fields its quoting rules define and consumes the whole input.",
  ["inputs"], "every byte string, row and file content, every separator",
  "quoting interacts with position and neighbours; tests parse a few fixed files",
  ["Source/CsvParser/CsvParser.cpp"],
  [("FormatStringToCsv", "Source/CsvParser/CsvParser.cpp"), ("GetNextVector", "Source/CsvParser/CsvParser.cpp")], None, ["FormatStringToCsv", "GetNextVector"])

p("P16", "The file reader delivers every byte once, in order",
  "Reading a file character by character yields exactly the bytes of the file in order, followed by the end, with the look-ahead character and the position agreeing with them at every step, for every file size on both sides of the in-memory limit and of each block boundary.",
  ["inputs"], "every file length and content",
  "block-boundary errors need files over ten megabytes or of exact multiples of the block size; tests use tiny files",
  ["Source/CsvParser/StreamFileReader.cpp", "Source/CsvParser/StreamFileReader.h"],
  [("Open, Move, IsEnd, GetChar, GetNextChar", "Source/CsvParser/StreamFileReader.cpp")],
  [("FilePos, ChunkPos, Char, NextChar", "position and current characters", "Source/CsvParser/StreamFileReader.h")], ["Move", "GetChar", "GetNextChar", "IsEnd"])

p("P17", "Loading a file accounts for every row",
  "Loading a file turns each row that has a column bound to a key into exactly one record (columns bound to keys by header, by the given key list or by key order; keys without a column keep their defaults) or into exactly one entry of the error list, which names the offending key and the number of the row: its line in the file for a value that cannot be read, its place among the rows after the header for a repeated value of a unique key. A rejected row leaves no trace in the vault; blank rows are ignored. Rows or headers with more columns than keys, unknown keys or unparsable values never cause undefined behaviour. A vault saved to a file and loaded into an empty vault with the same keys has the same records.",
  ["inputs", "histories"], "every file content, header, key list, vault schema",
  "tests load a few well-formed files with one or two errors",
  ["Source/Vault.cpp"],
  [("ReadFile", "Source/Vault.cpp"), ("SaveToFile", "Source/Vault.cpp")], [("InvalidFileRecords", "errors of the last load", "Source/Vault.h")], ["ReadFile", "SaveToFile", "GetErrorsInLastReadedFile"])

p("P18", "Number and text conversion are inverse and total",
  "Converting any integer, boolean or string value to text and back gives the same value and reports success. Text that is not a number of the target type (empty, sign only, other characters, out of range, negative for an unsigned type) is rejected, leaves the target unchanged and causes no overflow.",
  ["inputs"], "every value of every supported integer width, every byte string",
  "limits and malformed text form a space the tests sample at a few points",
  ["Source/Strings/FromString.h", "Source/Strings/ToString.h"],
  [("FromStringSignedInt, FromStringUnsignedInt and specialisations", "Source/Strings/FromString.h"), ("ToString specialisations", "Source/Strings/ToString.h")], None, ["FromString", "ToString"])

p("P19", "Recursive read/write locking is balanced within a thread",
  "Within one thread any properly nested sequence of read and write locks on a vault's lock keeps the underlying lock held in read mode while only reads are outstanding, in write mode from the first outstanding write on, and releases it when the last one ends; nesting never requests the underlying lock twice, and a disabled lock does nothing.",
  ["histories"], "every properly nested sequence of lock and unlock calls of one thread, every nesting depth",
  "upgrade and downgrade orders at arbitrary depth are not enumerated by tests",
  ["Source/ReadWriteMutex.cpp", "Source/ReadWriteMutex.h"],
  [("RecursiveReadWriteMutex", "Source/ReadWriteMutex.cpp"), ("ReadLock / WriteLock guards", "Source/ReadWriteMutex.h")],
  [("per-thread lock counters", "outstanding read and write locks", "Source/ReadWriteMutex.cpp")], ["ReadLock", "WriteLock"])

p("P20", "Generated identifiers are well-formed version-4 UUIDs",
  "Every generated identifier has 36 characters in the 8-4-4-4-12 lower-case hexadecimal layout with version digit 4 and variant digit 8, 9, a or b, whatever random numbers are drawn, and its other digits are those numbers' digits. Temporary file names are the temporary directory, the given prefix and such an identifier.",
  ["inputs"], "every pair of 64-bit random draws, every prefix",
  "tests sample random draws; the version and variant digits must hold for all 2^128",
  ["Source/Uuid/Uuid.cpp"], [("ToHex, Uuid, GenTmpFileName", "Source/Uuid/Uuid.cpp")], None, ["Uuid"])

p("P21", "JSON output encodes each value by its type",
  "Values of numeric and boolean types appear in JSON output unquoted as their text, and all other values and the names of the keys as JSON string literals that decode to them, for every value.",
  ["inputs"], "every type and value",
  "quotes, backslashes and control characters inside values are not sampled",
  ["Source/Strings/ToJson.cpp", "Source/Strings/ToJson.h"], [("ToJson, IsQuotedJsonType", "Source/Strings/ToJson.cpp")], None, ["ToJson"])

p("P22", "One index interface, same meaning for unique and repeated keys",
  "The library's map wrappers behave as one ordered or hashed multimap or map according to the mode chosen at construction: insertion, lookup, equal ranges, bounds, erasure by key and by position, iteration in both directions, size and clear act only on the active container and give what the standard container gives. In unique mode an insertion of a present key changes nothing and says so.",
  ["inputs", "histories"], "every content, key and operation sequence in both modes",
  "the two modes duplicate every code path; tests exercise the wrappers only through a few vault calls",
  ["Source/Map.h"], [("AllMapIterator, ParentMap, Map, UnorderedMap", "Source/Map.h")], [("IsMultiMap", "mode", "Source/Map.h")], ["Emplace", "EqualRange", "Find", "Erase", "LowerBound", "UpperBound"])

p("P23", "Operation results tell the truth",
  "Every operation that returns a result sets the success flag exactly when the operation took effect, with the success code exactly in that case and otherwise the code of the first failing condition (record, key, type, uniqueness, value, in that order), and names the requested key and type and the stored type where it is known. Each code has its own non-empty description and two results compare equal exactly when all their parts are equal.",
  ["inputs", "histories"], "every operation, state and argument",
  "tests compare whole results in a few situations per operation",
  ["Source/Vault.hpp", "Source/Vault.cpp", "Source/VaultRecordRef.hpp", "Source/VaultRecordSet.cpp", "Source/VaultOperationResult.cpp"],
  [("result construction in each operation", "Source/Vault.hpp"), ("ResultCodeString, operator==", "Source/VaultOperationResult.cpp")], None, ["VaultOperationResult"])

p("P24", "Concurrent use of one vault is linearisable and free of deadlock",
  "Any number of threads may call operations of one vault, its references and record sets at the same time; each call takes effect atomically at one moment between its start and end, and no set of calls blocks forever.",
  ["schedules"], "every interleaving of any number of threads",
  "the thread tests run one schedule per run",
  ["Source/ReadWriteMutex.cpp", "Source/Vault.cpp", "Source/Vault.hpp"],
  [("ReadWriteMutex and lock guards in every operation", "Source/ReadWriteMutex.cpp")], None, [])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
