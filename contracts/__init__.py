"""Contracts of the code under verification, by layer. GROUPS: (module, properties, function, arguments)."""
GROUPS = [
    ("uuid", ["P20"], "proof", ()),
    ("numbers", ["P18"], "proof", ()),
    ("json", ["P21"], "proof", ()),
    ("locks", ["P19"], "proof", ()),
    ("reader", ["P16"], "proof", ()),
    ("csv", ["P15"], "proof", ()),
    ("maps", ["P22"], "proof", ()),
    ("saver", ["P14"], "proof", ()),
    ("container", ["P14"], "proof", ()),
    ("vault_ops", ["P03", "P04", "P07", "P23"], "proof", ("SetDataToRecord",)),
    ("vault_ops", ["P03", "P04", "P11"], "proof", ("UpdateDependentSets",)),
    ("vault_ops", ["P04", "P09", "P11"], "proof", ("Invalidate", "RemoveFromDependentSets", "RemoveRecordNull", "RemoveRecord",)),
    ("vault_ops", ["P04", "P09", "P11", "P23"], "proof", ("EraseRef", "EraseValue", "EraseValues")),
    ("vault_refs", ["P12"], "proof", ("AddRef", "RemoveRef", "RefSet", "RefMake", "RefEmpty", "RefCopy", "RefMove", "RefAssign", "RefMoveAssign", "RefSelf", "RefMoveSelf", "RefReset", "RefDestroy", "RefValid", "RefEqual", "RefUnequal")),
    ("vault_reads", ["P04", "P23"], "proof", ("GetRecord", "GetRecords")),
    ("vault_reads", ["P05"], "proof", ("RequestRecordsSet", "RequestRecordsSetDefault")),
    ("vault_keys", ["P01", "P23"], "proof", ("IsKeyExist", "GetKeyType", "GetKeyValue", "UpdateKey")),
    ("vault_keys", ["P03"], "proof", ("RefGetData",)),
    ("vault_sort", ["P01", "P04", "P07", "P08", "P11", "P23"], "proof", ("AddKey", "AddKeyNew")),
    ("vault_keys", ["P01", "P07"], "proof", ("AddPlainKey", "AddUniqueKey", "AddUniqueKeyBy")),
    ("vault_keys", ["P01", "P04", "P11"], "proof", ("RemoveKey",)),
    ("vault_create", ["P02", "P04", "P07", "P23"], "proof", ("RecordCopy", "ParamInput", "CreateRecord", "CreateUnnamed")),
    ("results", ["P23"], "proof", ()),
    ("vault_drop", ["P04", "P09", "P11"], "proof", ("DropData", "DropVault", "Reset", "SetClearNew", "DropVaultNew", "ResetNew")),
    ("vault_sort", ["P08"], "proof", ("GetSortedRecords", "SortBy", "SetSorted", "SetSortBy")),
    ("vault_copy", ["P10", "P11"], "proof", ("CopySet", "MoveSet", "SetCopied", "SetMoved", "SetAssign", "SetMoveAssign")),
    ("vault_copy", ["P10"], "proof", ("Union", "Intersection")),
    ("vault_request", ["P05", "P11", "P23"], "proof", ("Request", "SetRequest") + tuple(a + "Request" + b for a in ("", "Set") for b in ("Equal", "GreaterOrEqual", "Greater", "Less", "LessOrEqual", "Interval"))),
    ("vault_sets", ["P04", "P10", "P11", "P23"], "proof", ("AddRecord", "CheckRecord", "SetClear", "Join", "Exclude", "Intersect", "SetRemove", "SetSize", "SetEqual", "SetUnequal")),
]
if __import__("os").environ.get("XGROUP"):
    m, n = __import__("os").environ["XGROUP"].split(":")
    GROUPS.append((m, ["PX"], "proof", tuple(x for x in n.split(",") if x)))
