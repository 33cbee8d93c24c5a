# executables: harness sources, library modules, extra compile flags, variant
EXES = {
    "codec": dict(src=["p_codec.cpp"], mod=["core", "coder", "xml"]),
    "robust": dict(src=["p_robust.cpp"], mod=["core", "coder", "xml"]),
    "dict": dict(src=["p_dict.cpp"], mod=["core", "coder", "xml"]),
    "scalar": dict(src=["p_scalar.cpp"], mod=["core", "coder", "xml"]),
    "container": dict(src=["p_container.cpp"], mod=["core", "xml"]),
    "value": dict(src=["p_value.cpp"], mod=["core", "coder", "xml"]),
    "alloc": dict(src=["p_alloc.cpp"], mod=["core", "coder", "xml"]),
    "json": dict(src=["p_json.cpp"], mod=["core", "coder", "xml", "json"]),
    "decimal": dict(src=["p_decimal.cpp"], mod=["core", "coder", "xml"]),
    "enum": dict(src=["p_enum.cpp"], mod=["core", "coder", "xml"]),
    "enum_xetra": dict(src=["p_enum.cpp"], mod=["core", "coder", "xml"], variant=("xetra",)),
    "fields": dict(src=["p_fields.cpp"], mod=["core", "coder", "xml"]),
    "view": dict(src=["p_view.cpp"], mod=["core", "coder", "xml"]),
    "xml": dict(src=["p_xml.cpp"], mod=["core", "coder", "xml"]),
    "sqlite": dict(src=["p_sqlite.cpp"], mod=["core", "coder", "xml", "sqlite"]),
    "gen": dict(special="gen", src=["p_gen.cpp"], mod=["core", "coder", "xml"]),
    "gen_xetra": dict(special="gen", src=["p_gen.cpp"], mod=["core", "coder", "xml"], variant=("xetra",)),
    "xml_xetra": dict(src=["p_xml.cpp"], mod=["core", "coder", "xml"], variant=("xetra",)),
    "v2": dict(special="v2", src=["p_v2.cpp"], mod=["core", "coder", "coder2", "xml"]),
}

# property -> parts (executable, part name)
PROPS = {
    "C01": [("codec", "C01.runtime"), ("codec", "C01.known")],
    "C02": [("v2", "C02.generated"), ("v2", "C02.known")],
    "C03": [("v2", "C03.interop"), ("v2", "C02.known")],
    "C04": [("codec", "C04.v1"), ("v2", "C04.v2"), ("codec", "C01.known"), ("v2", "C02.known")],
    "C05": [("codec", "C05.v1"), ("v2", "C05.v2")],
    "C06": [("robust", "C06.v1"), ("v2", "C06.v2")],
    "C07": [("robust", "C07.v1"), ("v2", "C07.v2")],
    "C08": [("robust", "C08.v1"), ("v2", "C08.v2")],
    "C09": [("dict", "C09.share"), ("dict", "C09.documents"), ("dict", "C09.mismatch")],
    "C10": [("robust", "C10.v1"), ("v2", "C10.v2")],
    "C11": [("scalar", "C11.values"), ("scalar", "C11.entities")],
    "C12": [("scalar", "C12.write"), ("scalar", "C12.read")],
    "C13": [("value", "C13.messages")],
    "C14": [("container", "C14.containers")],
    "C15": [("value", "C15.sequences")],
    "C16": [("alloc", "C16.blocks"), ("alloc", "C16.reuse"), ("alloc", "C16.codec"), ("v2", "C16.v2")],
    "C17": [("xml", "C17.definitions"), ("xml", "C17.invalid"), ("xml", "C17.mutate"), ("xml_xetra", "C17.xetra")],
    "C18": [("gen", "C18.description"), ("gen", "C18.accessors"), ("gen", "C18.known"), ("gen_xetra", "C18.xetra_description"), ("gen_xetra", "C18.xetra_accessors")],
    "C19": [("json", "C19.encode")],
    "C20": [("json", "C20.valid"), ("json", "C20.invalid")],
    "C21": [("decimal", "C21.decimals"), ("decimal", "C21.initial")],
    "C22": [("view", "C22.views"), ("view", "C22.invalid")],
    "C23": [("sqlite", "C23.rows")],
    "C24": [("enum", "C24.enums"), ("enum", "C24.invalid"), ("enum_xetra", "C24.xetra"), ("enum_xetra", "C24.xetra_invalid")],
    "C25": [("codec", "C25.runtime"), ("v2", "C25.v2")],
    "C26": [("fields", "C26.fields")],
}

# property -> (technique, level note)
NOTES = {
    "C01": ("property-based testing: generated template sets and message histories, round trip against the generated values",
            "random search over schemas x histories; no absence claim"),
    "C02": ("property-based testing: message histories through codecs compiled from generated template sets, round trip against the generated values",
            "random search over histories of 12 (thorough: 24) compiled schemas per seed"),
    "C03": ("property-based testing: differential runs of the runtime and the generated codec on the same histories, both directions and byte equality",
            "random search over histories of 12 (thorough: 24) compiled schemas per seed"),
    "C04": ("property-based testing: every encoder output is read by an independent reference decoder", "random search"),
    "C05": ("property-based testing: streams from an independent reference encoder making arbitrary legal choices are decoded and compared", "random search"),
    "C06": ("structured fuzzing: mutated streams in a sanitized build, with a reference decoder as oracle for every message it can judge",
            "random search over template sets x mutated streams"),
    "C07": ("fault injection into reference streams (unknown templates, illegal omissions, D6/D7 deltas, cuts) with the requirement that an error is reported",
            "random search"),
    "C08": ("property-based testing: metamorphic comparison of an encoder/decoder with a history and a fresh one after a reset", "random search"),
    "C09": ("property-based testing: template sets that share dictionary entries in every way, against a reference codec that resolves the entries itself",
            "random search over template sets x histories"),
    "C10": ("property-based testing: every kind of output buffer around the exact size, compared with the growing buffer", "random search"),
}
NOTES.update({
    "C11": ("property-based testing: generated values against an exact model of the transfer encoding, in both directions; arbitrary stop-bit entities against exact arithmetic",
            "random search with boundary bias"),
    "C12": ("property-based testing: generated bit strings against a model of presence maps, in both directions", "random search"),
    "C16": ("property-based testing (stateful): random histories of allocator calls against a model of live blocks, repeated workloads with a bound on the memory held, and codec histories with a checking allocator",
            "random search"),
    "C19": ("property-based testing: JSON output for generated templates and messages read by an independent strict parser, and decoded back",
            "random search over templates x messages"),
    "C20": ("property-based testing: arbitrary legal renderings of messages decoded and compared; fuzzing with spoiled, cut and mutated texts under AddressSanitizer",
            "random search over templates x texts"),
    "C25": ("property-based testing: histories of messages nested by dynamic template references through encoders, decoders, an independent reference codec, comparison and copies",
            "random search over template sets x histories"),
    "C13": ("property-based testing (stateful): random histories of operations on several messages against plain value trees, with a checking allocator under AddressSanitizer",
            "random search"),
    "C15": ("property-based testing (stateful): random histories of operations on sequences against a vector of value trees, with a checking allocator under AddressSanitizer",
            "random search"),
    "C14": ("property-based testing (stateful): random histories of container operations against std::vector and std::string, under AddressSanitizer", "random search"),
})
NOTES["C21"] = ("property-based testing (stateful): random histories of operations on decimal fields against exact decimal arithmetic", "random search with boundary bias")
NOTES["C26"] = ("property-based testing: messages of generated templates read and changed through lookups, iterators, visitors, casts, printing and conversions, compared with the fields addressed by their position and with a value tree",
                "random search over templates x messages")
NOTES["C22"] = ("property-based testing: generated views over generated templates, iterated for generated messages and compared with the fields read directly; invalid views",
                "random search over definitions x messages")
NOTES["C24"] = ("property-based testing: generated enumerations, booleans and sets in every form of definition, in both build configurations: tables, names, values, initial values and histories through the codec against a model",
                "random search over definitions x values")
NOTES["C17"] = ("property-based testing: generated template documents compared field by field with a model of the FAST defaults and inheritance; documents spoiled in one place must be refused; fuzzing with mutated documents under AddressSanitizer",
                "random search over documents")
NOTES["C18"] = ("property-based testing: random template documents through the type generator and the compiler; the description in the generated code against the model of the document, every accessor called with random values against the untyped fields",
                "random search over documents x accessor histories")
NOTES["C23"] = ("property-based testing (stateful): random templates and message histories exported to a database file, whose tables are compared column by column and row by row with a model of the export",
                "random search over templates x histories")
ASSUME = {}
