"""Writes properties.jsonl. Run from /verif: python3 tools/properties.py"""
import json

L = "lazy_type_hint/"
D = L + "data_type_tree/"
G = D + "generic_type/"
S = D + "simple_data_type_tree/"
OPS = G + "set_and_sequence_operations.py"
DICT = G + "dict_data_type_tree.py"
TREE = D + "data_type_tree.py"


def prop(id, title, statement, over, text, why, files, *mechanism):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}


NEST = ("every value built from numbers, strings, None, custom instances, classes, lists, tuples, sets, frozensets, "
        "dictionaries, mapping proxies and iterators, at any depth, times every combination of strategies")

PROPS = [
    prop("C01", "Soundness: the data is an instance of the type generated for it",
         "For any Python value and any strategies, the value is an instance of the type that the generated module describes "
         "for it: every element, key, item and attribute that was inspected is allowed by the type written for its position, "
         "at every level of nesting. In particular no element, key or alternative met within the scan limit is missing from "
         "the type, and a key is never described as required when some of the dictionaries described lack it.",
         ["inputs", "configurations"], NEST,
         "The tests compare the text of about two hundred hand written values; the interplay of nesting, repeated and "
         "similar elements, naming and strategies is unbounded and each combination takes a different path.",
         [TREE, OPS, DICT, G + "generic_data_type_tree.py", D + "factory.py"],
         ("collection of the distinct children of a container", OPS + "::instantiate_children"),
         ("equality of types used to drop repetitions", TREE + "::__eq__"),
         ("rendering of references between definitions", G + "generic_data_type_tree.py::_get_types")),
    prop("C02", "Exactness: the generated type says nothing the data does not show",
         "Every alternative of a union, every key of a TypedDict, and every key marked as not required in the generated "
         "module is witnessed by some part of the data, repeated types appear once, and `Any` is used only for empty "
         "containers. `int` is dropped from a union only when a float is present next to it, and no key, element or "
         "position takes the type of another one.",
         ["inputs", "configurations"], NEST,
         "Over-approximations (a stale alternative, a key that is optional without reason, Any) are invisible to tests that "
         "do not use the exact values that provoke them.",
         [TREE, OPS, DICT, G + "generic_data_type_tree.py"],
         ("removal of repeated types", G + "generic_data_type_tree.py::_get_types"),
         ("not required keys of merged dictionaries", DICT + "::from_multiple_dict_data_type_trees")),
    prop("C03", "The generated type is the one the strategies ask for",
         "Lists are described as List or Sequence, tuples with a fixed or with any size, dictionaries whose keys are all "
         "strings as TypedDict, Dict or Mapping and the rest of dictionaries as Dict or Mapping, exactly as each strategy "
         "says and at every level of the data. Keys of TypedDicts are marked as read only if and only if this was asked, "
         "sets, frozensets, iterators and mapping proxies keep their kind, None is Optional[object], classes are Type[...] "
         "and custom objects are referred to by the name of their class.",
         ["inputs", "configurations"], NEST,
         "There are 48 combinations of strategies per value; tests fix one strategy at a time on one value.",
         [L + "strategies.py", D + "factory.py", DICT, G + "list_data_type_tree.py", G + "tuple_data_type_tree.py",
          G + "mapping_data_type_tree.py"],
         ("choice of the description of each kind of data", D + "factory.py::data_type_tree_factory"),
         ("dictionary strategies", DICT + "::_get_str_top_node")),
    prop("C04", "Similar dictionaries are merged exactly when they may be",
         "Two or more different dictionaries that are elements of one collection and described as TypedDicts are described by "
         "a single one if and only if the percentage (rounded down) of their keys that all of them have reaches the "
         "configured similarity and every key that several of them have has the same type in them, int and float being "
         "taken as float. The merged type has all of their keys, and a key is marked as not required if and only if one of "
         "the dictionaries lacks it.",
         ["inputs", "configurations"],
         "every family of dictionaries within lists, tuples and other collections, at any depth, and every similarity from 1 "
         "to 100",
         "Tests try a few pairs of dictionaries with fixed ratios; the decision depends on the number of dictionaries, on all "
         "the ratios around the limit, on nested merges and on the order of the elements.",
         [OPS, DICT],
         ("decision to merge", OPS + "::_merge_similar_typed_dicts"),
         ("comparison of keys", DICT + "::compare_multiple_typed_dicts_based_trees"),
         ("merged dictionary", DICT + "::from_multiple_dict_data_type_trees")),
    prop("C05", "The scan limit is equivalent to truncating the data",
         "Generating types with a limit of n elements gives the same type as generating them without limit for the data in "
         "which every list, tuple, iterator and mapping (TypedDicts aside) keeps only its first n elements, at every level. "
         "No limit means that every element is inspected.",
         ["inputs", "configurations"], NEST + ", the limit included",
         "Tests check single containers near the limit; that the limit applies at each level, counts neither more nor less "
         "and does not depend on the kind of container is a statement about all data.",
         [OPS, DICT, G + "mapping_data_type_tree.py", L + "strategies.py"],
         ("limit for sequences", OPS + "::instantiate_children"),
         ("limit for mappings", DICT + "::_instantiate_children")),
    prop("C06", "The generated module is well formed",
         "The text generated for any data is a valid Python module that can be imported, in which every name is defined or "
         "imported before it is used, is defined only once and does not hide an import or a builtin, and whose last "
         "definition has the requested class name. Everything that is imported comes from the module that provides it, "
         "imports are not repeated, and every definition is needed by the last one.",
         ["inputs", "configurations"],
         NEST + ", with any strings as keys, so that the names derived from them collide",
         "Names of definitions are derived from the keys and from the shape of the data; collisions need particular "
         "combinations of keys that tests do not enumerate.",
         [TREE, G + "generic_data_type_tree.py", DICT, L + "utils/import_manager.py", L + "utils/utils.py"],
         ("unique names", TREE + "::_make_names_unique"),
         ("imports", L + "utils/import_manager.py"),
         ("order of definitions", TREE + "::get_strs_all_nodes_unformatted")),
    prop("C07", "Which types get a name depends on the height and never changes the meaning",
         "A container is written in place if its height does not exceed the configured minimum, and it gets a definition of "
         "its own otherwise; TypedDicts, DataFrames and callables with a signature always have one. Whatever the minimum, "
         "the type that the module describes, once its names are replaced by what they stand for, is the same.",
         ["inputs", "configurations"], NEST + ", and every pair of minimum heights",
         "It relates two runs over the same data; tests only look at single runs with shallow values.",
         [TREE, G + "generic_data_type_tree.py"],
         ("permission to have a name", TREE + "::permission_to_be_created_as_type_alias"),
         ("height", TREE + "::_get_height")),
    prop("C08", "Generation is deterministic and rendering does not change anything",
         "The text generated for the same ordered data with the same strategies is the same in every process, for every "
         "object that asks for it and however many times it is asked for, in any order, with and without imports and "
         "regardless of what else was generated before. Rendering without imports gives the same definitions and no import.",
         ["histories", "schedules", "inputs"],
         "every history of renderings of several trees in processes with different hash seeds",
         "Each test renders once in one process; dependence on hash seeds, caches and previous renderings needs histories.",
         [TREE, L + "generators/lazy_type_hint_abc.py", L + "utils/ordered_set.py", L + "utils/import_manager.py"],
         ("rendering", TREE + "::get_strs_all_nodes_unformatted"),
         ("ordering of types", G + "generic_data_type_tree.py::_get_types")),
    prop("C09", "Order and repetition of the elements do not matter",
         "The type generated for a value does not change when the elements of its lists, any-size tuples, and sets or the "
         "items of its dictionaries are permuted, when elements of lists and any-size tuples are repeated, or when objects "
         "are replaced by other objects of the same type.",
         ["inputs", "histories"], NEST + ", without limit, and every permutation and repetition at each level",
         "It relates two inputs; the tests do not compare inputs among them.",
         [OPS, DICT, TREE],
         ("equality and hash of types", TREE + "::__eq__, __hash__ and the _get_hash methods"),
         ("merge", OPS + "::_merge_similar_typed_dicts")),
    prop("C10", "The inspected data and the strategies are left untouched",
         "Generating types leaves the data as it was: same objects at the same places, in the same order, with the same "
         "contents (positions of files included), and the strategies given are not modified. One-shot iterators that have "
         "to be consumed are the only exception.",
         ["inputs", "histories"], NEST + ", described and rendered any number of times",
         "No test looks at its input after the call.",
         [OPS, DICT, TREE, L + "generators/lazy_type_hint.py"],
         ("inspection of the data", "the _instantiate_children methods"),
         ("hidden keys with documentation", DICT + "::_instantiate_children")),
    prop("C11", "The live interface offers exactly the classes generated since the last reset",
         "After any history of calls to LazyTypeHintLive, by any number of instances and processes, the interface file offers "
         "one overload of from_data and one of from_yaml_file for each class name that was accepted since the last reset, in "
         "order of first appearance, plus a last one for any other class name, and imports every class from its own file. "
         "That file holds the type hints LazyTypeHint generates for the last data accepted under that name. The data given is "
         "returned as it is. Calls with an invalid class name, or made while the file of an offered class is missing, raise "
         "and change nothing; reset leaves the package as if nothing had been generated.",
         ["histories", "schedules"],
         "every history of generations (both modes, several instances, processes, class names, data and YAML files), resets "
         "and losses of files",
         "Tests perform one or two calls from a clean state; the interface is rewritten from what was left by every call before.",
         [L + "generators/lazy_type_hint_live.py", L + "file_modifiers/py_file_modifier.py",
          L + "file_modifiers/pyi_file_modifier.py", L + "utils/utils.py"],
         ("interface rewriting", L + "generators/lazy_type_hint_live.py"),
         ("edition of Python files", L + "file_modifiers/py_file_modifier.py")),
    prop("C12", "Validation accepts exactly the data whose type hints are the stored ones",
         "With if_type_hint_exists=\"validate\", data given under an already generated class name is accepted if the type hints "
         "generated for it are the stored ones, documentation aside, and it is rejected with an error whenever its type "
         "differs from the stored one. Rejected data leaves the interface and the stored type hints as they were, and what "
         "was accepted before is still accepted afterwards.",
         ["inputs", "histories"], "every pair of values of " + NEST + ", generated one after the other under the same name",
         "It relates two inputs and the files left by the first one; tests try a single pair.",
         [L + "generators/lazy_type_hint_live.py", L + "utils/utils.py"],
         ("comparison with the stored type hints", L + "generators/lazy_type_hint_live.py::from_data, _remove_docstrings")),
    prop("C13", "A crash while live type hints are generated leaves a usable state",
         "If the process dies at any point of a generation or of a reset, the interface that is left is complete and valid, "
         "and is either the previous or the new one; every class it offers has its file, which is complete and is either the "
         "previous or the new one; no temporary file is offered; and any later generation or reset works from that state.",
         ["crash_points", "histories"], "every point of every generation and reset, after every history of a bounded universe",
         "No test interrupts a call.",
         [L + "generators/lazy_type_hint_live.py", L + "utils/utils.py", L + "file_modifiers/py_file_modifier.py"],
         ("replacement of files", L + "generators/lazy_type_hint_live.py::_write_atomically"),
         ("order of writing", L + "generators/lazy_type_hint_live.py")),
    prop("C14", "Reading the comments of a YAML file never changes the types nor the data",
         "For every YAML file and every choice of positions of comments, from_yaml_file generates the type hints that "
         "from_data generates for the loaded content of that file, documentation aside; it fails only if the loader fails or "
         "the path is not a YAML file; the file is not modified, no temporary file is left behind, the loader is given the "
         "path with the type it was given with, and LazyTypeHintLive returns the content of the file and nothing else.",
         ["inputs", "configurations"],
         "every YAML file (any comments, quotes, block scalars, flow collections, anchors, tags, encodings) and every "
         "combination of positions",
         "Comments are read by rewriting the file line by line without a YAML parser: what breaks it is unbounded.",
         [L + "file_modifiers/yaml_file_modifier.py", L + "generators/lazy_type_hint_abc.py"],
         ("rewriting of the file", L + "file_modifiers/yaml_file_modifier.py::_create_temporary_string_with_comments_as_keys"),
         ("use of the rewritten file", L + "generators/lazy_type_hint_abc.py::from_yaml_file")),
    prop("C15", "Comments of YAML files document the key they belong to",
         "Each key of a TypedDict generated from a YAML file is documented with the comments of that key, at the requested "
         "positions and in the requested order: the comment by its side, or the block of consecutive comments aligned with it "
         "right above or below it. The text of the comment is kept, joined in sentences and paragraphs, and no key gets the "
         "comment of another one or a comment that does not exist.",
         ["inputs", "configurations"],
         "every arrangement of keys, nested mappings, lists, values, blank lines and comments, and every order of positions",
         "Attribution depends on the neighbouring lines, their columns and the nesting: tests use three fixed files.",
         [L + "file_modifiers/yaml_file_modifier.py", DICT],
         ("extraction of comments", L + "file_modifiers/yaml_file_modifier.py::_extract_comments"),
         ("documentation of keys", DICT)),
    prop("C16", "Documentation within the data documents its TypedDict and nothing else",
         "When a key is given to hold the documentation, each generated TypedDict is documented with the text found under that "
         "key in one of the dictionaries it describes (only texts count), without losing or altering words or paragraphs and "
         "ending in a dot, in lines no wider than 90 characters, whatever characters the text has. The type generated for the "
         "data is the same as without documentation, and the module is well formed.",
         ["inputs", "configurations"], "every text, in dictionaries at any depth, under any key, times every strategy",
         "The text goes through wrapping, escaping and rendering, and repeated or merged dictionaries share a definition: the "
         "tests use a few short texts.",
         [L + "utils/docstring_formatter.py", DICT],
         ("formatting of the docstring", L + "utils/docstring_formatter.py"), ("placement of the docstring", DICT)),
    prop("C17", "Files are written where, and as, requested",
         "to_file writes exactly the text of to_string() to the requested file, as UTF-8 and whatever the locale, replacing "
         "what was there; it makes the missing directories only when allowed to, and when it cannot write it fails "
         "without making or changing any file or directory. No other file is touched.",
         ["histories", "configurations"],
         "every history of calls with existing and missing directories and files, in different locales",
         "Tests write a single file in a single directory, in the locale of the developer.",
         [TREE], ("writing of files", TREE + "::to_file")),
    prop("C18", "Invalid requests are rejected, without effects",
         "Names that are not those of a class, strategies out of their documented values, YAML files that do not exist or with "
         "other extension when their comments are wanted, and contradictory positions for the comments are rejected with an exception, leaving no file "
         "behind; whatever is valid is accepted, and LazyTypeHint writes no files by itself.",
         ["inputs", "configurations"], "every combination of name, strategies, file and positions, valid or not, in the four entry points",
         "The tests check one wrong value at a time, for some of the parameters and one of the entry points.",
         [L + "strategies.py", L + "generators/lazy_type_hint_abc.py", L + "generators/lazy_type_hint.py",
          L + "generators/lazy_type_hint_live.py", L + "file_modifiers/yaml_file_modifier.py"],
         ("validation of the strategies", L + "strategies.py::__post_init__"),
         ("validation of names and files", L + "generators/lazy_type_hint_abc.py")),
    prop("C19", "Callables are described by their signature",
         "Functions and methods, static or not, asynchronous or not, wrapped or not, are described by a Protocol that can be called exactly as them: the same "
         "parameters in the same order and of the same kind, with their annotations and default values (an ellipsis when they "
         "cannot be written), without the one already bound, and the returned type they declare; without it, None only when "
         "nothing is returned or yielded in their source, and Any otherwise. Lambdas are described by their number of "
         "arguments, and callables without a signature as Callable. Those with the same description share it within a container, and "
         "those with a different one never do.",
         ["inputs", "configurations"], "every shape of signature, annotation, default and body, alone or within containers, times every strategy",
         "The tests describe some twenty functions; the text of a signature is made and parsed again by string operations.",
         [S + "function_data_type_tree.py", L + "utils/import_manager.py"],
         ("rendering of signatures", S + "function_data_type_tree.py::_get_protocol_str"),
         ("symbols to be imported", L + "utils/import_manager.py::import_all_unkown_symbols_from_signature")),
    prop("C20", "Tables are described by their columns, and by what each of them holds",
         "A pandas DataFrame is described, wherever it is found, by a class with one overload of `__getitem__` for each of "
         "its columns and no other, in order, returning a Series of exactly the types that the column holds or, with several "
         "levels of columns, another such class; besides, by what else it may be asked for. A Series is described by the types it "
         "holds. With `Do not type hint columns` only the names of the columns are written, and if the names are repeated, "
         "cannot be written or there are none, it is just a DataFrame. Two tables share a description if and only if their names "
         "and types are the same. Index, dtype and order of rows are irrelevant; the table is never altered.",
         ["inputs", "configurations"],
         "every DataFrame with any names and levels of columns, dtypes, cells and index, alone or within containers, times every strategy",
         "The tests describe a dozen tables with one or two columns each.",
         [G + "pandas_data_frame_data_type_tree.py", G + "pandas_series_data_type_tree.py"],
         ("overloads of the columns", G + "pandas_data_frame_data_type_tree.py::_get_str_top_node"),
         ("whether it is written as a class", G + "pandas_data_frame_data_type_tree.py::permission_to_be_created_as_type_alias")),
    prop("C21", "Objects of every class are described, and never disturbed",
         "Any object of the standard library, of numpy and pandas or of a custom class (with odd equality, truth, hash, attributes "
         "or metaclass; enumerations, named tuples, files, modules, iterators, subclasses of builtins...) found within the "
         "data is described without failing by what its class inherits from: containers and their subclasses as containers with what they hold, "
         "iterators as Iterator of what they yield, modules and files as such, arrays by the scalar type they hold, classes as Type[...], "
         "builtin objects by their class and the rest by the name of their class within quotes. Neither the files are read nor the "
         "objects altered, and the result can be imported.",
         ["inputs", "configurations"], "objects of some 230 classes, alone, repeated or mixed within containers, times every strategy",
         "The tests use two or three custom classes; what is asked to an object (equality, hash, truth, length, attributes) depends on "
         "its neighbours.",
         [TREE, S + "instance_data_type_tree.py", S + "type_data_type_tree.py", S + "simple_data_type_tree.py"],
         ("choice of the tree for a class", TREE + "::get_subclass"),
         ("equality of instances", S + "instance_data_type_tree.py::_get_hash")),
    prop("C22", "Any text may be a key, and the module defines what it says once imported",
         "Whatever text the keys of the data are (quotes, escapes, keywords, private or dunder names, other alphabets, control "
         "characters, surrogates, or the names that the generator itself uses), the generated file can be imported, and what Python then "
         "understands by the requested name, following the definitions and looking at the keys that are required and read only at run "
         "time, is the type specified for the data: no key is altered, mangled, lost or swapped.",
         ["inputs", "configurations"], "every text as a key, in every dictionary at any depth, times every strategy and class name",
         "The space of texts is unbounded and Python alters identifiers (mangling, NFKC, escapes) in ways that comparing texts does not show.",
         [DICT, G + "mapping_data_type_tree.py", TREE],
         ("class or functional syntax", DICT + "::_build_typed_dict"),
         ("names of the definitions", G + "mapping_data_type_tree.py::_to_camel_case")),
    prop("C23", "Processes that work at once never damage the live type hints",
         "Two processes that generate live type hints at the same time, of the same or of different classes and stopped at any "
         "point of their work, succeed as they would have done alone, and at every moment: no file is half written, the interface "
         "refers only to classes whose type hints are complete and are the ones of one of the processes (or those that there were "
         "before), whatever was offered before is still offered, and in the end at least the class of one of them was added.",
         ["schedules", "inputs"], "every pair of generations, every state they start from, and every interleaving in which each process is interrupted once",
         "Tests are sequential; what goes wrong needs one process to be stopped between two particular calls to the operating system.",
         [L + "generators/lazy_type_hint_live.py"],
         ("writing of the files", L + "generators/lazy_type_hint_live.py::_write_atomically"),
         ("interface read again before being changed", L + "generators/lazy_type_hint_live.py::from_data")),
]

if __name__ == "__main__":
    with open("properties.jsonl", "w", encoding="utf-8") as file:
        for p in PROPS:
            file.write(json.dumps(p) + "\n")
