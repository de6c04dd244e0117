#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
D = "structmeta-derive/src/"
SM, PA, TT, SU, TA = D + "struct_meta.rs", D + "parse.rs", D + "to_tokens.rs", D + "syn_utils.rs", D + "to_tokens_attribute.rs"
HE, AT = "structmeta/src/helpers.rs", "structmeta/src/arg_types.rs"
props = []
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PARSE = ["the derived syn::parse::Parse implementation (syn::parse_str / parse2 / Attribute::parse_args)"]
IP = ["inputs", "programs"]

P("C01", "Every named argument sets exactly its own field, in any order",
  "When an argument list is accepted, each named field holds exactly the value written after its own name (lists keep their written order), and no argument has any effect on another field. The order in which named arguments are written, and the order in which the fields are declared, make no difference to the parsed values.",
  IP, "all derived structs (any number, style and declaration order of named fields) and all argument lists",
  "Tests parse one or two hand-picked lists per struct with at most two named fields, nearly always in declaration order; none crosses styles, permutes arguments or uses many fields.",
  [SM, HE], [("named parameter table sorted by name, indexed per style; match on style and index", SM), ("name lookup per style", HE)], PARSE,
  [("per-field temporary", "value of a named parameter, None until its argument has been seen", SM)])

P("C02", "A named parameter accepts exactly the argument forms of its type",
  "A field of type bool or Flag takes only `name`; T or NameValue<T> takes only `name = value`; NameArgs<T> takes only `name(args)` where one T fills the parentheses; Vec<T> or NameArgs<Vec<T>> takes only `name(arg, arg, ...)` with any number of arguments. An Option inside NameValue or NameArgs additionally allows the bare `name` (giving None), and wrapping the whole type in Option changes when the argument may be left out but not its form. Every other form is rejected, and white space between tokens never matters (`x=-1` is `x = -1`).",
  IP, "all field types of the documented table, alone and combined with other parameters, and all argument spellings",
  "Each style has one or two positive tests and a few compile-fail cases; the cross product of styles, wrappers, other declared styles and wrong or badly spaced forms is not sampled.",
  [SM, HE], [("classification of a field type into a style", SM), ("look-ahead after the name", HE)], PARSE)

P("C03", "Parameters that are left out get their default or fail the parse",
  "When an argument is not given, a bool or Flag field is off, a field of type Option is None, a rest map has no entry and a variadic field is empty; every other field makes the parse fail with an error that names the missing parameter. A parameter that is required stays required whatever other arguments are given, and one that may be left out never causes a failure by being absent.",
  IP, "all derived structs and all subsets of their parameters given",
  "Tests leave out one parameter of one struct; only one compile-fail case checks a missing named argument and its message.",
  [SM], [("constructor arguments built from the temporaries", SM)], PARSE)

P("C04", "A named parameter given more than once is always rejected",
  "An argument list that gives the same named parameter twice, for declared parameters of every style and for names collected by a rest map alike, is rejected, in whatever mix of accepted forms, at whatever distance and with equal or different values. No duplicate is ever resolved silently by keeping the first or the last value.",
  IP, "all derived structs, all pairs of arguments for the same parameter, all arguments between and after them",
  "Two compile-fail cases cover one NameValue struct with adjacent duplicates; flags, lists, or-flag forms, rest entries of each style and distant duplicates are untested.",
  [SM], [("is_some test before a named parameter is assigned", SM), ("insert result of the rest map", SM)], PARSE)

P("C05", "Unnamed arguments fill the unnamed fields by position",
  "Unnamed arguments fill the unnamed fields in declaration order: first all required ones, then the optional ones, and whatever remains goes in order into the variadic field, regardless of named or rest fields declared in between. Too few arguments for the required fields, or more arguments than fields when there is no variadic field, are rejected.",
  IP, "all derived structs with required, optional and variadic unnamed fields and all argument counts",
  "Tests use at most two unnamed fields and two or three arguments, never interleaved with named fields and never with three or more of one sort.",
  [SM], [("required prologue, index match for optional fields, push arm for the variadic field", SM)], PARSE,
  [("unnamed index", "how many optional or variadic arguments have been taken", SM)])

P("C06", "Argument lists are comma separated, unnamed first, and nothing is dropped",
  "Arguments are separated by exactly one comma, one trailing comma after the last argument is allowed, and a leading, doubled or missing comma is rejected. An unnamed argument after a named one is always rejected. A list is accepted only if every token in it, including inside the parentheses of every argument, was used for some field.",
  IP, "all derived structs and all token sequences formed from arguments and separators",
  "No test has a doubled, leading or missing comma, a trailing comma after each sort of argument, or an unnamed argument after each sort of named argument.",
  [SM, HE], [("is_next flag and the named_used flag of the argument loop", SM)], PARSE,
  [("named_used", "a named argument has been parsed", SM), ("is_next", "a comma must come before the next argument", SM)])

P("C07", "The rest map collects exactly the named arguments no field takes",
  "A field of type HashMap<String, P> receives, under the name as written, every named argument in a form of P that no declared parameter takes by name and form, with its value unchanged. It never receives an argument that a declared parameter takes, never receives unnamed arguments, and arguments in a form that neither a declared parameter of that name nor P has are rejected.",
  IP, "all value types P, all sets of declared parameters beside the rest map, and all argument lists",
  "One test uses a rest map of LitStr with no declared parameter, one doc test a single declared parameter; the other seven value types and mixed styles are not exercised.",
  [SM, HE], [("rest flag per style next to the name table per style", HE), ("rest arms of the argument match", SM)], PARSE)

P("C08", "Name-like arguments are told from unnamed values as documented",
  "When a struct has optional or variadic unnamed fields, an argument that starts like `name`, `name = ...` or `name(...)` is parsed as a named argument if and only if the struct has some parameter (declared or rest) that takes that form; an unknown name in such a form is then an error, never an unnamed value, and in the other forms the argument is an unnamed value. With name_filter = \"snake_case\", only identifiers made of ASCII lower-case letters, digits and underscores count as names and all others are unnamed values. Required unnamed fields take their arguments first, whatever these look like.",
  IP, "all combinations of declared styles, unnamed fields and filter, and all arguments starting with an identifier",
  "The tests have about eight hand-picked struct/argument pairs; the 2x2x2 table of declared styles against the forms, the filter and expression look-alikes (==, calls followed by more tokens) is not covered.",
  [SM, HE], [("may_flag / may_name_value / may_name_args and no_unnamed look-ahead", HE), ("is_snake_case filter", HE)], PARSE)

P("C09", "Fields are unnamed or named, with the right name, as their attributes say",
  "A field of a record struct is a named parameter called like the field (without r#), a field of a tuple struct is unnamed; name = \"...\" makes either a parameter of exactly that name (keywords included, and the field name is then no longer accepted), and unnamed makes a record field unnamed. A parameter is matched only by its exact full name as spelled in the argument, case included.",
  IP, "all field names and attribute settings, and all argument names",
  "Tests cover one record field per setting with one accepted argument and no rejected one: near-miss names, case, prefixes and the original name after renaming are never tried.",
  [SM, HE], [("name derivation from ident and struct_meta attribute", SM), ("exact name lookup", HE)], PARSE)

P("C10", "A rejected argument list is reported at the offending argument",
  "When an argument list is rejected because of one argument (unknown name, wrong form, duplicate, misplaced or superfluous argument, malformed value), the error lies inside that argument, and for all but malformed values at its first token. The message for a known name in a wrong form lists exactly the forms that name accepts, an unknown name or duplicate is quoted, a missing named parameter is quoted, and a list that ends after some, but too few, unnamed arguments is reported with the numbers needed and given.",
  IP, "all derived structs and all rejected argument lists",
  "About fifteen compile-fail cases check single messages; location and content for combinations of styles, rest maps, later positions and nested arguments are not sampled.",
  [SM, HE], [("errors built from the expected forms and the name", HE), ("missing and duplicate messages", SM)], ["syn::Error::span and message of the failed parse"])

P("C11", "A misspelt name is answered with the one nearest parameter name, or none",
  "The error for an unknown parameter name suggests a declared name if and only if exactly one declared name is nearest to it among those that differ by one inserted, removed or replaced character (distance 1) or by swapping two neighbouring characters (distance 2). With several equally near names, or none that near, no name is suggested, whatever the order or styles of the declared parameters.",
  IP, "all sets of declared names and all unknown names",
  "A unit test has six pairs of one or two characters and a compile-fail case has one name; ties, several candidates, positions and lengths are not covered.",
  [HE], [("find_similar_name and distance", HE)], ["message of the failed parse"])

P("C12", "Spans in parsed values point at the tokens the user wrote",
  "After a successful parse, the span of a Flag and the name_span of NameValue and NameArgs are the position of that argument's name, for declared parameters and rest entries alike, and every value keeps the positions of its own tokens. A Flag that was not given has no span.",
  IP, "all derived structs and all accepted argument lists",
  "No test looks at a span: Flag, NameValue and NameArgs compare equal whatever their spans are.",
  [SM, HE, AT], [("span returned with the name and stored in the argument types", HE), ("parse expressions of the styles", SM)], ["Flag::span, NameValue::name_span, NameArgs::name_span, spans of value tokens"])

P("C13", "Field types are recognised however they are written",
  "bool, Flag, NameValue, NameArgs, Option, Vec and HashMap<String, _> are recognised by any trailing part of their usual paths (`Option`, `option::Option`, `std::option::Option`, `core::option::Option`, with or without leading `::`), and also when the type reaches the definition through a macro_rules fragment. A type with the same last name in another module is an ordinary value type and behaves like any T.",
  ["programs"], "all spellings of the recognised types and all look-alike types",
  "Four unit tests look at the helper for Option only; the other types, look-alikes and macro-provided types are untested.",
  [SM, SU], [("get_arguments_of / is_match_ns path suffix match", SU), ("get_*_element and is_* helpers", SM)], PARSE)

P("C14", "Invalid argument struct definitions are compile errors, valid ones compile",
  "A definition with two parameters of the same name, two rest maps, an unnamed field after the variadic one, a required unnamed field after an optional one, an unnamed field of a named-only type, an unknown or malformed struct_meta setting, or on anything but a struct is rejected at compile time with an error of the derive itself that points at the field or setting concerned, never by a macro panic, never silently and never only by errors about the generated code. Field types whose values cannot be parsed (Option<bool>, Option<Flag>, maps of flags, non-Parse types) are compile errors too, at least one of them at that field. Every other definition of the documented forms compiles.",
  ["programs"], "all struct definitions built from the documented field sorts and attribute settings",
  "Compile-fail cases cover seven definitions, none of the derive-time order or duplicate rules.",
  [SM, SU], [("Params::from_fields and Param::from_field checks", SM), ("attribute parsers", SM)], ["rustc diagnostics for the definition"])

P("C15", "Derived types nest: inside another argument they parse as on their own",
  "A derived argument struct used as T in NameArgs<T>, NameArgs<Option<T>> or a rest map accepts between the parentheses exactly the lists it accepts on its own, with the same values, and its failure makes the outer parse fail at that place. What the inner list contains never affects how the arguments around it are parsed.",
  IP, "all pairs of inner and outer structs and all inner and outer argument lists",
  "One compile-fail case nests one struct; no positive nested parse is tested.",
  [SM, HE], [("parse expression for the parenthesised content", SM)], PARSE)

P("C16", "Flag, NameValue and NameArgs compare and combine by value, not by span",
  "Two flags are equal exactly if both are given or both are not, and NameValue / NameArgs are equal exactly if their values are, whatever the spans. Flag::NONE, Flag::default() and Flag::from(false) are off and Flag::from(true) is on; `|` and `|=` give a flag that is on exactly if one side is on, with the span of the left side if that is on and else of the right side.",
  ["inputs"], "all values and spans of the argument types",
  "No test calls `|`, `|=`, NONE, default or value(), and equality is only used through assertions that expect it.",
  [AT], [("PartialEq, From<bool>, BitOr, BitOrAssign implementations", AT)], ["public operators of Flag, NameValue, NameArgs"])

P("C17", "Macro fragments in an argument list count like the tokens they stand for",
  "An argument, the value after `=`, an unnamed value or an item of a list inside parentheses that reaches the derived parser in an invisible (None-delimited) group, as it does when it comes from a macro_rules fragment such as `$e:expr`, `$l:literal`, `$t:ty` or `$m:meta`, is parsed exactly like the same tokens written directly: the same lists are accepted and give the same values and spans. This holds for several groups at once and for groups within groups.",
  IP, "all derived structs, all argument lists and all choices of arguments, values and items to put into invisible groups",
  "Every test parses a string or an attribute written out in the source; none contains an invisible group, although most attributes inside macro_rules macros do.",
  [SM, HE], [("look-ahead on a fork after the name", HE), ("argument loop: separator and end tests", SM)], ["the derived syn::parse::Parse implementation on a TokenStream with Delimiter::None groups"])

P("C18", "Every token sequence gets a value or an error, never a panic or a hang",
  "A derived argument parser answers every token sequence, well formed as an argument list or not, with a value or with an error: it never panics, never runs on for ever, and asked again with the same tokens it gives the same answer. Every error has a message and points into the tokens given (or, where these are missing, to the call site).",
  IP, "all derived structs and all token sequences, including tokens of every sort and groups of every delimiter, invisible ones too",
  "Tests give the parsers argument lists that make sense; none gives arbitrary tokens, and an attribute macro must not panic on anything a user types.",
  [SM, HE], [("argument loop and look-ahead on forks", HE), ("generated match arms with unreachable! as the last one", SM)], PARSE)

P("P01", "Derived ToTokens emits every field once, in order, inside the right groups",
  "The derived ToTokens of a struct or enum variant emits its fields in declaration order, each exactly once; a field marked with an opening delimiter becomes a group of that delimiter (for MacroDelimiter: of the delimiter it holds) around everything up to the field marked with the matching closing delimiter, or up to the end. Closing marks act before the field they are on, several marks act left to right, and groups nest.",
  ["programs", "inputs"], "all field lists, delimiter marks and field values, for structs and enum variants, tuple and record",
  "About twenty hand-written shapes with at most two groups; combinations of nesting depth, close-then-open, unclosed groups, empty groups and variants are sampled once each.",
  [TT, TA, SU, HE], [("scope stack of the field walk", TT), ("surround helpers", HE)], ["ToTokens::to_token_stream of values built directly"])

P("P02", "Derived Parse of a struct accepts exactly its fields in sequence",
  "The derived Parse of a struct succeeds exactly when the input starts with its fields in declaration order, each parsed by its own type, with the fields between an opening mark and its matching closing mark (or the end) read from inside one group of that delimiter (any of the three for MacroDelimiter, which records it), and nothing left over inside any group. Each field holds exactly what was read at its place, and the input is advanced past precisely those tokens.",
  IP, "all field lists and delimiter marks and all token sequences",
  "Tests check one accepted input per shape and almost no rejected ones; wrong delimiters, left-over tokens in groups and consumption are untested.",
  [PA, TA, SU, HE], [("scope stack and generated let-sequence", PA), ("parse_macro_delimiter", HE)], PARSE)

P("P03", "Parse and ToTokens derived for the same type are inverse, spans included",
  "For a type deriving both Parse and ToTokens whose field types are themselves inverse, emitting a parsed value reproduces exactly the tokens that were consumed, with their text, delimiters and positions, and parsing the emitted tokens again gives the same value (for an enum: the value that the consumed tokens alone stand for, which is the same one unless an earlier variant failed only because of what followed).",
  IP, "all type definitions with both derives and all inputs they accept",
  "Tests compare token text for a few inputs; positions, consumption and the second parse are never compared.",
  [PA, TT, HE], [("same delimiter marks walked by both derives", PA)], ["parse followed by to_tokens followed by parse"])

P("P04", "An enum parses as its first variant that matches, without side effects",
  "The derived Parse of an enum without peek marks yields the first variant, in declaration order, whose fields can be parsed from the current position (complete groups included), and fails exactly if there is none. Attempts at earlier variants have no effect: the chosen variant sees the input from the start and the input is advanced past exactly the tokens of the chosen variant.",
  IP, "all lists of variants and all inputs, also with tokens following the enum",
  "One test has three disjoint variants; overlapping variants, prefixes of each other, partially matching groups and consumption are untested.",
  [PA], [("fork, try, advance_to per variant; last variant parsed in place", PA)], PARSE)

P("P05", "peek marks commit an enum to a variant exactly when all peeks match",
  "A variant with peek marks is chosen exactly if every marked field's token is found at its position (first, second, third token tree, groups counting as one), and no earlier variant was chosen; once chosen, its parse decides and later variants are never tried. If a peek does not match, the variant is skipped even if its fields would parse, and the following variants are tried as usual.",
  IP, "all lists of variants with and without peek marks on one to three token trees, and all inputs",
  "Six tests with one accepted input each and one no-fall-through case; mixes with unmarked variants, partial peek matches and peeks after a group are barely sampled.",
  [PA], [("peek / peek2 / peek3 predicates in front of the variant parser", PA)], PARSE)

P("P06", "any and terminated change how a field is parsed exactly as documented",
  "A field marked any accepts every identifier including keywords where an unmarked Ident field rejects keywords; a field marked terminated reads a punctuated list with optional trailing punctuation up to the end of its group or input, and both together read such a list of arbitrary identifiers. The marks affect only their own field and combine with peek and with delimiter marks, and the parsed values keep every element and separator.",
  IP, "all placements of the two marks and all inputs",
  "Four tests with one or two inputs each; only one rejected input, in a doc test.",
  [PA], [("selection of the parse expression", PA)], PARSE)

P("P07", "Invalid to_tokens and parse settings are compile errors, valid ones compile",
  "For the Parse and ToTokens derives, a closing mark without or not matching its opening mark, a mark that is not a delimiter, a delimiter that does not fit the field's token type, unknown settings, peek in an enum variant on a field inside a group, after an unpeeked field or on more than three token trees, and derives on unions are rejected at compile time with an error located in that definition, never by a macro panic and never silently; what is wrong in the settings themselves, whatever the types of the fields, is reported by the derive itself, at the field or setting concerned, not by errors about the generated code. All other definitions of the documented forms compile.",
  ["programs"], "all definitions built from the documented marks on field lists up to a bound",
  "Seven compile-fail cases; none for mismatched closings, stray closings or the peek rules.",
  [PA, TT, TA], [("bail! checks in both field walks", PA), ("attribute parsers", TA)], ["rustc diagnostics for the definition"])

P("P08", "Derived Parse reads through the invisible groups of macro fragments",
  "For a derived Parse of a struct or enum, putting any run of neighbouring tokens of the input, at any depth, into an invisible (None-delimited) group, as macro_rules does with its fragments, changes nothing: the same inputs are accepted, the same variant is chosen, with and without peek, and the fields hold the same tokens.",
  ["programs", "inputs"], "all derived structs and enums, all token sequences and all runs of tokens in them put into invisible groups",
  "No test input contains an invisible group.",
  [PA, HE], [("group parsing of opening marks, peek conditions, forks of unpeeked variants", PA), ("parse_macro_delimiter", HE)], PARSE)

P("P09", "Errors of a derived Parse point at the token that does not fit",
  "When a derived Parse fails, the error has a message and points into the input at the first token that does not fit the field to be parsed there, or that is left over before a closing delimiter; where input ends too early it points at the closing delimiter of the group that is too short, or to the call site for the whole input. An enum reports the failure of the variant that peek has chosen; without such a variant, the place where the enum starts or where one of the variants tried failed.",
  ["programs", "inputs"], "all derived structs and enums and all token sequences they reject",
  "No test looks at the place of a parse error of derive(Parse); the compile-fail cases show errors of the derives, not of the parsers they make.",
  [PA, HE], [("`?` on each field, check_end at the end of a group, `parse failed.` of an enum", PA), ("parse_macro_delimiter, check_end", HE)], PARSE)

P("P10", "A derived Parse answers every token sequence, never with a panic or a hang",
  "The derived Parse of a struct or enum answers every token sequence with a value or with an error: it never panics, never runs on for ever, and asked again with the same tokens it gives the same answer. Every error has a message and points into the tokens given (or, where these are missing, to the call site). The derived ToTokens of every value so parsed returns, and what it emits can be parsed or is rejected by an error again.",
  ["programs", "inputs"], "all derived structs and enums and all token sequences, including tokens of every sort and groups of every delimiter, invisible ones too",
  "Tests parse inputs made for the type; none gives arbitrary tokens.",
  [PA, TT, HE], [("generated sequence of field parsers, forks and advance_to", PA), ("surround_macro_delimiter, parse_macro_delimiter", HE)], PARSE)

P("G01", "The derives keep generics: parameters, bounds and where clauses",
  "All three derives work on types with lifetime, type and const parameters, defaults, inline bounds and where clauses, for structs and enums of every shape, and implement the trait for exactly the instantiations those bounds allow. The behaviour of an instantiation is the same as that of the type written out without parameters.",
  ["programs", "inputs"], "all shapes of generic parameter lists, type shapes and derives up to a bound",
  "No test derives anything on a generic type.",
  [SU, PA, TT, SM], [("impl_trait with split_for_impl", SU), ("per-variant parser functions", PA)], ["rustc acceptance and behaviour of instantiations"])

P("G02", "Derived code compiles and means the same wherever it is used",
  "The derives work whatever the type, its fields, variants or parameters are called (raw identifiers and names used inside the generated code included), whatever modules or types called syn, quote, proc_macro2 or structmeta are in scope, in crates that do not import or depend on syn themselves, inside functions and macro expansions, and without compiler warnings. None of this changes what the derived implementations do.",
  ["programs", "configurations"], "all names and surrounding scopes up to a bound, for each derive",
  "Tests use ordinary names in one crate that depends on syn; only two raw field names are tried.",
  [SM, PA, TT, SU], [("absolute paths through the structmeta crate", SM), ("generated local names", PA)], ["rustc acceptance and behaviour of the derived code"])

P("G03", "dump always stops the build and shows the code that would be used",
  "Putting dump on a type (for StructMeta, Parse or ToTokens) makes compilation fail with a message containing the complete generated implementation, and without dump no such error is raised. The shown code, put in place of the derive, compiles and behaves exactly like the derive.",
  ["programs"], "all definitions and derives, with dump alone or beside other settings",
  "No test uses dump.",
  [SU, SM, PA, TT], [("impl_trait_result", SU), ("dump settings of the three attribute parsers", SM)], ["rustc diagnostics, and the shown code compiled in place of the derive"])

P("G04", "Where the tokens come from makes no difference: text, a program, or the compiler",
  "The derived StructMeta and Parse give the same outcome for the same tokens whatever their source: text, tokens built by a program whose spans are all the same, the call site or in any order, an attribute (Attribute::parse_args), and tokens which the compiler hands to a procedural macro as arguments of a call, of an attribute or of an attribute of a derive, also where macro_rules fragments of any kind stand for parts of them. The same inputs are accepted with the same values, and where the spans are those of the source, values and errors point at the same tokens. What a derived ToTokens emits from a procedural macro can be parsed again after the compiler has passed it on.",
  ["programs", "inputs"], "all derived types, all token sequences, all sources of tokens and all spans they can have",
  "All tests parse text; none runs a derived parser in a procedural macro, where proc-macro2 uses the compiler's tokens, and none parses tokens of a macro fragment.",
  [SM, PA, TT, HE], [("generated Parse::parse", SM), ("Flag, NameValue and NameArgs keep the span of the name", SM), ("surround_macro_delimiter, parse_macro_delimiter", HE)], ["syn::parse::Parse in procedural macros", "expansion of the macros that use them"])

P("D01", "The same definition always expands to the same code",
  "Expanding one definition any number of times, in any process, gives the same generated code, or the same error at the same place.",
  ["configurations"], "all definitions and all compiler runs",
  "Each test build expands once and looks only at behaviour.",
  [SM], [("ordered map of named parameters", SM)], ["generated code of repeated compiler runs"])

open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
print(len(props))
