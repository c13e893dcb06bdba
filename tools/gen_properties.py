#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the lines stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe, "hook_needed": None},
    })


prop("C01", "The repertoire is a map: every history of edits equals a reference map",
     "After any history of accepted edits (adding and deleting code points, sequences, ranges and variants, expanding ranges, adding lists of code points), membership, look-up, length, listing, range list, prefix look-up and variant listing of the repertoire equal those of a plain map that underwent the same edits. Listing visits every code point and sequence once, ordered by first code point then by length, a range being visited once at its first code point.",
     ["histories", "inputs"], "all sequences of edit calls, over code points 0..10FFFF, sequences sharing first code points, overlapping and adjacent ranges",
     "The unit tests apply one or two edits to a handful of ASCII code points; they never mix ranges, sequences and deletions in one history.",
     ["lgr/core.py", "lgr/char.py"],
     [("Repertoire._add_char / _del_char / add_range / del_range", "lgr/char.py"), ("LGR.add_cp, add_range, expand_range, add_variant, del_variant", "lgr/core.py")],
     ["lgr.core.LGR.add_*/del_*/expand_*/get_*", "lgr.char.Repertoire iteration, membership, length"],
     [("Repertoire._chardict", "characters keyed by first code point", "lgr/char.py"), ("Repertoire.ranges", "defined ranges", "lgr/char.py")])

prop("C02", "A rejected edit raises a documented error and changes nothing",
     "An edit that violates a documented precondition (unknown or repeated reference, repeated tag, tag on a sequence, both when and not-when, code point already present, absent, outside the validating repertoire or not IDNA-valid, inverted range, missing character, duplicate variant, range given variants; a class, rule or action that contradicts itself, refers to what is not defined, is named or nameless where it must not be, or has too few or too many operands) raises an LGR exception, and every observable part of the LGR is afterwards exactly what it was before the call.  With force, the tolerated violations are accepted and stored without the offending item.",
     ["histories", "inputs"], "every edit call with any combination of violated preconditions, applied to any reachable LGR; any tree of classes and rules",
     "Tests check that some calls raise; none compares the whole LGR before and after, and combinations of violations are not tried.",
     ["lgr/core.py", "lgr/char.py", "lgr/metadata.py", "lgr/classes.py", "lgr/rule.py", "lgr/matcher.py", "lgr/action.py"],
     [("precondition checks of add_cp/add_range/add_variant", "lgr/core.py"), ("ReferenceManager", "lgr/metadata.py")],
     ["exception type and full state of the LGR before/after the call"])

prop("C03", "Tags, tag classes and rules built on tags always agree",
     "After any history of edits, the set of code points a tag denotes (through tag listing, tag classes and rules that use the tag) is exactly the set of single code points currently carrying that tag.",
     ["histories", "inputs"], "all histories of adding, deleting and expanding tagged code points and ranges and deleting tags, and all later evaluations of rules using them",
     "Tests look at one tag on one code point right after insertion.",
     ["lgr/core.py", "lgr/classes.py", "lgr/rule.py"],
     [("LGR._add_cp_to_tag_classes / _del_cp_from_tag_classes / del_tag", "lgr/core.py"), ("Class.get_pattern with from_tag", "lgr/classes.py")],
     ["LGR.all_tags, get_tag_classes, Rule.matches with a from-tag class"],
     [("classes_lookup['#__internal_tag_*']", "virtual class of each tag", "lgr/core.py")])

prop("C04", "References form a consistent table over any history of edits",
     "The reference table behaves as an ordered map over any history of additions (with given or automatic identifiers), updates and deletions: automatic identifiers never clash, invalid and duplicate identifiers are rejected.  Deleting a reference removes its identifier from every code point, range and variant that cites it and from nothing else, so that no citation is left dangling.",
     ["histories", "inputs"], "all histories of reference additions/updates/deletions interleaved with additions of code points, ranges and variants citing them",
     "Tests use one or two references and never delete one cited at several places.",
     ["lgr/metadata.py", "lgr/core.py", "lgr/char.py"],
     [("ReferenceManager.add_reference/del_reference/update_reference", "lgr/metadata.py"), ("Repertoire.del_reference", "lgr/char.py")],
     ["LGR.add_reference/del_reference, reference_manager, char.references, variant.references"],
     [("ReferenceManager._next_id", "next automatic identifier", "lgr/metadata.py")])

prop("C05", "Serialising an LGR to XML and parsing it back loses nothing",
     "For any LGR, parsing its XML serialisation yields an LGR with the same metadata, references, code points, sequences, ranges, variants (with types, contexts, comments, references, tags), classes, rules and actions, and which processes labels identically; serialising again gives byte-identical XML.",
     ["inputs"], "all LGRs that can be built through the API or parsed from XML",
     "Tests round-trip a few small files and compare selected text fragments.",
     ["lgr/parser/xml_serializer.py", "lgr/parser/xml_parser.py"],
     [("serialize_lgr_xml", "lgr/parser/xml_serializer.py"), ("XMLParser.parse_document", "lgr/parser/xml_parser.py")],
     ["serialize_lgr_xml -> XMLParser.parse_document"])

prop("C06", "Serialised LGRs are valid RFC 7940 documents",
     "The XML serialisation of any LGR that obeys the RFC 7940 constraints is well-formed, in the RFC 7940 namespace and accepted by the RFC 7940 RELAX NG schema shipped with the tool.",
     ["inputs"], "all LGRs whose parts satisfy the RFC 7940 syntax constraints",
     "Tests validate a couple of static files against the schema.",
     ["lgr/parser/xml_serializer.py", "lgr/validate/xml_validity.py", "resources/lgr.rng"],
     [("serialize_lgr_xml", "lgr/parser/xml_serializer.py"), ("check_xml_validity", "lgr/validate/xml_validity.py")],
     ["serialize_lgr_xml output, XMLParser.validate_document, the xml validity check"])

prop("C07", "The XML parser builds exactly the LGR the document describes",
     "For any RFC 7940 document, the parsed LGR contains exactly the metadata, references, characters, ranges, variants, tags, classes, rules and actions written in it, whatever the attribute order, letter case and leading zeros of hexadecimal values, white space, comments and prefix used for the namespace, and whether or not the optional meta and rules elements are present; the Unicode version it reports is the one written.",
     ["inputs", "configurations"], "all documents of the RFC 7940 grammar, from a file, bytes stream, with and without a Unicode database, in force and strict mode",
     "Tests parse about forty fixed files, mostly well-behaved.",
     ["lgr/parser/xml_parser.py"],
     [("XMLParser._process_meta/_process_data/_process_rules/_fast_iter", "lgr/parser/xml_parser.py")],
     ["XMLParser.parse_document, unicode_version"])

prop("C08", "Parsing damaged or hostile XML either yields an LGR or a documented error",
     "For any byte string offered as an XML LGR, parsing ends; ill-formed XML is never accepted, and a document that obeys the RFC 7940 schema yields an LGR or an LGR exception.  In strict mode a semantic violation (duplicate code point or variant, undefined or repeated reference of a code point, range or variant, code point not valid for IDNA, inverted range, undefined rule or class, bad date or language) raises an LGR exception; in force mode what cannot be loaded is skipped and flagged in the format report, and every valid element around it is still loaded.  Nothing outside the document (files, entities) gets into the LGR.",
     ["inputs", "configurations"], "all byte strings; all documents carrying one or several semantic violations at any place; force and strict mode",
     "Tests cover single hand-written mistakes.",
     ["lgr/parser/xml_parser.py", "lgr/exceptions.py", "lgr/rfc7940.py"],
     [("force handling in _process_data and the metadata setters", "lgr/parser/xml_parser.py")],
     ["XMLParser.parse_document result or exception, rfc7940 checks"])

prop("C09", "Text tables (RFC 3743, RFC 4290, one code point per line) parse to what they say",
     "For any table written in the RFC 3743, RFC 4290 or one-code-point-per-line format, the resulting LGR, named as asked or after the file, contains exactly the code points, sequences, variants (with the type the format prescribes), references, version and date that the lines state; comments, blank lines and unparsable lines contribute nothing and never affect other lines; the document is reported valid, and asking for its validation or version, or parsing it before, changes nothing.",
     ["inputs"], "all tables of each grammar, including malformed lines between valid ones",
     "Tests parse a few fixed tables per format.",
     ["lgr/parser/rfc3743_parser.py", "lgr/parser/rfc4290_parser.py", "lgr/parser/line_parser.py"],
     [("_parse_doc of each parser", "lgr/parser/")],
     ["parse_document of RFC3743Parser, RFC4290Parser, LineParser"])

prop("C10", "The heuristic parser returns what the right dedicated parser returns",
     "For any UTF-8 table in a supported format (RFC 7940 XML, RFC 3743, RFC 4290, one code point per line) whose content only one format explains, the heuristic parser recognises the format and yields the same LGR as the dedicated parser of that format.",
     ["inputs"], "all tables of the supported formats with unambiguous content",
     "Tests try one file per format.",
     ["lgr/parser/heuristic_parser.py"],
     [("HeuristicParser.parse_document", "lgr/parser/heuristic_parser.py")],
     ["HeuristicParser.parse_document"])

prop("C11", "A rule matches a label exactly when RFC 7940 says so",
     "For any whole-label rule built from literal characters, classes, any, choices, nested and referenced rules, start, end, look-ahead, look-behind and counts, the rule matches a label if and only if some part of the label satisfies it under the RFC 7940 definition.",
     ["programs", "inputs"], "all rule trees over all operators and counts, against all labels",
     "Tests use about thirty fixed rules with one or two labels each; operator nesting is unbounded.",
     ["lgr/rule.py", "lgr/matcher.py"],
     [("get_pattern of the matchers, Rule.matches", "lgr/matcher.py, lgr/rule.py")],
     ["Rule.matches"])

prop("C12", "Character classes obey set algebra",
     "For any class expression (literal sets, tags, Unicode properties, references to named classes, union, intersection, difference, symmetric difference, complement, nested at will), a code point belongs to the class if and only if the corresponding set expression contains it, and evaluating one class never changes another.",
     ["programs", "inputs"], "all class expressions and all code points",
     "Tests evaluate single combinators on two or three letters.",
     ["lgr/classes.py"],
     [("get_pattern of Class and the combinator classes", "lgr/classes.py")],
     ["Class.get_pattern(as_set=True), Rule.matches on one-character labels"])

prop("C13", "Context rules are evaluated at the character's own position",
     "A code point, sequence or variant with a when (not-when) context is available at a position of a label if and only if its context rule holds (does not hold) with the anchor being exactly that occurrence; rules without an anchor are evaluated against the whole label.",
     ["programs", "inputs"], "all context rules with look-behind/look-ahead around an anchor, all labels and positions, repeated characters included",
     "Tests check a few contexts on labels where the character occurs once.",
     ["lgr/rule.py", "lgr/core.py"],
     [("Rule.matches with anchor and index", "lgr/rule.py"), ("LGR._test_context_rules", "lgr/core.py")],
     ["Rule.matches(anchor, index), LGR.test_label_eligible"])

prop("C14", "Label eligibility follows the RFC 7940 longest-match procedure",
     "A label is reported to be in the LGR exactly when scanning it left to right, taking at each position the longest listed sequence or code point whose context holds, consumes it entirely; otherwise the valid parts, the invalid code points and, for each of these, the context rules that failed are reported exactly, and the disposition is invalid.",
     ["inputs"], "all LGRs with overlapping sequences and context rules, all labels",
     "Tests cover a dozen labels against fixed LGRs.",
     ["lgr/core.py"],
     [("LGR._test_preliminary_eligibility, test_label_eligible", "lgr/core.py")],
     ["LGR.test_label_eligible"])

prop("C15", "Dispositions come from the first action that applies",
     "For any list of actions, followed by the default actions, any label and any set of variant types used to make it, the disposition is the one of the first action whose match/not-match rule and any/all/only-variants condition hold, and the reported action index designates that action.",
     ["inputs", "programs"], "all lists of actions, all type sets, labels with and without reflexive mappings",
     "Tests evaluate single actions; precedence and the interplay of conditions is unbounded.",
     ["lgr/core.py", "lgr/action.py"],
     [("Action.apply", "lgr/action.py"), ("LGR._apply_actions, _test_label_disposition", "lgr/core.py")],
     ["Action.apply, LGR.test_label_eligible, LGR.compute_label_disposition"])

prop("C16", "Variant generation yields every permitted permutation once, and nothing else",
     "For any eligible label, the generated variant labels are exactly the permutations obtained by replacing characters and sequences with their variants whose contexts hold, minus those that are invalid; each is listed once with the disposition its variant types entail, the label itself comes last exactly once, asking for invalid ones only adds labels of disposition invalid, and restricting to chosen labels or dropping the log changes nothing for the labels kept.",
     ["inputs"], "all LGRs (with reflexive variants, sequences, variants of different length, contexts, actions) and all eligible labels",
     "Tests check a few labels with a few variants; the permutation space is combinatorial.",
     ["lgr/core.py"],
     [("LGR._generate_label_variants, compute_label_disposition(_summary)", "lgr/core.py")],
     ["LGR.compute_label_disposition, compute_label_disposition_summary"])

prop("C17", "Index labels decide whether two labels collide",
     "With a symmetric and transitive LGR, a label and every one of its generated variants that is itself in the LGR have the same index label, provided the characters and sequences listed do not overlap in it; the index label is reached from the label by variant substitutions and is the smallest over all the partitions of the label, each part giving its smallest variant; two labels without sequences collide if and only if they are equal position by position up to variants.",
     ["inputs"], "all symmetric and transitive LGRs and all pairs of labels",
     "Tests compare a few index labels with constants.",
     ["lgr/core.py"],
     [("LGR.generate_index_label, _generate_label_partitions", "lgr/core.py")],
     ["LGR.generate_index_label"])

prop("C18", "The estimated number of variants is never too low",
     "For any eligible label, the estimate of the number of variant labels is at least the number of labels generation produces, and equals it when no sequences, contexts or actions restrict generation (with mixed-script hiding, for labels outside the Chinese, Japanese and Korean scripts).",
     ["inputs"], "all LGRs and labels",
     "Tests use a few labels; an underestimate lets a caller start an unbounded generation.",
     ["lgr/core.py"],
     [("LGR.estimate_variant_number", "lgr/core.py")],
     ["LGR.estimate_variant_number vs LGR.compute_label_disposition"])

prop("C19", "Hiding mixed-script variants only removes mixed-script labels",
     "Generating variants with mixed-script hiding yields a subset of the full list with the same dispositions; every variant whose characters are in the scripts of the label or their permitted companions, or all in one other script, is kept (characters of the Common and Inherited scripts going with any script), every variant mixing scripts beyond those and their permitted companions is removed, and the label itself is always listed.",
     ["inputs"], "all LGRs with cross-script variants and all labels",
     "Tests use a few labels in Latin, Greek and CJK.",
     ["lgr/mixed_scripts_variant_filter.py", "lgr/core.py"],
     [("MixedScriptsVariantFilter", "lgr/mixed_scripts_variant_filter.py"), ("LGR._generate_label_variants", "lgr/core.py")],
     ["LGR.compute_label_disposition(hide_mixed_script_variants=True)"])

prop("C20", "Questions never change the LGR, the logs or the answers",
     "Evaluating labels, generating variants or index labels, comparing, validating, listing or serialising never modifies the LGR; asking again, in any order, with or without log collection, abandoning a generation half-way, or on a pickled copy gives the same answers and leaves no log handler behind; several threads asking at once get the answers that each would get alone.",
     ["histories", "schedules", "inputs"], "all sequences of queries interleaved in any order, or asked by several threads, on one LGR",
     "Tests use a fresh LGR for every question and never look at what a query leaves behind.",
     ["lgr/core.py", "lgr/rule.py", "lgr/validate/__init__.py"],
     [("log handler bookkeeping in test_label_eligible/compute_label_disposition", "lgr/core.py"), ("pattern cache", "lgr/rule.py"), ("LGR.__getstate__/__setstate__", "lgr/core.py")],
     ["all query methods of LGR, the 'lgr-rule-logger' handlers"],
     [("Rule._pattern_cache", "patterns cached per rule", "lgr/rule.py")])

prop("C21", "Symmetry and transitivity checks find exactly the missing mappings",
     "For any LGR, the symmetry check succeeds if and only if every variant mapping has its reverse (with the same contexts, unless told to ignore them) and the transitivity check succeeds if and only if variants of variants are variants; each missing mapping is reported and no other, and the RFC 7940 verdict records the outcome; a mapping without context asks for a reverse whatever its context.  The check of conditional variants reports exactly the variant contexts that name no rule of the LGR.",
     ["inputs"], "all variant graphs, including reflexive mappings, sequences, targets out of the repertoire, and several mappings to one target with different contexts",
     "Tests use single-defect LGRs.",
     ["lgr/validate/symmetry.py", "lgr/validate/transitivity.py", "lgr/validate/conditional_variants.py"],
     [("check_symmetry", "lgr/validate/symmetry.py"), ("check_transitivity", "lgr/validate/transitivity.py"), ("check_conditional_variants", "lgr/validate/conditional_variants.py")],
     ["check_symmetry, check_transitivity, check_conditional_variants results"])

prop("C22", "Populating variants yields exactly the symmetric transitive closure",
     "For any LGR whose variants carry no contexts, populating ends with a symmetric and transitive LGR whose variant mappings are the closure of the original ones, every added mapping being blocked and every original code point, mapping, type, tag, comment and reference preserved; populating again changes nothing.  With contexts, it still ends symmetric and transitive up to contexts, keeping all original mappings that have no conflict.",
     ["inputs"], "all variant graphs over code points and sequences, targets possibly missing from the repertoire",
     "Tests populate a few hand-made graphs.",
     ["lgr/populate/__init__.py"],
     [("populate_lgr, _add_symmetry, _add_transitivity", "lgr/populate/__init__.py")],
     ["LGR.populate_variants"])

prop("C23", "Validation results depend only on the LGR and the options given",
     "Validating an LGR runs the documented list of checks once each, plus the RFC 7940 ones exactly when requested, and reports for each what that check reports on its own; the outcome for one LGR is independent of what was validated before, by whom, in which order or with which options.  Each RFC 7940 test is recorded as failed exactly when what its description asks is violated, and the check that rebuilds the LGR reports exactly the code points, variants and contexts that cannot be rebuilt.",
     ["histories", "inputs"], "all sequences of validations of any LGRs with any options in one process",
     "Each test validates one LGR in isolation.",
     ["lgr/validate/__init__.py", "lgr/validate/metadata.py", "lgr/validate/miscellaneous.py", "lgr/validate/rebuild_lgr.py"],
     [("validate_lgr", "lgr/validate/__init__.py")],
     ["LGR.validate"],
     [("CHECKS", "module-level list of checks", "lgr/validate/__init__.py")])

prop("C24", "Statistics equal a recount of the LGR",
     "For any LGR, every reported statistic (code points, ranges, sequences and their largest, mappings, variants by type, variant set sizes, averages, code points by tag, rules) equals the figure recounted from the LGR's contents, and the variant sets listed are the connected components of the mappings.",
     ["inputs"], "all LGRs",
     "Tests count one or two fixed LGRs.",
     ["lgr/validate/lgr_stats.py", "lgr/char.py"],
     [("generate_stats", "lgr/validate/lgr_stats.py"), ("Repertoire.get_variant_sets", "lgr/char.py")],
     ["generate_stats, get_variant_sets"])

prop("C25", "The RFC 7940 verdict is the documented function of recorded test outcomes",
     "For any history of recorded outcomes and any policy, the verdict is FAIL, WARN or PASS exactly as documented, a failure once recorded is never cleared by a later success, tests not run count as failed, and the verbose report lists each test of the policy with its own outcome and the same verdict.  Reading an XML LGR records the tests on its form (explicit Unicode version, ascending orders, languages, schema, contents) as failed exactly when it violates them.",
     ["histories", "configurations"], "all sequences of outcome notifications and all policies",
     "Tests check a handful of combinations.",
     ["lgr/rfc7940.py", "lgr/core.py"],
     [("LGRFormatTestResults", "lgr/rfc7940.py")],
     ["LGR.notify_error/notify_tested/get_rfc7940_validation"])

prop("C26", "Metadata accepts exactly the valid values and never half-applies",
     "Setting dates, validity bounds, Unicode version, languages, scopes, version and description accepts exactly the values RFC 7940 allows and stores them unchanged (or in the canonical form documented); an invalid value is refused with an LGR exception leaving the previous value in place, unless forced; the scripts deduced from languages and scopes are those the language tags denote at that moment.",
     ["inputs", "histories"], "all strings offered to every setter, in any order",
     "Tests feed a few good and bad values.",
     ["lgr/metadata.py", "lgr/memoize.py", "lgr/validate/metadata.py"],
     [("Metadata setters", "lgr/metadata.py"), ("MethodAttributeMemoizer", "lgr/memoize.py")],
     ["Metadata.set_*, add_language, get_scripts"])

prop("C27", "The union of two LGRs keeps everything from both",
     "The union of any two LGRs contains every code point, sequence, variant, tag, language, scope, rule, class and action of either and nothing else, with the version and description of both, the period in which both are valid and the latest Unicode version, a clash of names being resolved by suffixing with every use of the name following (what one of two conflicting contexts, types or comments becomes is left open); merging in either order gives the same repertoire and both inputs are left untouched.",
     ["inputs"], "all pairs of LGRs, with disjoint, overlapping and identical contents",
     "Tests merge one or two small pairs.",
     ["lgr/tools/compare/union.py", "lgr/tools/compare/utils.py"],
     [("union_lgrs, union_char, union_metadata, union_actions", "lgr/tools/compare/union.py")],
     ["union_lgrs"])

prop("C28", "The intersection of two LGRs keeps exactly what is common",
     "The intersection of any two LGRs contains exactly the code points and sequences defined in both, with exactly the tags, variants (same target and contexts), languages, scopes and actions both have (the type, context or comment kept when they differ is left open), with the version and description of both, the period in which both are valid and the latest Unicode version; the order of arguments does not matter for the repertoire, intersecting an LGR with itself keeps its repertoire, and both inputs are left untouched.",
     ["inputs"], "all pairs of LGRs",
     "Tests intersect one or two small pairs.",
     ["lgr/tools/compare/intersect.py", "lgr/tools/compare/utils.py"],
     [("intersect_lgrs, intersect_char, intersect_metadata, intersect_actions", "lgr/tools/compare/intersect.py")],
     ["intersect_lgrs"])

prop("C29", "The difference report lists every difference and no other",
     "For any two LGRs, the difference report names every code point or sequence present in only one of them, every variant, tag, context, comment, reference value, rule, class, action (and order of actions) or metadata value that differs, definitions being compared by their contents and not by their layout, and nothing else; two LGRs with equal contents are reported as having no difference.",
     ["inputs"], "all pairs of LGRs differing in any number of places",
     "Tests diff a couple of pairs.",
     ["lgr/tools/compare/diff.py"],
     [("diff_lgrs, diff_char, diff_metadata", "lgr/tools/compare/diff.py")],
     ["diff_lgrs"])

prop("C30", "Merging an LGR set preserves every element LGR inside the merged LGR",
     "Merging a set of LGRs yields an LGR whose repertoire is the union of theirs; each element's code points keep their contexts, tags, comments, references and rules under names identifying the element (a code point with contexts naming different rules in two elements is refused as a conflict); every variant mapping survives with its type and variants become symmetric and transitive over the whole set; a label of one element is in the merged LGR exactly as it was in the element as far as its code points and contexts are concerned; citations and references follow the merged reference list; the order in which the elements are given does not matter and the element LGRs are not modified.",
     ["inputs", "configurations"], "all sets of LGRs in any order",
     "Tests merge two or three fixed LGRs.",
     ["lgr/tools/merge_set.py"],
     [("merge_lgr_set and helpers", "lgr/tools/merge_set.py")],
     ["merge_lgr_set"])

prop("C31", "Harmonising two LGRs makes their variants agree",
     "Harmonising two LGRs (with or without a Root Zone LGR) gives each exactly the variant relation that follows from its own mappings, those of the other and those of the Root Zone LGR, closed under symmetry and transitivity and limited to the classes that touch its own repertoire: no other mapping or code point is added, added ones are marked out-of-repertoire or blocked, relations between what is common to both results are the same in both, every original code point and mapping is kept with what it carries, the code points to review are exactly those in one repertoire only, the Root Zone LGR and (unless asked in place) the inputs are not modified, the order of the two does not matter and harmonising the results again changes nothing.",
     ["inputs"], "all pairs of LGRs and Root Zone LGRs",
     "Tests harmonise a few hand-made pairs.",
     ["lgr/tools/harmonize.py"],
     [("harmonize, _harmonize", "lgr/tools/harmonize.py")],
     ["harmonize"])

prop("C32", "Collision reports contain exactly the colliding labels",
     "For any LGR and list of labels, the collision tools group labels exactly when they share an index label or one is a variant of the other: no colliding pair is missed, no unrelated pair is reported, each pair is listed once with the relation, the dispositions and the TLD or input list the LGR gives it, whether or not there are TLDs or annotations, and the order or repetition of labels in the input does not change the groups. Comparing two LGRs on a list of labels reports exactly the labels whose collisions, dispositions or validity differ, and dumping the variants of labels lists each variant with the disposition the LGR computes.",
     ["inputs"], "all LGRs and label lists",
     "Tests run the tools on a few lists.",
     ["lgr/tools/diff_collisions.py"],
     [("get_collisions, get_collision_index, _generate_indexes", "lgr/tools/diff_collisions.py")],
     ["get_collisions and the report generators"])

prop("C33", "Reading labels understands every notation alike",
     "For any label, reading it as a U-label, as an A-label or as a list of code points in any accepted notation gives the same code point sequence; only hexadecimal digits make a code point; in a label file every valid line yields its label, and a malformed line is reported or skipped without affecting the others.",
     ["inputs"], "all labels and all label files",
     "Tests read a few labels.",
     ["lgr/tools/utils.py"],
     [("parse_label_input, parse_codepoint_input, read_labels", "lgr/tools/utils.py")],
     ["parse_label_input, read_labels"])

prop("C34", "Code point formatting and range collapsing are exact and reversible",
     "Collapsing any set of code points gives the minimal ordered list of maximal ranges covering exactly that set, and every textual form of a code point or sequence produced by the tool denotes exactly that code point or sequence when read back.",
     ["inputs"], "all code points, sequences and sets of code points",
     "Doctests check one or two lists.",
     ["lgr/utils.py", "lgr/tools/utils.py"],
     [("collapse_codepoints, format_cp, format_cp_collapsed, cp_to_ulabel", "lgr/utils.py")],
     ["collapse_codepoints, format_cp*, parse_codepoint_input"])

prop("C35", "Reviewing an IDN table reports every code point and variant once, rightly",
     "Reviewing any IDN table against any reference LGR reports each code point and sequence of either, each variant mapping of their variant sets (overlapping sets being reviewed together), each class, rule, action and language tag exactly once, with the verdict that comparing the two entries entails (tags, context rules, types and conditions of all the variants of a mapping, members that are in the other repertoire, rules and the code points they apply to); code points of ranges count as any other; code points in no set and not in the reference, without rule, or only in a sequence of the reference are listed; the general rules apply, and are said to exist, exactly when the labels tested are refused; the summary counts every remark with the worst verdict overall; and a table reviewed against itself is a match everywhere.",
     ["inputs"], "all pairs of IDN table and reference LGR",
     "Tests review fixed tables, one feature at a time.",
     ["lgr/tools/idn_review/"],
     [("generate_repertoire_report", "lgr/tools/idn_review/repertoire.py"), ("generate_variant_sets_report", "lgr/tools/idn_review/variant_sets.py")],
     ["the repertoire, variant sets, actions and classes reports"])

prop("C36", "IDNA 2008 compliance reporting is exact",
     "For any IDN table the IDNA 2008 compliance check reports exactly the code points and sequences of the repertoire (those marked out-of-repertoire apart) that contain a code point neither PVALID, CONTEXTJ nor CONTEXTO in the Unicode version used, each once, with its properties; and on insertion of a code point, sequence, range or variant, or when checking a range, a code point is refused or flagged for its IDNA property, for not being in the validating repertoire, or for being there already, if and only if it is so and this is not allowed or overridden, whatever its position and whatever Unicode version either LGR uses.",
     ["inputs"], "all LGRs over all code points",
     "Tests use two or three invalid code points.",
     ["lgr/tools/idna2008_compliance.py", "lgr/utils.py", "lgr/core.py"],
     [("check_idna2008_compliance", "lgr/tools/idna2008_compliance.py"), ("is_idna_valid_cp_or_sequence, check_range", "lgr/utils.py, lgr/core.py")],
     ["the compliance report, LGR.check_range, LGR.add_cp"])

prop("C37", "Annotating labels states for each label what the LGR says of it",
     "For any LGR (or LGR set with a script) and any list of labels, the annotation output has one line per input label, in order, stating the disposition that evaluating this very label gives, with what makes it so (the code points not in the LGR and the context rules not met, or the action, be it the first one, that refuses it), or why it could not be evaluated; a label collides with exactly the labels of the LGR set that have its index; and the script of a Root Zone label is the one its characters other than common ones say.",
     ["inputs"], "all LGRs and label files",
     "Tests annotate a few labels.",
     ["lgr/tools/annotate.py"],
     [("annotate, lgr_set_annotate", "lgr/tools/annotate.py")],
     ["annotate, lgr_set_annotate"])

prop("C38", "The command-line tools say what the library says",
     "For any LGR, pair or set of LGRs, table or label file, and any of their options, the command-line tools print or write, for every label or LGR given and in order, exactly the verdicts, dispositions, variants, collisions, actions, reports and XML documents that the library functions give for the same input; a label that is malformed or not in the LGR is reported without stopping the others, a collision is reported with a reference label that collides, labels of an LGR set are judged by the whole set, and an XML dump can be read back as the same LGR.",
     ["inputs", "configurations"], "all inputs and options of the tools",
     "No test runs the command-line tools.",
     ["tools/", "lgr/tools/utils.py"],
     [("main of each tool", "tools/"), ("LgrToolArgParser, LgrSetToolArgParser.process_set, LgrDumpTool, merge_lgrs, parse_lgr", "lgr/tools/utils.py")],
     ["standard output and files written by each tool"])

prop("C39", "LGRs are independent of each other and of what they were made from",
     "For any history of edits made to an LGR (characters, variants, references, tags, rules, classes, actions, metadata, test results) no other LGR changes: neither the LGRs it was made from by copying, pickling, union, intersection, harmonisation or merging, nor those made from it, nor those read or built separately; these operations themselves change none of their inputs; the lists given to the methods that build an LGR are neither changed nor kept, so that what the caller does with them later has no effect; and what the methods that answer questions return can be modified without affecting the LGR or later answers.",
     ["inputs", "histories"], "all LGRs, all histories of edits made to any of the LGRs involved",
     "Tests look at the result of an operation, seldom at its inputs and never at what later edits change elsewhere.",
     ["lgr/core.py", "lgr/char.py", "lgr/metadata.py", "lgr/rule.py", "lgr/classes.py", "lgr/action.py", "lgr/tools/compare", "lgr/tools/harmonize.py", "lgr/tools/merge_set.py"],
     [("LGR.__getstate__, effective_actions", "lgr/core.py"), ("CharBase, Variant", "lgr/char.py"), ("union_lgrs, intersect_lgrs, rename_clashes, expand_ranges_in_copy", "lgr/tools/compare"), ("harmonize", "lgr/tools/harmonize.py")],
     ["every attribute of every LGR involved, after every edit of any of them"])

prop("C40", "What an LGR says of labels does not depend on how it is written",
     "For any LGR and any label, eligibility, failing rules, disposition, variants, index label, estimate, variant sets, validation verdicts and statistics are the same (names and positions of actions aside) when the LGR is written differently without changing its meaning: ranges cut in pieces or expanded, characters and variants in another order, rules, classes, tags and variant types under other names, named rules and classes written in place or the reverse, tag classes as lists, equal class operators, equal counts, alternatives reordered or doubled, notes and references added, unused elements added, an action repeated or split by type; and whether it is parsed, built through the API, read back from its own XML, copied, pickled, or united or intersected with itself.",
     ["inputs", "configurations"], "all LGRs, all meaning-preserving ways to write them, all labels",
     "Tests check a few LGRs, each written in one way.",
     ["lgr/core.py", "lgr/char.py", "lgr/rule.py", "lgr/classes.py", "lgr/action.py", "lgr/matcher.py", "lgr/parser", "lgr/tools/compare", "lgr/validate"],
     [("LGR.test_label_eligible, compute_label_disposition, generate_index_label", "lgr/core.py"), ("Repertoire", "lgr/char.py"), ("Rule.get_pattern", "lgr/rule.py"), ("Class.get_pattern", "lgr/classes.py"), ("XMLParser", "lgr/parser/xml_parser.py")],
     ["answers on labels and structure of both LGRs, names translated"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
