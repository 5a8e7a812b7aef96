#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
US, EX, CO, LD, LM = ("lib/sldr/UnicodeSets.py", "lib/sldr/ldml_exemplars.py", "lib/sldr/collation.py", "lib/sldr/ldml.py", "lib/sldr/ldml_merge.py")
LT, KB, IA, SH, XT, XP = ("lib/sldr/langtags_full.py", "lib/sldr/ldml_keyboard.py", "lib/sldr/iana.py", "lib/sldr/sheet.py", "lib/sldr/xmltemplate.py", "lib/sldr/py3xmlparser.py")

p("C01", "UnicodeSets written from a list read back as the same strings",
  "For every list of non-empty strings, reading the UnicodeSet text that the library writes for the list gives exactly the set of strings in the list. This holds whatever the strings contain: set syntax, backslashes, digits, spaces, marks, private use or supplementary characters, in any position.",
  ["inputs"], "every finite list of non-empty strings over all of Unicode", "Tests try about twenty hand-picked lists; the failures are in interactions such as a backslash followed by u0041 or a space inside a longer item.",
  [US], [("list2us", US), ("us2list / parse / parseitem", US), ("escapechar, struni", US)], observe=["list2us", "us2list"])
p("C02", "UnicodeSet text escapes exactly the characters that need it",
  "In the text written for a list, every set syntax character is preceded by a backslash; every default ignorable, format, space, or private use character (in any plane), and every combining mark that begins an item, is written as \\u plus 4 or \\U plus 8 lower case hex digits of its code point; every other character that follows a character other than a space is written as itself. Items of more than one character, and only those, are in braces, and items are separated by single spaces.",
  ["inputs"], "every list of strings and every code point", "Tests check one or two characters per category, so a range, a category or a width limit that is wrong elsewhere is not seen.",
  [US, EX], [("list2us, _hex_escape, _escape_us_syntax, _escape_using_hex", US), ("UCD.need_hex_escape, is_pua, isformat, is_space_separator, ismark", EX)])
p("C03", "Every combination of alternatives is produced exactly once",
  "Flattening a sequence of character sets yields each string that takes one member from every set in turn exactly once, and nothing else; an empty sequence yields the empty string (sets that are references to a group, a backslash and digits, are not meant). Iterating over named lists of template values likewise yields each combination of one value per name exactly once.",
  ["inputs"], "every sequence of sets or value lists, of every length and size", "No test calls either; both are odometers whose carry can only be wrong for particular numbers of positions.",
  [US, XT], [("flatten", US), ("IterDict.__next__", XT)])
p("C04", "Collation escaping and unescaping are inverse",
  "For every string and in both escaping modes, unescaping the tailoring-escaped form of the string gives back the string. No tailoring syntax character appears in the escaped form without a backslash before it (or, for the apostrophe, doubled).",
  ["inputs"], "every string over all of Unicode, with and without escaping of marks", "The tests use a handful of short strings with at most two escapes; the count and order of escapes matter.",
  [CO], [("escape", CO), ("unescape", CO)])
p("C05", "Sort keys are consistently ordered",
  "Comparison of three-level sort keys is a total preorder: exactly one of less, equal and greater holds; it is antisymmetric, transitive and agrees with all six comparison operators; keys that compare equal hash alike. The reported level of difference is the first level at which the keys differ once trailing zero weights are ignored, signed by which is smaller.",
  ["inputs"], "all pairs and triples of three-level keys with weights of any length", "Laws over pairs and triples; tests only sort some real keys and never compare equal keys.",
  [CO], [("SortKey.cmp and operators", CO), ("diffLevel, stripzero, cmpKey", CO)])
p("C06", "A string's sort key is the level-wise sum of its longest matches",
  "The sort key of a string is built by repeatedly taking the longest prefix that has an entry and appending that entry's weights level by level, in order, with no weight lost, repeated or moved to another level. Zero weights are dropped from the key of a string of several characters and kept for a single character.",
  ["inputs"], "every weight table and every string made of characters in the table", "Depends on the overlap of contractions in the table and the string; tests use the default table and a few strings.",
  [CO], [("ducetSortKey", CO), ("Collation.sortKey, getSortKey", CO)])
p("C07", "A tailored element sorts just after its base at the stated level",
  "When sort keys are computed for a tailoring, an element's key differs from the key of the element it is defined against at exactly the stated level, on the stated side (after, or before for a reset before at that level), and not at all for an equality; what the element expands to, where that does not contain the element itself, is appended to the key. The base has to have weights at the level. Computing one element's key never changes the key already computed for another element or the underlying weight table.",
  ["inputs", "histories"], "every tailoring element, whatever its base, level, expansion and definition order", "Shared key lists between elements show only for particular chains; tests only compare the final text of a few tailorings.",
  [CO], [("CollElement.sortkey", CO), ("SortKey.add, append, copy", CO)])
p("C08", "A collation never silently replaces an element",
  "Storing an element for a string that already has one in a collation raises an error and leaves the collation as it was; otherwise the element is stored and every other entry is unchanged.",
  ["inputs", "histories"], "every collation and every element, after any history of insertions", "A statement about all other entries after any sequence of insertions.",
  [CO], [("Collation.__setitem__", CO)])
p("C09", "Markup escaping is lossless",
  "Text and attribute values written to XML contain no raw markup character and read back from XML as exactly the characters they were, for every string of XML characters.",
  ["inputs"], "every string of characters XML allows, in text, attribute and CDATA position", "A statement over all strings; no test has quotes, carriage returns or a CDATA end in the data.",
  [LD], [("ETWriter._protect", LD), ("ETWriter.serialize_xml", LD)])
p("C10", "Saving a document loses nothing, changes nothing and is repeatable",
  "The text written for a document, loaded again, is a document with the same elements, attributes, text, comments and alternates (of elements without children), in the same order; only a draft mark equal to the default may be left out, and text between child elements is not meant. Writing it again without changing it gives the same text, whatever else was written in between, and no document or later output is affected by an earlier write.",
  ["inputs", "histories"], "every document the library can hold and every interleaving of writes and edits of several documents", "Needs histories of several writes with edits in between; tests write each document at most once.",
  [LD, XP], [("ETWriter.serialize_xml, Ldml.serialize_xml", LD), ("Ldml.__init__", LD), ("TreeBuilder", XP)])
p("C11", "Namespace prefixes map to URLs and back",
  "For names in a known namespace, converting the URL form to prefix form and back, or the reverse, gives the original name; names in no known namespace are left alone.",
  ["inputs"], "every local name and every namespace table with distinct prefixes", "A statement over all names; tests only use a few names indirectly.",
  [LD], [("localns, reverse_localns", LD), ("ETWriter._localisens, _reverselocalns", LD)])
p("C12", "Adding an alternate keeps the best draft primary and loses none",
  "When a node is added where an equivalent node exists, the node with the better draft status is the primary one in the document, at the same place, and the other is kept as an alternate under the given alt; on a tie the existing primary stays. Alternates under other alts are untouched, and an alternate under the same alt is only replaced by one that is no worse, except by a displaced primary. All nodes have a draft mark.",
  ["inputs", "histories"], "every combination of drafts, alts and existing alternates, after any history of additions", "A lattice of drafts by alts by history; tests cover a few single steps.",
  [LD], [("Ldml.addnode, _add_alt_leaf, _promote", LD), ("Ldml.get_draft", LD)])
p("C13", "Changing a draft re-elects the primary and loses no alternate",
  "After the draft of a primary node is changed, the primary node is one with the best rating among it and its alternates, the same set of nodes is still held (each once), and the primary carries no alt and is in the document at the same place.",
  ["inputs", "histories"], "every primary node with any set of alternates whose drafts are marked, and every new draft", "Depends on the drafts of all the alternates at once and on which alts are in use.",
  [LD], [("Ldml.change_draft, _find_best, _promote", LD)])
p("C14", "Loading keeps the best of each group of equivalent siblings",
  "On loading with drafts, among siblings with the same identity the primary node is the one with no alt, or when all have one the one with the best draft; for each alt the sibling with the best draft is kept as that alternate, the first winning ties, and nothing else is dropped.",
  ["inputs"], "every list of sibling nodes with any identities, alts and drafts", "Depends on the order and drafts of all siblings; tests load two fixed files.",
  [LD], [("Ldml.normalise", LD)])
p("C15", "An element's identity is its tag and distinguishing attributes",
  "Two elements have the same identity hash when they have the same tag and the same distinguishing attributes for that tag, whatever the order of their attributes, their other attributes, their text and children. Changing any distinguishing attribute, or the tag, changes what is hashed; every other attribute but the alt, draft and alias marks counts as content.",
  ["inputs"], "every tag, every set of attributes and every classification of attributes", "Quantifies over attribute sets and orders; tests use files with a few of each.",
  [LD], [("Ldml._calc_hashes, _distattributes", LD), ("_minhash", LD)])
p("C16", "Attributes merge three ways",
  "Merging a node with another against a common base, each attribute changed (set, altered or removed) on one side only takes that side's state; one that both sides hold with the same value is kept; one that both set to different values, neither being the base value, keeps ours and records a clash comment. No clash is recorded otherwise, and other attributes are left alone.",
  ["inputs"], "every three attribute maps, including no base and no other", "Every combination of presence and equality on three sides; tests cover a few of the cases.",
  [LM], [("LdmlMerge.merge, clash_attrib", LM)])
p("C17", "Merge alignment pairs each node once and loses none",
  "When children are aligned for a merge, no child of the other or base side is paired twice, children with the same content are paired with each other before others, every pair agrees in content or identity, a child of ours is left without a partner only if no child with its identity is left over, and each child of the other side that is left over, and has no content equal to one already there, is added to ours exactly once.",
  ["inputs"], "every three lists of children with any pattern of equal content and identity", "A matching over three lists with repeated hashes; tests have one file triple.",
  [LM], [("LdmlMerge._align", LM), ("_arrayDict", LM)])
p("C18", "Merging takes the side that changed",
  "A three-way merge where the other document equals the base leaves ours as it is (with drafts in use, where ours has no worse draft than the base); where ours equals the base the result is the other document; merging a document with itself changes nothing.",
  ["inputs"], "every pair of documents", "A statement over all pairs of documents; tests merge one triple.",
  [LM], [("LdmlMerge.merge", LM)])
p("C19", "Overlaying fills gaps and never overrides",
  "After overlaying one document on another, every leaf that ours had with a value keeps it (one marked as inherited takes the other's value), every item of the other that ours lacked is there (identity and collation elements are taken whole or not at all), and nothing that is in neither appears.",
  ["inputs"], "every pair of documents without the font resource block", "A statement over all pairs of trees.",
  [LM], [("LdmlMerge.overlay, _overlay_child", LM)])
p("C20", "Language tags parse to a canonical form",
  "Formatting a parsed language tag (with a language of two or three letters) in full and parsing it again gives the same components, with the language and variants in lower case, the script in title case and the region in upper case, and no subtag is lost or invented; the result does not depend on the case of the input or on whether hyphens or underscores separate the subtags.",
  ["inputs"], "every well-formed language tag", "A grammar of tags with many optional parts; no test covers the parser.",
  [LT], [("LangTag.parse, __repr__, __str__", LT)])
p("C21", "Merging equivalent tags is all or nothing",
  "Merging a tag into another either is refused, exactly when their scripts or their regions are both given and differ, and then changes nothing, or succeeds and then the result has its own language, the script, region and variants of whichever tag gave them, and all the extensions of both, the receiving tag's own values having priority. The tag merged from is never changed.",
  ["inputs"], "every pair of tags, in every state of their hidden flags", "A frame condition over every pair of tags, untested.",
  [LT], [("LangTag.merge_equivalent", LT)])
p("C22", "A tag is found by every one of its forms",
  "The list of forms of a tag (language of two or three letters) contains its fullest form (variants in alphabetical order), has no form with a script, region or variant the tag does not have, omits the script or the region only where that may be hidden; and after a tag is added to the tag list every one of its forms leads to a tag that can represent it.",
  ["inputs", "histories"], "every tag and every tag list built by any history of additions", "Depends on the history of additions; untested.",
  [LT], [("LangTag.allforms", LT), ("LangTags.add", LT)])
p("C23", "The subtag registry is read record by record",
  "Reading a subtag registry gives for each subtag record exactly the fields of that record, with folded lines unfolded and repeated fields in a list in order; no record's fields reach another record, and records without a subtag add nothing.",
  ["inputs"], "every registry file in record-jar form, of any length", "A property of every sequence of records; the one shipped file is not tested.",
  [IA], [("Iana.parse", IA)])
p("C24", "Splitting clusters conserves counts",
  "While clusters of base and marks are split up, the total number of occurrences counted for each base and for each mark stays the same.",
  ["inputs", "histories"], "every collection of clusters with any counts, and any sequence of splits", "An invariant over arbitrarily many splitting passes; tests look at the final sets, not at counts.",
  [EX], [("Exemplars.split_exemplar and the find_* passes", EX)])
p("C25", "Clusters are parcelled by frequency into main or auxiliary",
  "When clusters are parcelled, each cluster goes to the main list exactly if its count is above the given percentage of the average count (and it is not the tatweel) and otherwise to the auxiliary list; none goes to neither, none to both (two clusters of the same text may differ), and what was in the lists before stays.",
  ["inputs"], "every collection of clusters, every threshold", "Threshold over every distribution of counts; tests use very small ones.",
  [EX], [("Exemplars.parcel_frequency", EX)])
p("C26", "Text is segmented with the longest multigraph at every position",
  "When text is analysed with a list of multigraphs, at each position the longest listed multigraph that matches there is counted, wherever a previous one ended; otherwise one cluster of a base and its marks is. Every character of the text belongs to at most one counted cluster, and only disallowed characters to none.",
  ["inputs"], "every text and every list of multigraphs", "Depends on adjacency and overlap of multigraphs in arbitrary text.",
  [EX], [("Exemplars.process", EX)])
p("C27", "The state after each keystroke is a snapshot",
  "Processing a keystroke never changes the state returned for an earlier keystroke, and in each state every layer's output begins with the part of it that is settled.",
  ["histories"], "every sequence of layer operations after any history of keystrokes", "A frame condition over histories; the keyboard has no tests.",
  [KB], [("Context.clone, reset_output, results", KB)])
p("C28", "Parse events build the document they describe",
  "For every well-nested sequence of start, text and end events the tree built has the elements nested as in the events, and all the text between two tags, in however many pieces it came, is the text of the element or the tail of its preceding sibling, in order.",
  ["inputs"], "every well-nested event sequence, every way of cutting the text into pieces", "How the parser cuts text depends on buffer positions, which tests do not reach.",
  [XP], [("TreeBuilder.start, data, end, _flush", XP)])
p("C29", "Zone coordinates convert to decimal degrees",
  "The latitude or longitude given by sign, degrees, minutes and optional seconds is converted to plus or minus (degrees + minutes/60 + seconds/3600), the sign applying to the whole.",
  ["inputs"], "every sign, degree, minute and second", "The script has no tests.",
  ["scripts/zonetab"], [("latlonglong conversion (latlongdeg)", "scripts/zonetab")])
p("C30", "Font rules apply first match",
  "Matching a tag against a list of rules returns the result of the first rule all of whose conditions hold for the tag, a condition being a value or a list of allowed values, and nothing if there is none.",
  ["inputs"], "every rule list of any length with any conditions, and every tag", "The script has no tests.",
  ["scripts/fontmatch"], [("match1", "scripts/fontmatch")])
p("C31", "Locale files are found in search order",
  "Looking for a locale's file opens the first one that exists, in the documented order of directories, with hyphens in the tag turned to underscores, and gives nothing only if none exists.",
  ["inputs", "configurations"], "every tag, every list of directories and every set of existing files", "Depends on the state of the file system; no test covers it.",
  [LD, LM], [("getldml", LD), ("getldml", LM)])
p("C32", "Writing a spreadsheet cell leaves the others alone",
  "Writing a value at a column of a row puts the value in that column, and every other column of the row shows the value it had, whatever runs of repeated cells the row is stored as.",
  ["inputs"], "every row with any repeated cells, every column inside the row", "Depends on where the column falls in a run; no test covers it.",
  [SH], [("Sheet._writeodsitem", SH)])
p("C33", "Ensuring a path makes it findable and is idempotent",
  "After ensuring a path of plain steps and attribute tests (on distinguishing attributes, where drafts are in use), finding the path gives the node that was returned, everything in the document before is still there, and ensuring it again returns the same node and changes nothing.",
  ["inputs", "histories"], "every document and every path, after any history of paths ensured", "Depends on what is already in the document.",
  [LD], [("Ldml.ensure_path, _unify_path, _process_path", LD)])
p("C34", "Normalising gives one order",
  "Normalising a document (drafts not in use) orders each element's children by the schema order and then by name and attributes, independently of the order they came in where these differ, keeps every child, and normalising again changes nothing.",
  ["inputs"], "every document and every permutation of siblings", "A statement about all permutations of siblings.",
  [LD], [("Ldml.normalise, _sortedattrs", LD)])
p("C35", "Tailorings survive being written and parsed",
  "Parsing the ICU syntax written for a collation gives a collation that orders the same strings in the same way.",
  ["inputs"], "every tailoring", "Every tailoring is a different program for the orderer; tests compare texts of a few.",
  [CO], [("Collation.asICU, parse, minimise", CO)])
p("C36", "Spelling dictionaries are read entry by entry",
  "Reading a hunspell dictionary gives each word in it with the flags and morphological fields given for it.",
  ["inputs"], "every dictionary file", "The module has no tests.",
  ["lib/sldr/hunspell.py"], [("Dic.parse, Aff.parse", "lib/sldr/hunspell.py")])
p("C37", "Unflattening removes only what the fallback gives",
  "Taking the difference of a document from another (siblings of different identity, drafts not in use) removes every leaf that is equal in the other, loses no leaf with a value that differs and adds nothing; overlaying the other on the difference then gives the same document as overlaying it on the original, identity and collation elements aside, which go whole or stay whole.",
  ["inputs"], "every pair of documents", "A round trip over all pairs of trees; no test compares a flattened with an unflattened file.",
  [LD, LM], [("difference", LD), ("LdmlMerge.overlay", LM), ("flattenlocale", LM)])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
