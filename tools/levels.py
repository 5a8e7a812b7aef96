DEFNOTE = 'Bounded check of the contract on the running code (search/); nothing is proved for it yet.'
_T = ' Trusted: pyvc (the mechanical translation of /repo\'s source and the contracts of Python\'s built-ins), z3, cvc5.'
LEVEL = {
 'C02': ('proof', 'list2us with all it calls is discharged for lists of any length of texts of any length, by induction on the characters of a text and on the list; the character database is any function of the character (with the facts noted in the contract).' + _T),
 'C04': ('proof', 'Every obligation of escape and unescape is discharged for strings of any length: the two are folds over characters and the lemma goes by induction on the string.' + _T),
 'C05': ('proof', 'All comparison operators, cmp, diffLevel, cmpKey and the hash are discharged for keys of any levels against a contract of stripzero, which is itself discharged for lists of any length.' + _T),
 'C06': ('proof', 'ducetSortKey is discharged for texts of any length and any table of weights, elements and keys of its own, by invariants of the loop over the rest of the text (by induction on its rounds); what getSortKey and sortKey ask it for is discharged too. Floats are treated as real numbers.' + _T),
 'C07': ('proof', 'sortkey is discharged for any element, whatever its base, expansion and place in the order of definition, against the contract of the same function for the element it is defined against (by induction on the chain of bases) and of ducetSortKey, for which it is discharged that its result shares nothing; the steps of _setSortKeys are in range for any number of elements. Floats are treated as real numbers.' + _T),
 'C08': ('proof', 'Collation.__setitem__ is discharged for any collation, key and element; the mutating methods of the mapping behind it are under the contract of collections.UserDict.' + _T),
 'C09': ('proof', 'protect and the xml written from it are discharged for strings of any length, by induction on the pieces written and a decoder of them.' + _T),
 'C11': ('proof', 'Both pairs of conversions are discharged for any names and any namespace table (distinct prefixes).' + _T),
 'C12': ('proof', 'add_alternate is discharged for any element, siblings and alternates of any number; drafts are compared through an arbitrary rating function, which tables other than the order of their ratings cannot affect.' + _T),
 'C13': ('proof', 'change_draft and _promote are discharged for alternates and siblings of any number, with an arbitrary rating function for drafts.' + _T),
 'C15': ('proof', 'Which attributes _calc_hashes hashes into the identity and which into the content is discharged for one arbitrary attribute, and their order for any two, of attribute maps of any size and any tables of distinguishing attributes; update of a hash keeps every difference apart. Some combinations only run in the thorough tier.' + _T),
 'C16': ('proof', 'merge is discharged for one arbitrary attribute of attribute maps of any size, for every way the three sides can agree and differ about it, with and without base and other; what merging children and drafts do to the attributes alt and draft is left to those. Some combinations with drafts and texts only run in the thorough tier.' + _T),
 'C19': ('other', 'One step of the overlay is discharged: one element and its children of any number, each child that both have overlaid by the contract of the same function. The induction over the trees, blocks under special, external resources and drafts are left to the bounded check of the contract on the running code.' + _T),
 'C21': ('proof', 'Every path of merge_equivalent over arbitrary tags (any strings, lists, extension maps) is discharged.' + _T),
 'C24': ('proof', 'split_exemplar is discharged for any collection of clusters with counts and any position in any marks, for the occurrences of one arbitrary base and one arbitrary mark; the four passes are discharged against its contract, for any decision where to split.' + _T),
 'C25': ('proof', 'parcel_frequency is discharged for any collection of clusters of any size, by an invariant of the loop over the clusters; floating point numbers are treated as real numbers.' + _T),
 'C26': ('proof', 'process is discharged for texts of any length and any lists of multigraphs, by invariants of its loops over the text; what a character is (mark, joiner, punctuation, allowed) is any function of its place. ldml_read keeps the longest length for lists of any length.' + _T),
 'C27': ('proof', 'The states and every step of a keystroke are discharged for any states before, any rules and any text; the search for a rule and the sort key of a character give any result.' + _T),
 'C28': ('proof', 'start, data, end and close of the tree builder are discharged by an invariant of the builder that every event keeps, for any tree built so far and any buffered text.' + _T),
 'C29': ('proof', 'latlongdeg is discharged for all sign, degrees, minutes and seconds; machine floats are treated as real numbers.' + _T),
 'C30': ('proof', 'match1 is discharged for rule lists of any length by splitting the list at the first rule that holds.' + _T),
 'C31': ('proof', 'Both getldml functions are discharged for any names and any number of directories; the file system is an arbitrary predicate on paths.' + _T),
 'C32': ('proof', '_writeodsitem is discharged for rows of any runs of repeated cells, by a prefix-sum fold over the runs before; odfpy is under contract.' + _T),
 'C37': ('other', 'One step of the difference is discharged: one element and its children of any number, each child that both have against the contract of the same function, without drafts. The induction over the trees is not machine-checked; whole trees are left to the bounded check of the contract on the running code.' + _T),
}
NA = {
 'C35': 'The guarantee quantifies over the orders defined by two tailorings: writing and parsing go through regular expressions over ICU syntax, and equality of two orders over all strings is not expressible as a contract on these functions within reach; see DESIGN.md.',
 'C36': 'The module cannot run at the pinned commit (Aff.parse and Dic.parse fail on every input before reading an entry), so there is no behaviour for a contract to hold of; see DESIGN.md.',
}
