#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script only so that the text is easy to edit)"""
import json
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                 "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                                                 "observe_at": observe or [], "hook_needed": None}})


prop("C01", "Hash map returns the last value stored under a key",
     "After any sequence of insertions into a hash map, looking a key up returns the value most recently stored under an equal key, and returns nothing exactly when no equal key was ever stored (or the map was cleared since). Storing under one key never changes what any other key returns, including when the map grows.",
     ["histories", "inputs"], "every sequence of set/get/clear operations, every key content and length, every number of entries (growth included)",
     "The suite inserts a few hundred fixed keys in one order; it cannot cover arbitrary collision patterns, key bytes, probe sequences that wrap around, or growth at every fill level.",
     ["util/hashmap.c", "util/hashmap.h"],
     [("open addressing with linear probing, growth at a load limit, keys copied into one growing buffer", "util/hashmap.c: hashmap_nset, hashmap_nget, hashmap entry lookup and increase_size"), ],
     [("entry table / value array / key buffer", "open-addressed slots, dense values, key bytes", "util/hashmap.h: struct hashmap")], ["hashmap_nget return value", "value array"])
prop("C02", "Hash key equality modes: exact, no-case, trailing-space-insensitive",
     "A map built in exact mode treats two keys as equal exactly when their bytes and lengths are equal; no-case ignores letter case; rtrim ignores any run of trailing spaces (a key of only spaces equals the empty key); no-case+rtrim ignores both. Equal keys always meet the same entry and unequal keys never do, whatever the stored or probing key's padding or case.",
     ["inputs", "configurations"], "every pair of byte strings (any length, any bytes) in each of the four modes",
     "Tests use a handful of ASCII keys with one trailing pad; all-space keys, embedded bytes, keys that are prefixes of each other and non-letter characters next to the case ranges are not sampled.",
     ["util/hashmap.c"], [("per-mode hash that canonicalises case and trailing spaces while reporting the trimmed length", "util/hashmap.c: hash functions"), ("entry match on hash, length and canonical bytes", "util/hashmap.c: entry lookup")])
prop("C03", "Set membership is exact",
     "After any sequence of additions and clears a hash set contains exactly the keys that are equal (in the set's key-equality mode) to a key added since the last clear, counts each distinct key once, and membership queries answer accordingly for every key, also when the table grew.",
     ["histories", "inputs"], "every sequence of additions and queries", "DISTINCT, IN and UNION rely on this for arbitrary data; no test exercises sets at all.",
     ["util/hashmap.c", "util/hashmap.h"], [("set operations on the same slot table", "util/hashmap.c: set_nadd, set_nhas")])
prop("C04", "Multimap keeps every value under its key in insertion order",
     "A multimap returns, for a key, exactly the values inserted under equal keys, in the order they were inserted, whatever other keys were inserted in between and however the table grew.",
     ["histories", "inputs"], "every interleaving of insertions over any keys", "Joins rely on this; tests insert short fixed lists.",
     ["util/hashmap.c"], [("per-key value lists allocated on first use", "util/hashmap.c: multimap_nset, multimap_nget")])
prop("C05", "Composite keys are equal exactly when all components are",
     "In a composite-key map two keys are the same key exactly when they have equal components in every position under the map's mode; keys with different numbers of components differ, and moving bytes from one component to the next yields a different key. After any sequence of insertions a lookup returns the value most recently stored under the same key, nothing exactly when there is none (or the map was cleared since); values stored under different keys never affect each other, also when the map grows.",
     ["inputs", "histories"], "every pair of component tuples, any bytes and lengths", "GROUP BY on several columns depends on it; tests use fixed short components.",
     ["util/hashmap.c", "util/stringview.c"], [("component lengths and bytes are hashed and compared per component", "util/hashmap.c: compositemap_set, compositemap_get, composite entry lookup")])
prop("C06", "Growable sequence operations behave like a mathematical sequence",
     "Every operation on the growable array (construct, push, pop, insert, erase, append, extend, set, resize, reserve, shrink, sort) leaves exactly the sequence the operation describes: elements before and after an insertion or erasure are preserved in order, size changes by exactly the amount stated, zero-length requests change nothing. The storage always has room for the sequence plus an end position, and no operation reads or writes outside it.",
     ["histories", "inputs"], "every sequence of operations, every element size, position and length (including 0 and the end)",
     "The array is only tested through a few hash-map insertions; positions at the ends, zero lengths, reallocation in the middle of an insertion and sizes beyond 2^31 are never sampled.",
     ["util/vec.c", "util/vec.h"], [("size < capacity invariant with one spare slot", "util/vec.c: vec_reserve, vec_add_one"), ("block moves for insert and erase", "util/vec.c: vec_insert_iter, vec_erase_iter")],
     [("size, capacity, element size, block", "the sequence is block[0..size)", "util/vec.h: struct vec")])
prop("C08", "Strings hold exactly the bytes given and stay NUL-terminated",
     "After any string operation (construct from bytes, from a C string, a view or another string, take over a C string, copy, strcpy, strncpy, strcat, strncat, append of a view or of another string, push of a character, printf, resize, clear, export) the string's length and bytes are exactly those the operation describes and the byte after the last is NUL, so the C string and the counted string agree for text without embedded NULs. Operations limited to n bytes stop at the first NUL and never read past the n-th byte. A view made of a string or of bytes has exactly their bytes and length.",
     ["histories", "inputs"], "every sequence of operations and all byte contents and lengths", "No unit test covers the string type; terminator bugs only appear at particular capacities.",
     ["util/stringy.c", "util/stringy.h"], [("terminator rewritten after each mutation", "util/stringy.c")])
prop("C09", "Find and replace act on exactly the non-overlapping occurrences",
     "Replacing one occurrence in a string replaces the first one at or after the start position and returns the position right after the replacement, or changes nothing and returns the end exactly when there is none. Replacing all substitutes every non-overlapping occurrence scanned left to right, never rescans the replacement, and leaves all other bytes unchanged, for replacements shorter than, equal to and longer than the needle; the no-case variants find the needle in any letter case. An empty needle replaces nothing. Searching a bounded text for a needle reports the first position where it occurs within the bound, or none.",
     ["inputs"], "every haystack, needle and replacement, any lengths", "REPLACE() has no unit test; overlapping candidates and matches at the ends are corner cases.",
     ["util/stringy.c", "util/util.c"], [("string_find_replace* (one, all, limited, nocase)", "util/stringy.c"), ("strnstr", "util/util.c")])
prop("C10", "Text comparison is consistent and ignores trailing blanks only in rtrim modes",
     "Comparing two texts yields 0 exactly when they are equal under the variant (case folded in no-case variants, trailing blanks ignored in rtrim variants), otherwise a value whose sign is that of the first differing character (compared as unsigned bytes), with a proper prefix ordered first. Swapping the arguments flips the sign. A trailing blank is white space by which one text is longer than the other. (Texts hold no NUL byte in the non-rtrim variants.)",
     ["inputs"], "every pair of texts of any lengths and bytes", "Used by WHERE, ORDER BY and IN; no tests compare strings directly.",
     ["util/stringview.c"], [("the four stringview_compare variants", "util/stringview.c")])
prop("C11", "Linked list keeps elements in order as queue and stack",
     "Enqueue appends at the tail, push prepends at the head, pop/dequeue remove and return the head; taking in a node that is in no list (import) places it like enqueue or push, exporting or removing a node takes out just that one. The observable order (walking forwards or backwards, counting, indexing from any node) is exactly that of the operations, no element is lost or duplicated, and head and tail stay consistent, also when the list becomes empty. Freeing a list frees every node once and, if asked, hands over each node's data once in order. Other lists are not affected.",
     ["histories"], "every sequence of list operations", "Plans, operands and column lists are all built on it; no unit tests.",
     ["util/node.c", "util/node.h"], [["node_enqueue, node_push, node_pop, ...", "util/node.c"]])
prop("C12", "Ring buffer delivers items once, in order, without overwriting",
     "Items come out of the fifo in exactly the order they went in, each once; it reports empty, full, available and receivable counts consistently with its contents (receivable: the free slots left once every producer may have one item on its way, never more than really fit), refuses or never performs a write that would overwrite an unread item, and bulk transfers move as many items as possible in order (the try variants either do this or report a held lock and change nothing). Each operation is considered as one uninterrupted step; the single-item operations are used when their own test (empty, full) says they may be.",
     ["histories"], "every interleaving of add/get/advance/bulk transfers at every head/tail position and capacity", "Record recycling between plan steps depends on it; wrap-around positions cannot be sampled exhaustively by unit tests.",
     ["util/fifo.c", "util/fifo.h"], [["head/tail modulo arithmetic with one spare slot", "util/fifo.c"]])
prop("C13", "Packed store returns each stored item unchanged",
     "Every item put into the packed store (bytes, or a number stored as its decimal text) is returned byte for byte with its exact length by its position, until it is removed: pushing, inserting, removing or popping other items, growing and shrinking the storage never change it. Inserting and removing shift the positions of the items behind it by one, resizing drops items from the end or adds empty items, clearing leaves none.",
     ["inputs", "histories"], "every sequence of operations and every item length, also zero", "Grouping and ordering keep their keys in it and hold positions, not copies; no unit test uses it.",
     ["util/flex.c"], [["flex_push_back, flex_insert, flex_push_back_str_int, flex_push_back_str_float, flex_pop_back, flex_remove, flex_resize, flex_at, flex_pair_at", "util/flex.c"]])
prop("C14", "Plan graph roots and traversal visit every node once",
     "The roots of a graph are its nodes marked as root or, when none is marked, exactly the nodes no other node of the graph points to (these are then marked); each is listed once in node order, and the list stays as determined until a node is added, joined in or removed. After a reset, traversal starts at the first root, returns every node reachable from a root along the edges exactly once, nothing else, and reports the end exactly when none is left, for every shape of graph (several inputs, cycles, no roots, empty). Adding, joining and removing nodes preserves the other nodes, their order, data and edges; edges to a removed node disappear. Freeing a graph frees each of its nodes once.",
     ["inputs", "histories"], "every graph built through the API", "Execution order of every query plan rests on it; no unit tests.",
     ["util/dgraph.c"], [["root finding by in-edges, breadth-first traversal with visit counts", "util/dgraph.c"]])
prop("C15", "Bit sequence stores independent bits",
     "Setting a bit makes exactly that bit read back as the value set and leaves every other bit unchanged; pushing appends one bit; a newly constructed sequence is empty and all its space reads as zero; resizing keeps the remaining bits and new bits read as zero.",
     ["inputs", "histories"], "every index and every bit pattern", "Bit masks at word boundaries (index 31/32) are never tested.",
     ["util/vec.c"], [("bitvec_construct, bitvec_at, bitvec_set, bitvec_reserve, bitvec_resize, bitvec_push_back", "util/vec.c")])
prop("C16", "Text converts to a number only if all of it is that number",
     "Converting text to an integer (of a base; base 16 for text starting with 0x) or to a float succeeds exactly when the whole text, up to its end, is one number in range as the C library reads it (optional leading white space and sign; the empty text counts as 0), and then yields that number and makes the value an integer or float; otherwise failure is reported and the caller gets no partial number.",
     ["inputs"], "every text", "CAST and implicit comparison conversions rely on it; trailing characters, empty text and out-of-range numbers are not tested.",
     ["util/util.c", "lib/field.c"], [["str2longbase, str2long10, str2long, str2double", "util/util.c"], ["field_to_int, field_to_float", "lib/field.c"]])
prop("C17", "Type promotion picks the higher type and conversions yield the same value or fail",
     "The common type of two values is the higher of the two in the order string < integer < float, whatever their order. Converting a value updates the value and its type together: integer to float gives that number, float to integer drops the fraction, text to a number takes the whole text or fails, a number to text gives its decimal form, text stays as it is, cut to the limit exactly where a limit applies. A value without a type does not convert; a text that is no number stays the text it was.",
     ["inputs"], "every pair of field types and values", "No unit test covers conversions of operand pairs.",
     ["lib/field.c"], [["field_determine_type, field_to_int, field_to_float, field_to_stringview, field_to_stringview_limited", "lib/field.c"]])
prop("C19", "Integer arithmetic never silently wraps",
     "Integer addition, subtraction, multiplication, division, modulo and unary minus in SQL expressions yield the mathematically exact result (quotients truncated toward zero, the remainder takes the sign of the dividend) and fail with an error exactly when that is no 64-bit integer or the divisor is zero; no operand values make them wrap around or trap. The bitwise operators yield their operation on the operands' bits, the float operators the IEEE result of their operation, and dividing a float by zero is an error.",
     ["inputs"], "every pair of 64-bit operands", "The boundary values (most negative integer, -1 divisors, products just out of range) are not tested.",
     ["lib/scalarfn.c", "lib/misc.h"], [("overflow_safe_add/minus/multiply, fql_op_*_i", "lib/misc.h, lib/scalarfn.c")])
prop("C20", "String functions honour UTF-8 and argument bounds",
     "LEFT, RIGHT, SUBSTRING and LEN count characters, not bytes, for valid UTF-8 (bytes where the function is told so), return whole characters, clamp counts and positions beyond the text, and fail for negative counts; LEN does not count trailing blanks, DATALENGTH counts bytes. CAST AS CHAR cuts or pads with blanks to exactly the length asked for, + joins its texts, REPLACE replaces every occurrence (case ignored) from left to right. None of them reads outside its arguments, also for text that is not valid UTF-8, for which they may report an error.",
     ["inputs"], "every text and every count, including 0, negative and beyond the end", "No unit tests for scalar functions.",
     ["lib/scalarfn.c", "util/stringy.c", "util/util.c"], [("fql_left, fql_right, fql_substring, fql_len and the UTF-8 helpers", "lib/scalarfn.c, util/util.c")])
prop("C21", "Comparison predicates agree with value order and NULL rules",
     "Each comparison operator (=, <>, <, <=, >, >=) of integers, floats and texts answers exactly according to the order of its operands (texts without regard to case and trailing white space), so the six are mutually consistent; a comparison with NULL is never true. IN with a list is true exactly when an item equals the value, whatever other items are NULL, and NULL is in no list; IS NULL is true exactly for NULL. If an operand it needs fails, the predicate fails.",
     ["inputs"], "every pair of operands of each type and every list", "Unit tests never evaluate a predicate.",
     ["lib/fqllogic.c"], [("fql_logic_eq/ne/gt/ge/lt/le_i/f/s, fql_logic_in_i/f/s, fql_logic_is_null", "lib/fqllogic.c")])
prop("C22", "Boolean conditions evaluate as the written AND/OR/NOT expression",
     "Evaluating a condition tree on a row yields the truth value of the AND/OR/NOT expression it stands for (a group or a predicate may be negated; a predicate given as already true counts as true), asking its predicates about that row and passing on the error of one that is needed and fails. An equality is recognised as required by a condition (so that a hash join may answer it) only if the condition is false whenever the equality is, whatever the other predicates are; a lone equality is recognised. The number of predicates of a condition is counted exactly. The sides of an equality chosen for a hash join are told apart right: the operand evaluated on the joined table's rows alone uses no column of a table before it, and the other operand uses no column of the joined table.",
     ["inputs", "programs"], "every condition tree and every assignment of predicate answers", "Unit tests never build a condition tree.",
     ["lib/logic.c", "lib/schema.c"], [("logicgroup_eval, logic_can_be_false, logicgroup_get_condition_count", "lib/logic.c"), ("_get_join_side, _resolve_join_conditions", "lib/schema.c")])
prop("C23", "LIKE patterns match with SQL wildcard meaning",
     "Translating a LIKE pattern produces a regular expression that accepts exactly the texts the pattern describes: % any run, _ one character, bracket sets as written, and every other character only itself.",
     ["inputs"], "every pattern", "No unit test covers pattern translation.",
     ["lib/like.c"], [("like_to_regex", "lib/like.c")])
prop("C24", "NULL and errors pass through operators and functions",
     "An operator, cast or scalar function of an SQL expression yields NULL when one of its arguments is NULL and fails when one fails (the first of them decides), and otherwise yields a value or an error, never NULL. ISNULL yields its first argument unless that is NULL, then its second; an error in the argument it uses is reported. LEFT, RIGHT and SUBSTRING results, concatenations and replacements are valid texts whatever the arguments.",
     ["inputs"], "every combination of argument states and values", "NULL and failing arguments never occur in the unit tests.",
     ["lib/scalarfn.c"], [("fql_op_*, fql_cast_*, fql_isnull_*, fql_left, fql_right, fql_substring, fql_len, fql_replace", "lib/scalarfn.c")])
prop("C25", "An expression yields the value it stands for",
     "Evaluating an expression on a row as integer, float or text yields: for a column the field at its index of the row's first record from its source (from the source of the subquery it came through, if any), NULL if the row has no such record or the record no such field; for the row number, whole record, constant, reference or function call that value, converted to the type asked for, or the function's NULL or error; for CASE the value of the first WHEN that is true, else that of ELSE, else NULL, and an error if a WHEN fails before one is true. A text that is no number fails as a number, and evaluating again gives the same.",
     ["inputs"], "every expression, row and wanted type", "Unit tests never evaluate an expression.",
     ["lib/expression.c", "lib/switchcase.c", "lib/record.c"], [("expression_get_int, expression_get_float, expression_get_stringview", "lib/expression.c"), ("switchcase_eval_to_int, _float, _stringview", "lib/switchcase.c"), ("record_at", "lib/record.c")])
prop("C28", "ORDER BY hands out the rows in the order of their keys",
     "Sorting compares two rows key by key in the order the keys are written, integers and floats by value, texts without regard to case and to trailing blanks, the other way round for DESC; the first key that differs decides. A NULL key sorts as 0 or as the empty text; a key that fails fails the row, which is not added. After the sort the rows are written in that order, each exactly the bytes written for it, and no more rows than TOP asks for; through the API they are handed out one per call, every column with the value written for the row, until the end or TOP is reached. A subquery with ORDER BY has the value of the first row, is NULL when there is no row (or TOP is 0), and fails when there is more than one row and TOP asks for more than one.",
     ["inputs", "programs"], "every set of rows, keys, key types and directions", "No unit test sorts rows.",
     ["lib/order.c"], [("order_add_record, _compare, order_sort", "lib/order.c"), ("_order_select, _order_select_api, _order_select_to_const", "lib/order.c")])
prop("C29", "Character and file-name helpers edit only what they promise",
     "The text helpers count a character in a text (or in its first n bytes), tell whether it occurs, remove exactly the character at a position, lower-case every letter and nothing else, fill a buffer with exactly the asked number of letters and digits, and split a file name at the last dot of its last path component (a leading dot starts no extension when the extension is asked for). They never touch memory outside their arguments.",
     ["inputs"], "every text, including empty ones and ones made only of the special character", "No unit tests; the edge cases are empty and all-matching texts.",
     ["util/util.c"], [["charcount, charncount, strhaschar, removecharat, string_to_lower, randstr, getnoext, getext", "util/util.c"]])
prop("C30", "A selected row's values reach their destination unchanged",
     "A SELECT gives every column of a row to where it goes. Through the API each field gets its column's value as its type, or is marked NULL (and is 0 or empty), and a row is an error exactly if a column fails. For an ORDER BY every column's value is appended to the row file (numbers as their 8 bytes, texts as length and bytes, a NULL as 0 or the empty text), the row's record gets the place where its values start, and nothing written before changes. A written row's record gets its place and length in the output. A subquery used as a value has its only row's value, or NULL, and fails when there is a second row. value IN (SELECT ...) is true exactly when a row of the subquery has an equal value, compared as the type an IN list would be (numbers by value, texts without regard to case and trailing blanks); NULLs are equal to nothing, and an error is reported. Every row counts in the row number.",
     ["inputs"], "every row, column type and destination", "Unit tests never select a row.",
     ["lib/fqlselect.c", "lib/fqllogic.c", "lib/inlist.c"], [("_select_record, _select_record_api, _select_record_order_api, _select_record_to_const, _select_record_to_list, fqlselect_set_as_inlist", "lib/fqlselect.c"), ("fql_logic_subin_i/f/s", "lib/fqllogic.c"), ("inlist_determine_type", "lib/inlist.c")])
prop("C26", "Joins give exactly the matching pairs of rows",
     "A join passes on, for every row of its left side in order, that row with every row of its right side that belongs to it, once each and in the order of the right side, and loses or repeats none, however small the rings between the operators are and however slow the reader of its output is. For a hash join the right rows that belong are those with an equal key (numbers by value, so -0 is 0 and NaN equals nothing; texts without regard to case and trailing blanks; NULL equals nothing, not even NULL); for a cross join all of them. A left row with no partner is passed on alone by a LEFT JOIN, and otherwise goes to the output for rows without a match, or is given back if there is none. The remaining condition of a LEFT JOIN removes the right row, never the left one. A join only writes to an output that has room, says which one it waits for, ends exactly when its input has ended, and starts over when its statement is run again. A key, condition or row that fails is an error.",
     ["inputs", "schedules"], "every pair of tables, key type, ring size and pace of the other operators", "Unit tests never join two tables.",
     ["lib/fqlprocesses.c", "lib/table.c"], [("fql_hash_join, _hash_join_left_side, _hash_join_right_side, fql_cartesian_join, _fill_inbuf, fql_left_join_logic", "lib/fqlprocesses.c"), ("hashjoin_reset, table_hash_join_init", "lib/table.c")])
prop("C31", "Every row goes through the operators of a statement once, in order",
     "Each operator handles the rows of its input one after the other, each exactly once, and only then sends it on or gives it back, once, whatever the sizes of the rings, the pace of the operators around it and the number of rows it may handle in one go; a row is only sent to an output that has room. A table's rows are read in order until its end. WHERE sends on exactly the rows its condition holds for, and the others to the output for those, or back if there is none. DISTINCT sends on exactly the first row of each group. GROUP BY puts every row in its group and sends the groups when the last row is in. SELECT selects every row until it has as many as TOP allows, then turns to the next SELECT of a UNION once the rows before have been read, and ends its output once after the last. ORDER BY keeps the keys of every row, sorts once when all are in, and hands the sorted rows out until TOP. DELETE writes every row that stays once; UPDATE writes every row once, in the table's order, with new values exactly if it matches. An operator says what it waits for, waits for nothing that is there, ends exactly when its input has ended (or when nobody reads its output), and an error in a row is an error of the statement.",
     ["inputs", "schedules"], "every number of rows, ring size, limit and pace of the other operators", "Unit tests never run a statement.",
     ["lib/fqlprocesses.c"], [("fql_read, fql_logic, fql_distinct, fql_groupby, _group_dump, fql_select, fql_orderby, fql_delete, fql_update", "lib/fqlprocesses.c")])
prop("C27", "GROUP BY puts equal rows together and the aggregates are those of their rows",
     "Two rows are in the same group exactly if all their keys agree: numbers as they are printed, texts without regard to case and trailing blanks, and NULL as 0 or the empty text. The groups come out once each, in the order of their first rows, with the keys of that row and the results of the aggregates each at its own place. COUNT is the number of rows of the group; SUM, AVG, MIN and MAX are over the values of its rows that are not NULL, in order, with AVG of integers cut towards zero, texts compared without case and trailing blanks, and the first of equal values kept; a sum beyond the range of integers is an error, as is a key or argument that cannot be evaluated. A row counts in its own group and in no other. Run again, a GROUP BY starts with no groups and no results.",
     ["inputs"], "every sequence of rows, list of keys and aggregates, and type", "Unit tests never group rows.",
     ["lib/group.c", "lib/aggregate.c", "lib/aggregatefn.c", "lib/record.c"], [("group_record, _add_agg_result, _update_agg_result, group_dump_record, _read_aggregate, group_reset, group_add_expression", "lib/group.c"), ("fql_count, fql_min_i/f/s, fql_max_i/f/s, fql_sum_i/f, fql_avg_i/f", "lib/aggregatefn.c"), ("aggregate_resolve, aggregate_reset", "lib/aggregate.c")])
prop("C32", "A record is given back exactly when nothing refers to it any more",
     "The text of a row lies in the record it was read into, and a record copied from it points into the same text. A record is given back to be read into again only when it is in no row and no copy of it is in use, however often it was copied, copied from a copy, and in whatever order the rows are given back; then it is given back once, to the ring it came from, and as new: referred to once, a copy of nothing. Until then it keeps its values, and the record its text lies in is not given back either. Giving a row back empties it and gives back nothing else; no record is lost. A copy has the values, the source and the number of the row it was copied from.",
     ["inputs", "schedules"], "every number of rows, records and copies, and every order of giving them back", "Unit tests never run a statement.",
     ["lib/fqlprocesses.c", "lib/record.c"], [("fqlprocess_recycle", "lib/fqlprocesses.c"), ("record_copy", "lib/record.c")])
json_lines = "\n".join(json.dumps(p) for p in P) + "\n"
open("/verif/properties.jsonl", "w").write(json_lines)
print(len(P))
