"""Which contracts, sources and replay harness decide which property."""
BASE_TRUST = [
    "the verifier in /verif/engine (LLVM-IR reader, symbolic executor, loop analysis) and the solvers z3 / cvc5",
    "clang 18 lowers the C sources to the IR that is verified (passes sroa, simplifycfg, loop-simplify only)",
    "no single allocation exceeds 2^47 bytes (user address space of x86-64 Linux)",
    "the C library's character functions behave as in the C locale",
    "pointer arguments that the contracts call different objects do not overlap (the code declares them restrict)",
]

UTIL = ["util/%s.c" % x for x in ("dgraph", "fifo", "flex", "hashmap", "node", "stringview", "stringy", "util", "vec")]
HM = dict(mods=["hashmap"], harness="hashmap.c", srcs=UTIL)
LF = ["-Wl,--unresolved-symbols=ignore-all"]
XS = ["lib/expression.c", "lib/switchcase.c", "lib/logic.c", "lib/field.c", "lib/record.c"]
EX = ["different arguments of an operator, function or predicate are different expression trees: evaluating one (expression_get_int, _float, _stringview, verified for C25) does not touch the others or the function's own objects",
      "texts hold no NUL byte, are shorter than 2^31 bytes, and a constant's text is followed by a NUL",
      "CAST AS CHAR is asked for less than 2^40 characters, and no intermediate text of a REPLACE reaches 4 GB"]
SF = dict(mods=["scalarfn"], harness="scalarfn.c", srcs=UTIL + ["lib/scalarfn.c"] + XS, ldflags=LF, trust=EX)
PROPS = {
    "C19": SF,
    "C20": SF,
    "C24": SF,
    "C21": dict(mods=["fqllogic"], harness="fqllogic.c", srcs=UTIL + ["lib/fqllogic.c"] + XS, ldflags=LF, trust=EX[:2] + ["the answer for LIKE is not covered; IN (SELECT ...) is property C30"]),
    "C22": dict(mods=["logic", "schema"], harness="logic.c", srcs=UTIL + ["lib/logic.c", "lib/schema.c", "lib/table.c", "lib/field.c"], ldflags=LF, trust=["expressions form trees; the equalities collected while a condition is parsed are predicates of it whose operands have their types","a predicate called through its condition answers true, false or an error (property C21)", "condition groups form a tree; AND and OR groups have two operands, predicates none"]),
    "C25": dict(mods=["expression"], harness="expression.c", srcs=UTIL + XS, ldflags=LF, trust=["a scalar function called through an expression yields a status and, when good, a value of the expression's type (properties C19, C20, C24)", "a record's fields are views of NUL-free text below 2^31 bytes", "a CASE has a value for every WHEN; expressions and conditions form trees"]),
    "C01": HM,
    "C02": HM,
    "C03": HM,
    "C04": dict(HM, mods=["multimap"]),
    "C05": dict(HM, mods=["composite"], trust=["the parts of one composite key have less than 4 GB together and are fewer than 2^32"]),
    "C08": dict(mods=["stringview"], harness="stringy.c", srcs=UTIL, nosan="alignment,shift,pointer-overflow,nonnull-attribute"),
    "C09": dict(mods=["stringview", "util"], harness="stringy.c", srcs=UTIL, nosan="alignment,shift,pointer-overflow,nonnull-attribute"),
    "C10": dict(mods=["stringview", "util"], harness="stringy.c", srcs=UTIL, nosan="alignment,shift,pointer-overflow,nonnull-attribute"),
    "C16": dict(mods=["field"], harness="text.c", srcs=UTIL + ["lib/field.c"]),
    "C17": dict(mods=["field"], harness="text.c", srcs=UTIL + ["lib/field.c"]),
    "C28": dict(mods=["order"], harness="order.c", srcs=UTIL + ["lib/order.c", "lib/fqlselect.c"] + XS, ldflags=LF, nosan="alignment,shift,pointer-overflow,nonnull-attribute",
                trust=["qsort_r orders the entries by a comparison that is consistent: with NaN keys, or texts that differ in control characters after a common start, there may be no such order (C28 then promises only that the comparison is made)",
                       "the file the rows are read back from holds what was written for each row at its offset (open, fstat, mmap and fwrite of the C library)",
                       "the string buffers of different API columns are different objects; the rows' bytes do not overlap the sort's own data",
                       "evaluating one key or column does not touch the others (property C25)"]),
    "C30": dict(mods=["fqlselect", "fqllogic"], harness="fqlselect.c", srcs=UTIL + ["lib/fqlselect.c", "lib/fqllogic.c", "lib/inlist.c"] + XS, ldflags=LF, nosan="alignment,shift,pointer-overflow,nonnull-attribute",
                trust=EX[:2] + ["a set has exactly the values that were added to it, compared as it was made (property C03); equal floats have equal bits once 0 is added",
                       "the writer writes the row it is given and answers the number of bytes; a write to a file succeeds",
                       "the file the rows of an ORDER BY go to ends where the SELECT says; one row has less than 4 GB",
                       "the string buffers of different API columns are different objects", "an asterisk is expanded to expressions with types (op_expand_asterisks)",
                       "evaluating one column does not touch the others (property C25)"]),
    "C26": dict(mods=["hashjoin"], harness="hashjoin.c", srcs=UTIL + ["lib/fqlprocesses.c", "lib/table.c"] + XS, ldflags=LF, nosan="alignment,shift,pointer-overflow,nonnull-attribute",
                trust=["a multimap keeps the values of a key in the order they were added (property C04); equal keys of the join have equal bytes, compared without case and trailing blanks for texts",
                       "a ring gives back what was put in, in order, and a free slot stays free until the process uses it (property C12; each process is the only reader of its inputs and other writers have their slot reserved)",
                       "list functions on a row's records act on the row they are given (node_back, node_push_import, node_enqueue_import: properties C11, C14)",
                       "evaluating a key (property C25) or a condition (C18) touches nothing of the join",
                       "fqlprocess_recycle gives a row back and changes nothing else (property C32); the guess of the number of rows is only a size",
                       "a row that comes to a join has a record of each earlier source and no other"]),
    "C27": dict(mods=["group"], harness="group.c", srcs=UTIL + ["lib/group.c", "lib/aggregate.c", "lib/aggregatefn.c"] + XS, ldflags=LF, nosan="alignment,shift,pointer-overflow,nonnull-attribute",
                trust=["a composite map finds a key again exactly if all its texts agree without case and trailing blanks, and numbers the keys in the order they were set (property C05)",
                       "evaluating a key or an argument touches nothing of the group (property C25)",
                       "snprintf prints a number the same way every time and returns the length it printed; floating-point arithmetic is uninterpreted",
                       "fewer than 2^32 groups, and rows of a group",
                       "the text of a ROW_NUMBER among the expressions of a GROUP BY is not covered"]),
    "C31": dict(mods=["pipeline"], harness="pipeline.c", srcs=UTIL + ["lib/fqlprocesses.c"] + XS, ldflags=LF, nosan="alignment,shift,pointer-overflow,nonnull-attribute",
                trust=["a ring gives back what was put in, in order, and a free slot stays free until the process uses it (property C12; each process is the only reader of its inputs and other writers have their slot reserved)",
                       "fqlprocess_recycle gives a row back and changes nothing else (property C32)",
                       "what is called with a row answers for that row and touches nothing of the operator: the reader, the condition (C18), group_record, order_add_record and the sort (C28), the destination of a SELECT (C30), fqlselect_next_union, the writer",
                       "the rows of a table that is updated are numbered one by one, and each comes to one of the two inputs, in order",
                       "one row always fits the output of a statement without a table; DISTINCT always waits for its input",
                       "TOP of DELETE and UPDATE, and DELETE and UPDATE of a join (fql_delete_filter, fql_update_filter), are not covered"]),
    "C32": dict(mods=["recycle"], harness="recycle.c", srcs=UTIL + ["lib/fqlprocesses.c"] + XS, ldflags=LF, nosan="alignment,shift,pointer-overflow,nonnull-attribute",
                trust=["node_pop_export takes the first record off a row (property C11), a ring keeps what is put in (property C12), vec_extend copies the fields (property C06)",
                       "node k holds record k (a numbering, no restriction); atomic operations are taken one after the other",
                       "a record is copied only while it is in a row or copied, into a record that is in no row and not copied, so the chain of copies ends; fewer than 2^31 references to a record"]),
    "C29": dict(mods=["util"], harness="text.c", srcs=UTIL + ["lib/field.c"]),
    "C11": dict(mods=["node"], harness="node.c", srcs=UTIL),
    "C12": dict(mods=["fifo"], harness="fifo.c", srcs=UTIL),
    "C13": dict(mods=["flex"], harness="flex.c", srcs=UTIL),
    "C14": dict(mods=["dgraph"], harness="dgraph.c", srcs=UTIL),
    "C15": dict(mods=["bitvec"], harness="bitvec.c", srcs=UTIL),
    "C06": dict(mods=["vec"], harness="vec.c", srcs=UTIL),
}

NOTE = ("Every obligation generated from the current sources for the functions under contract is proved for all inputs and all loop iterations; "
        "assumes the trusted library models and the verifier itself (listed in the evidence file); termination only where a variant is given. "
        "A short native run of the real code against a reference accompanies it as a cross-check of the trusted models.")
NA = {}
