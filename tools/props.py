AI = "abstract interpretation of the source (symbolic values, type and ordering facts)"

P("C01", "NULL operands give NULL results in scalar functions",
  "A built-in scalar function (string, numeric, date/time, bit, comparison, cast and JSON functions) whose required operand is NULL yields NULL, whatever the other operands are. Exempt are the predicates defined on NULL itself (IS, IS NOT, EXISTS), functions for which NULL is a value (JSON_ARRAY, JSON_OBJECT, JSON_ENCODE, and JSON_DEPTH/KEYS/LENGTH/VALID of a NULL document), list-search operands of ELT and FIELD, and optional operands.",
  ["inputs"], "every registered scalar function, every legal argument count, every operand position holding NULL, every value of the other operands",
  "The tests call each function with a handful of non-NULL constants; the claim ranges over every function, position and companion value.",
  [MF + x for x in ("string_funcs.py", "number_funcs.py", "datetime_funcs.py", "json_funcs.py", "regexp_funcs.py", "logical_funcs.py")],
  [("NULL guards at the head of each function", MF), ("exceptions become NULL", "syncanysql/calculaters/mysql_calculater.py MysqlCalculater.calculate")],
  AI + ": every path of every registered function with NULL at one position",
  "Exhaustive over functions, argument counts, positions and abstract paths (loops over unknown collections unrolled twice). Trusts that library functions return non-None or raise, and that None passed to math/re/base64/... raises.")

P("C02", "Comparison operators follow three-valued logic and agree with one another",
  "For all operand values, `=`, `<>`, `<`, `<=`, `>`, `>=` and IN give NULL when a compared operand is NULL (IN: unless another element is equal), IS and IS NOT never give NULL, and NOT maps NULL to NULL. For non-NULL operands of comparable kinds the six comparisons give 1 or 0 exactly as the ordering of one and the same pair of converted operands dictates, so that they are mutually consistent.",
  ["inputs"], "every pair of operand kinds (NULL, boolean, integer, float, decimal, string, bytes, date, datetime, time, unknown) and every ordering of the compared values; every IN list",
  "Tests compare a few constants; agreement between the six operators for every kind pair and the NULL rules are universally quantified.",
  [MF + "logical_funcs.py", MF + "__init__.py", "syncanysql/calculaters/mysql_calculater.py"],
  [("comparison functions", MF + "logical_funcs.py"), ("type alignment before comparing", MF + "logical_funcs.py")],
  AI + ": truth tables over the three orderings of the compared pair",
  "Values reach the result only through comparisons, so three orderings are exhaustive per kind pair. Trusts Python's ordering of same-kind values and the conversion helpers.")

P("C03", "A scalar function sees exactly its operands, and its failure is a NULL",
  "Every built-in scalar function called from SQL receives the operands given in the statement, all of them, in order, with omitted optional operands at their documented defaults, and its result is the value of the expression. If evaluating the function raises an error (conversion, arithmetic, index, encoding, ...), the expression is NULL and the statement goes on.",
  ["inputs", "fault_sequences"], "every registered scalar function, every legal operand count, every exception class an implementation can raise",
  "The tests never make an implementation fail and cover few operand counts; the guarantee is for every function and failure.",
  ["syncanysql/calculaters/mysql_calculater.py", MF + "__init__.py"],
  [("argument passing and exception containment", "syncanysql/calculaters/mysql_calculater.py MysqlCalculater")],
  AI + " of the dispatching code with recording stand-ins for the implementations",
  "Exhaustive over registered functions, operand counts and nine exception classes. Decides the dispatch, not the numeric results.")

P("C04", "Aggregates are functions of the non-NULL values of the group",
  "COUNT, COUNT DISTINCT, SUM, AVG, MAX, MIN, GROUP_CONCAT, GROUP_ARRAY, GROUP_UNIQ_ARRAY, BIT_AND/OR/XOR, JSON_ARRAYAGG and JSON_OBJECTAGG give, for every sequence of rows, the value their definition assigns to the non-NULL values alone. NULL rows, wherever they stand, do not change the result, and a group without any non-NULL value does not fail.",
  ["inputs", "histories"], "every sequence of rows, each NULL or any value of the aggregate's operand kinds (sequences decided up to length 3, thorough 4, by symbolic rows)",
  "Tests aggregate small fixed tables without NULLs in critical positions; position and number of NULLs are unbounded.",
  ["syncanysql/calculaters/aggregate_calculater.py"],
  [("aggregate / final_value of each aggregate", "syncanysql/calculaters/aggregate_calculater.py")],
  AI + ": fold over symbolic row sequences, compared in normal form with the definition",
  "Exhaustive for NULL/value sequences up to the length bound with symbolic values; longer groups follow the same transition. Floating-point rounding is not modelled.",
  state=[("state value", "partial result of a group", "syncanysql/calculaters/aggregate_calculater.py")])

P("C05", "Merging partial aggregates equals aggregating the whole group",
  "When a group is processed in batches, finalising the merged partial states gives the same result as aggregating all rows of the group at once, for every aggregate function and every way of cutting the group into parts. Merging with an absent part keeps the other part unchanged.",
  ["inputs", "histories"], "every aggregate, every cut of a row sequence into two or three parts (rows symbolic, each possibly NULL; total length up to 3, thorough 4), merged left to right",
  "Batch execution is exercised by one or two fixed examples; the law quantifies over all cuts and all values.",
  ["syncanysql/calculaters/aggregate_calculater.py"],
  [("reduce of each aggregate", "syncanysql/calculaters/aggregate_calculater.py")],
  AI + ": both computations on the same symbolic rows, compared in normal form",
  "Exhaustive up to the row bound; + & | ^ are taken as associative and commutative.")

P("C07", "Positional window functions answer from the right row, inside the partition",
  "For a row at position i of an ordered partition of N rows, LAG(x, k) and LEAD(x, k) (k defaults to 1) give x of the row at i-k and i+k when that row exists and otherwise the third operand or NULL, FIRST_VALUE/LAST_VALUE give x of the first and last row, NTH_VALUE(x, n) for n >= 1 that of the n-th row or its default, and ROW_NUMBER gives i's ordinal. No row outside the partition is ever read.",
  ["inputs"], "every partition size, every position and every integer offset",
  "Tests use one small table and offset 1; sizes, positions and offsets are unbounded integers.",
  ["syncanysql/calculaters/window_calculater.py"],
  [("order_aggregate of each window function", "syncanysql/calculaters/window_calculater.py")],
  AI + " with a linear-inequality domain over position, offset and partition size",
  "Unbounded in size, position and offset. Assumes the engine passes 0 <= i < N and rows as (row, order value, calculated values). RANK/DENSE_RANK/PERCENT_RANK/CUME_DIST/NTILE formulas are not claimed.")

P("C24", "DELETE removes rows by its whole WHERE condition or is rejected",
  "A DELETE statement either is rejected with a compile error or deletes from the named table by exactly its WHERE condition: every comparison of the AND-ed conditions takes part with its operator and value, and nothing is dropped or added. Without WHERE every row is deleted. AND-ed comparisons (=, <>, <, <=, >, >=, IN) of different columns with non-NULL constants are accepted, and a DELETE writes no rows.",
  ["inputs"], "every comparison of every operand kind and every AND/OR/parenthesis tree over them in the WHERE of a DELETE",
  "Tests delete with one or two fixed conditions; a condition that cannot be handed to the table must make the statement fail for every combination, not delete too much.",
  ["syncanysql/compiler.py"],
  [("compile_delete", "syncanysql/compiler.py Compiler.compile_delete"), ("compile_where_condition", "syncanysql/compiler.py Compiler.compile_where_condition")],
  AI + " of compile_delete on abstract statements; conditions of the resulting task compared as sets of conjuncts with the statement's",
  "Conditions as in C09. How a storage driver carries out the conditions is the engine's and not claimed.")

P("C27", "A nested query means what it means on its own",
  "A SELECT or UNION used as derived table (FROM, JOIN), common table expression, scalar subquery without outer references or source of INSERT is computed exactly as it is on its own: same conditions, columns, grouping, ORDER BY, LIMIT and OFFSET, nothing inherited from or lost to the query around it, which in turn behaves as over an ordinary table holding those rows. A common table expression is visible only inside its statement and after its definition (in itself only with RECURSIVE); it never reads or changes a table of the same name, and every derived table of a statement has its own rows. A column list after the name of a derived table or common table expression names the columns by position; a list of another length is rejected.",
  ["inputs", "histories"], "every query of a list covering the clauses of SELECT (thorough: joins, nested and chained queries) in every nesting position, and surrounding queries with their own WHERE/GROUP/ORDER/LIMIT",
  "Tests run a few fixed nested statements once; that nothing leaks between the levels holds per combination of clauses, and name clashes need two statements or particular names.",
  ["syncanysql/compiler.py"],
  [("compile_with, compile_subquery", "syncanysql/compiler.py Compiler"), ("arguments of nested tasks", "syncanysql/taskers/query.py QueryTasker.start")],
  AI + " of compile_query on abstract statements; the task of the nested query compared in normal form with the task compiled on its own",
  "Bounded list of inner and outer queries. Decides the compiled tasks, not their execution; correlated subqueries are not claimed.")

P("C13", "INSERT writes the rows given, column by column, in the mode asked for",
  "INSERT VALUES hands every tuple to the target, in order, each value under the column of its position and unconverted unless the column declares a type or all its values have that type; tuples of another length, values depending on rows and a missing column list are rejected. INSERT with a SELECT writes exactly the rows of the SELECT, to the listed columns by position if there is a column list (another number of columns is rejected). The merge mode is the one of the target's options in any case, else of @use_output_type, else plain insert, for every kind of source, and merging uses columns the rows have.",
  ["inputs"], "all pairs (thorough: triples) of values of every kind in 1 to 6 columns, every mode in every spelling with every kind of source, every query of the list of C27 as source",
  "Tests insert a few integer and string rows; conversion depends on the kinds of all values of a column, and modes combine with sources.",
  ["syncanysql/compiler.py"],
  [("compile_insert_into, compile_insert_columns, parse_const", "syncanysql/compiler.py Compiler")],
  AI + " of compile_query on abstract INSERT statements; rows, columns, modes and keys of the compiled task compared with the statement",
  "Bounded number of tuples and columns. The writing itself is done by external output drivers.")

P("C33", "A UNION gives the rows of its branches by position",
  "The task compiled for a UNION runs every branch exactly as it would run on its own (its conditions, grouping, ORDER BY, LIMIT), in the order written, collecting all rows of every branch. The columns are those of the first branch and the other branches give their values by position, whatever they call them; a branch with another number of columns is rejected.",
  ["inputs"], "all pairs (and triples) of queries of the list of C27 as branches, nested to the left and right, at the top, in subqueries, CTEs and INSERT",
  "Tests run unions of two simple selects; renaming by position must keep every other clause of any branch.",
  ["syncanysql/compiler.py"],
  [("compile_union, compile_union_column, compile_rename_column", "syncanysql/compiler.py Compiler")],
  AI + " of compile_query on abstract unions; each branch compared in normal form with the task compiled on its own",
  "Bounded list of branch queries and of two to three branches. Decides the compiled tasks, not their execution.")


P("C10", "Comma lists, INNER, CROSS and RIGHT JOIN are rewritten to what they mean",
  "A SELECT over a comma list or with INNER, CROSS or RIGHT JOIN is executed as LEFT JOINs that mean the same: every table, ON and WHERE condition and other clause written is kept exactly once, an INNER JOIN (and CROSS JOIN with ON) excludes the rows without a match in its table while a LEFT JOIN beside it is not filtered, and a RIGHT JOIN keeps all rows of its table with its whole condition as the join condition. Comma-listed tables are joined only on conditions that are AND-ed parts of WHERE, never on a part of an OR, and all of WHERE is still applied. Joins without such a form (USING, NATURAL, FULL, SEMI, ANTI, INNER without a directly compared column, RIGHT after a join keeping all rows) are rejected with a compile error.",
  ["inputs"], "some 90 join sequences (comma, INNER, LEFT, CROSS, RIGHT, subqueries as tables, up to four tables) x ON conditions (comparisons in both directions, constants, OR, IN, calculations, functions) x ten WHERE conditions x four select shapes, at the top and in INSERT",
  "Tests run a few two-table joins; which condition may move where depends on the combination of join kinds, tables and conditions.",
  ["syncanysql/compiler.py"],
  [("optimize_rewrite_multi_select", "syncanysql/compiler.py Compiler.optimize_rewrite_multi_select"), ("optimize_rewrite_right_join", "syncanysql/compiler.py Compiler.optimize_rewrite_right_join"), ("optimize_rewrite_inner_join", "syncanysql/compiler.py Compiler.optimize_rewrite_inner_join")],
  AI + " of compile_query on abstract join statements; the statement handed to compile_select compared clause by clause with the one written",
  "Bounded list of join sequences and conditions. Decides the rewriting; how LEFT JOINs and their conditions are compiled is C09, how they are executed is the engine's.")

P("C26", "ORDER BY, LIMIT and OFFSET are applied to the result as written",
  "The rows of a SELECT are sorted by exactly its ORDER BY items, in order and direction, each naming the output column of that name, the output column with that expression, or the column of the table it is qualified with (also when another output column has its name), or the statement is rejected. Exactly the rows OFFSET to OFFSET+LIMIT of the sorted result are given (LIMIT m,n means offset m), whatever WHERE, HAVING, GROUP BY, DISTINCT, aggregates, window functions, joins or row-generating functions the statement has: a limit is only used to read less when every row read gives one row of the result in that order.",
  ["inputs"], "eleven select lists x five FROM clauses x every ORDER BY item and pair of items x LIMIT/OFFSET forms x fourteen row-changing clauses; the parser's LIMIT forms on abstract tokens",
  "Tests sort and limit a few fixed selects; which sort or limit may be pushed to the loader depends on the combination of clauses and names.",
  ["syncanysql/compiler.py"],
  [("compile_order", "syncanysql/compiler.py Compiler.compile_order"), ("limit in compile_select", "syncanysql/compiler.py Compiler.compile_select"), ("_parse_limit, _parse_offset", "syncanysql/compiler.py CompilerDialect.Parser")],
  AI + " of compile_query on abstract statements; effective sort and row range of the task compared with those written",
  "Bounded list of statements. Decides the compiled task; the engine's sort (NULLs, mixed types) and batch mode, which sorts and cuts per batch, are not claimed; ORDER BY and LIMIT after a UNION belong to its last SELECT.")

P("C35", "Aggregates and window functions are computed over what the SELECT says",
  "In a SELECT, every aggregate is that function over its own operand for each of the groups made by exactly the GROUP BY items (a bare name of an output column that is not itself aggregated meaning that column, wherever it stands in the list), every window function has the operands, partition, order and directions written, and an expression over aggregates or window functions is that expression over their finished values and over the columns of the group or row. GROUP BY without aggregates gives one row per group and SELECT DISTINCT (without GROUP BY, aggregates or window functions) one row per combination of all its columns; aggregates inside aggregates, WHERE, GROUP BY, HAVING or OVER, DISTINCT in an aggregate other than COUNT, and unknown extra arguments of an aggregate are rejected.",
  ["inputs"], "every aggregate and window function x operand forms x GROUP BY / PARTITION BY / ORDER BY items x expressions over them x output columns of every name and place, over a table, an aliased table, a join and a derived table",
  "Tests run a few fixed aggregate queries; which operand, key or finished value each position of an expression gets depends on the combination of columns, names and tables.",
  ["syncanysql/compiler.py", "syncanysql/calculaters/aggregate_calculater.py", "syncanysql/calculaters/window_calculater.py"],
  [("compile_aggregate_column, compile_window_column", "syncanysql/compiler.py Compiler.compile_aggregate_column"), ("group and window keys", "syncanysql/compiler.py Compiler.compile_aggregate_key"), ("distinct and group columns", "syncanysql/compiler.py Compiler.compile_distinct_column")],
  AI + " of compile_query on abstract statements; the steps of each aggregated column compared with the forms the same expressions have as plain columns",
  "Bounded list of expressions and keys. Decides the compiled task: window frames, DISTINCT together with GROUP BY or window functions, aliases of aggregates used inside other expressions and the formulas of RANK, PERCENT_RANK, CUME_DIST and NTILE are not claimed.")

P("C34", "Every written select column is output with its own value",
  "A SELECT outputs exactly the columns written (distinct names), in order: a column with its alias, a bare column under its name (TABLE.name when it is qualified and that name is already output), any other expression under its SQL text, and each has the value it would have if it were selected alone, whatever else is selected. `*` and `t.*` over a derived table give all its columns in order except names already output; `*` over a source of unknown columns gives all fields and is rejected beside any other column, as are `t.*` of such a source and columns of tables that are not in the FROM clause.",
  ["inputs"], "select items of every kind alone, in every pair and in sampled triples, aliased and not, over no table, a table, an aliased table, one and two joins, derived tables and a CTE; stars in every place",
  "Tests select a few fixed lists; whether a column is lost or changed by another one depends on the combination of names, tables and kinds of items.",
  ["syncanysql/compiler.py"],
  [("compile_select", "syncanysql/compiler.py Compiler.compile_select"), ("stars", "syncanysql/compiler.py Compiler.compile_select_star_column"), ("column names", "syncanysql/compiler.py Compiler.compile_select_column")],
  AI + " of compile_query on abstract statements; output columns and their forms compared with those of each item selected alone",
  "Bounded list of items. Aggregates and window functions are C35's, the meaning of one expression C08's and of a joined column C10's. An expression in parentheses that is only a column needs an alias; a lone function call without columns over a derived table is the documented pipeline form.")

P("C32", "A file table is exactly the file written",
  "A table name ending in .txt, .csv, .json, .xls or .xlsx, or written as a file:// URL, names exactly that file wherever a table may stand (FROM, JOIN, nested queries, UNION, INSERT target, DELETE): the directory relative to the working directory, the file name, the driver of the extension (text lines otherwise), every URL parameter with its decoded value, and the line format of a type option such as <csv>. This holds whatever other file tables the statement uses: two references share a database exactly if directory, driver, parameters and format are equal, otherwise each keeps its own. A plain name is a table in memory, a name qualified with a database is a table of that database, and a table variable names what its string value would.",
  ["inputs"], "50 written names (extensions, relative, parent and absolute directories, names with spaces, #, dots and unicode, URL parameters with escapes, type options, memory and standard output tables) in 14 positions, all pairs and triples of them in one statement",
  "Tests use one file at a time; whether two files of one directory are confused depends on the pair of names, parameters and formats.",
  ["syncanysql/compiler.py"],
  [("tables", "syncanysql/compiler.py Compiler.parse_table"), ("insert target", "syncanysql/compiler.py Compiler.compile_insert_into"), ("delete", "syncanysql/compiler.py Compiler.compile_delete")],
  AI + " of compile_query and compile_delete on abstract statements; each reference resolved through the databases of its task and compared with the definition its name states",
  "Bounded list of names; os.path, urllib and the working directory are modelled by their documented behaviour. What the drivers of the syncany library do with a definition is not analysed; names with + in a URL path, upper case extensions and URLs that do not parse are not covered.")


P("C12", "A script is split into exactly its statements",
  "A script is divided at every `;` that stands outside of quotes (single, double, backtick; a backslash in quotes keeps the next character from ending them) and comments (# or -- to the end of the line, /* to the next */), and nowhere else; each piece that has a letter outside of quotes and comments is one statement, with exactly the text from that letter up to the `;` or the end and the number of the line it starts in, and unterminated quotes or /* comments are rejected. Inside a statement, a name in backticks is the text between them, whatever it contains and the same wherever it is written, and no part of strings or comments is taken for such a name.",
  ["inputs"], "texts of any characters: after each of 22 (names: 17) beginnings, one per lexical situation, 2 or 3 (thorough 4) characters of any class and each of 6 (4) ends",
  "Tests run a few well-formed scripts; a semicolon, quote or backslash in an unlucky place swallows or cuts statements.",
  ["syncanysql/parser.py", "syncanysql/compiler.py"],
  [("splitting", "syncanysql/parser.py SqlParser.split"), ("quoted names", "syncanysql/compiler.py Compiler.parse_mapping"), ("quotes", "syncanysql/parser.py SqlParser.skip_escape")],
  "abstract interpretation of SqlParser.split and Compiler.parse_mapping over texts whose characters are known by class only; pieces compared cell by cell with the lexical rules",
  "Bounded number of unknown characters. Statements are taken to begin with a letter; a backslash right before a closing backtick, the raw(...) blocks and ${...} variables of the executor and what sqlglot does with a statement are not covered.")


P("C15", "Variables are read from the nearest scope, as last written",
  "For every sequence of writes (set_variable, SET, SET GLOBAL, SELECT INTO, @v := value) made through the engine, its contexts and executed script files, get_variable, @v and ${@v:default} give the value last written in the nearest scope that has the variable - file, context, engine, then global -, where the SETs of a script take effect in order when it is compiled, before its statements run, and a name without @ stands for the variable unless one with @ is set in the same scope. A read never sees what a sibling context or an executed file set for itself; an unknown variable is NULL, or the default given. A SET of a number, string, TRUE, FALSE or NULL literal stores exactly that value, strings with their blanks and quotes (backslashes as written).",
  ["inputs", "histories"], "histories of 2 (thorough 3) of 24 operations at three levels, scripts of 2 or 3 statements, 25 literals in four forms of SET, `${...}` texts",
  "Tests set a variable and read it back; which scope a write lands in and which one a read prefers depends on the history.",
  ["syncanysql/executor.py", "syncanysql/__init__.py", "syncanysql/taskers/set.py", "syncanysql/config.py"],
  [("scopes", "syncanysql/executor.py EnvVariables"), ("SET", "syncanysql/taskers/set.py SetCommandTasker"), ("contexts", "syncanysql/__init__.py ExecuterContext")],
  AI + " of the engine, its contexts, executor and compiler on histories of scripts over modelled databases; reads compared with a layered dictionary",
  "Bounded histories. The library's task runner and databases are modelled (one primary load, output written as computed). SETs of a whole script taking effect before its queries run is what the repository's own tests require.")

P("C25", "SELECT INTO stores the query's result in the variable",
  "`SELECT INTO @v` stores the result of the query: for one column its value if there is exactly one row and otherwise the list of values (also of none), for several columns the row as an object if there is exactly one and otherwise the list of rows, for `SELECT *` the same as the rows tell; until it runs the variable keeps its value (NULL if it had none). The query is run by the same tasks as without INTO except for where its last stage writes: a collection of its own that is gone afterwards, no other collection being touched. Each INTO of a script keeps its own rows and later statements read them; INTO anything but one variable is rejected.",
  ["inputs", "histories"], "plain, aggregate, union and subquery SELECTs with one, several or * columns, results of 0 to 3 rows of any values, scripts with several INTOs",
  "Tests use INTO on a couple of results; the shape of the value depends on rows and columns together, and left-over collections are invisible.",
  ["syncanysql/compiler.py", "syncanysql/taskers/into.py", "syncanysql/executor.py"],
  [("compile_select_into", "syncanysql/compiler.py"), ("IntoTasker", "syncanysql/taskers/into.py IntoTasker")],
  AI + " of compiler, executor and taskers with a modelled task runner; stored values and the left-over collections compared with the rows the query wrote",
  "The rows a query gives are those of the modelled runner; several variables in INTO are rejected (as now).")


P("C14", "Settings come from the nearest source and stay where they are set",
  "The configuration is the merge, in this order, of the config.json and config.yaml of the home directory, those of the working directory (each after the files it extends) and the configuration given to the engine, which is not modified: databases and caches merge by name and setting, imports, sources, defines, variables, options and logger by key, states and executes are appended, anything else is replaced by the later source; the `-` and `--` databases exist, the file encoding and date formats apply to the textline, json and csv databases. Every task is compiled with the settings of the level it runs at - global (SET GLOBAL @config...), engine, context, executed file, the nearest winning, merged the same way - as they are at that time; SET @config..., virtual views and use() change their own level only. A value set is stored as given (JSON text for databases, defines, variables and options as its value, functions and modules as they are), NULL removes what this level has set.".replace("@config...", "@config"),
  ["inputs", "histories"], "all subsets of the four files with and without a given configuration, chains of extended files; histories of 2 (thorough 3) changes in five families of settings at global, engine and two context levels, read after each change",
  "Tests run with one configuration; which source wins, what a reader has cached and what leaks to siblings depends on combination and order.",
  ["syncanysql/config.py", "syncanysql/executor.py", "syncanysql/taskers/set.py", "syncanysql/__init__.py"],
  [("merge", "syncanysql/config.py GlobalConfig.merge_config"), ("sessions", "syncanysql/config.py SessionConfig.get"), ("loading", "syncanysql/config.py GlobalConfig.load")],
  AI + " of configuration, SET and engine on histories of changes; what the reader of context://session/config answers compared with a layered merge",
  "Bounded histories; file parsing is the library's. A setting removed at a level does not hide that of an outer level; `SET @config.caches` and a malformed JSON database are not covered.")


P("C16", "A statement sees its own level, also when it runs further scripts",
  "While a statement is compiled or run, `@` variables and configuration read by it are those of the engine, context or executed file whose script it belongs to, also before and after the functions it calls execute scripts on the same or other levels. Such an inner script, succeeding or failing, runs exactly its own statements in order before the function returns, and the outer script's statements all run afterwards, each once and in order. `ScriptEngine.current_context()` is the innermost context entered with `with` and not left yet.",
  ["inputs", "histories"], "scripts of one to five statements and executed files at three levels, inner scripts at any level (also the same one) run by the first or last statement, nested two (thorough three) deep, with a failing or unparsable statement; sequences of up to three entered contexts",
  "The tests never execute a script from within a running statement; which executor is current and whose queue is run depends on the nesting.",
  ["syncanysql/executor.py", "syncanysql/__init__.py", "syncanysql/taskers/execute.py"],
  [("Executor.current", "syncanysql/executor.py Executor"), ("ExecuterContext", "syncanysql/__init__.py ExecuterContext"), ("ExecuteTasker", "syncanysql/taskers/execute.py")],
  AI + " of engine, contexts, executor and taskers with a modelled task runner; the events of every run compared with those the rules give",
  "One thread; the functions run scripts at the modelled points (while the query of a statement runs).")

P("C17", "Intermediate results are there while needed and gone afterwards",
  "Each internal collection (`--.__subquery_`, `__unionquery_`, `__withquery_`, `__into_`...) a task of a statement reads holds exactly what the tasks feeding it have written; once the statement has ended - also when one of its tasks failed or was interrupted - none of its internal collections is left. No other collection is touched apart from the statement's target. This holds with and without batches, and also when another statement is executed while a task runs.",
  ["inputs", "faults"], "33 forms of query as SELECT, INSERT ... SELECT and SELECT ... INTO, unbatched and in two batches, a failure (ordinary or interrupting) at each task before and after each write, another statement run at the same or another level during each task",
  "Left-over collections are invisible to tests that look at results, and faults at a given task of a given query form are not tested at all.",
  ["syncanysql/taskers/query.py", "syncanysql/taskers/into.py", "syncanysql/executor.py", "syncanysql/compiler.py"],
  [("run_tasker, check_free_temporary_memory_collection", "syncanysql/taskers/query.py QueryTasker"), ("clear_temporary_memory_collection", "syncanysql/executor.py Executor"), ("IntoTasker", "syncanysql/taskers/into.py")],
  AI + " of compiler, executor and taskers with a modelled task runner and memory database (generators run step by step); contents of the collections at each read and at the end",
  "The `--` database is the memory one; @streaming is not covered.")

P("C18", "A failing statement ends its script, and only that",
  "When a statement of a script cannot be parsed or compiled, no query of the script runs; when a query fails or is interrupted while it runs, the queries before it have run and none after it does, also when it stands in an executed file. The caller of execute() receives that very failure. A script executed afterwards, on the same or another level, runs exactly its own statements.",
  ["inputs", "histories"], "scripts with and without (nested, repeated) executed files at three levels, a failure of six kinds at each statement, followed by one or three further scripts at any level",
  "Tests run scripts that succeed; statements left in a queue show only in what is executed next.",
  ["syncanysql/executor.py", "syncanysql/__init__.py", "syncanysql/taskers/execute.py"],
  [("Executor.run / execute", "syncanysql/executor.py"), ("ExecuterContext.execute", "syncanysql/__init__.py")],
  AI + " of engine, executor and taskers with a modelled task runner; the events of every run compared with those the rules give",
  "What a failing query has written before it failed is not undone (nor promised).")


P("C19", "The Python interface does the same at module, engine and context level",
  "At the module, an engine and each of its contexts: push_memory_datas(name, row or rows) adds rows to that table of the `--` database, get_memory_datas gives all its rows, pop_memory_datas gives and removes them, statements see the same table, other tables are untouched; get_database(name, by default `--`) is the configured database, the same one each time, and DatabaseUnknownException for an unknown name or driver. Closing an engine (close(), the end of `with`, which never hides an exception, or the module's close()) closes its task manager and the databases it gave out, once, and the module then starts a new engine. terminal() of the module or engine terminates the task running in the context entered, or else the engine's; that of a context its own.",
  ["inputs", "histories"], "histories of up to three pushes, gets, pops and INSERTs over four levels; pairs of get_database calls; closings in three ways after up to three operations; terminal() at four levels from statements of four levels, also nested ones, in a context or not",
  "Tests use push and get of one engine; the wrappers at the other levels, closing and terminating are not tested.",
  ["syncanysql/__init__.py", "syncanysql/executor.py", "syncanysql/taskers/execute.py"],
  [("ScriptEngine", "syncanysql/__init__.py ScriptEngine"), ("ExecuterContext", "syncanysql/__init__.py ExecuterContext")],
  AI + " of the interface with modelled databases and task runner; results, tables and what was closed or terminated compared with a plain model",
  "The rows themselves are kept by the library's memory database, modelled here; one thread.")

P("C20", "The command line runs what it was given and reports how it ended",
  "`syncany-sql` executes the files configured to be executed first, then the script of its argument (.sql, .sqlx, .prql in any case), else that of a standard input that is not a terminal (surrounding quotes removed, nothing if empty), else the prompt, in order up to the first failure. Its status is 0 after success, 1 after a failure (of the configuration, of any statement or a missing file), 130 after an interrupt (KeyboardInterrupt, SystemError) and 2 for an argument that is no script on a terminal; the task manager is closed in every case. SIGTERM and SIGHUP terminate the task running then.",
  ["inputs", "faults"], "terminal or pipe, 8 kinds of arguments and 7 of standard input, four lists of files executed first, ten failures of compiling or running a statement, failing configuration; both signals in five runs",
  "The tests never run main(); a wrong status or a swallowed failure shows only in the scripts that depend on it.",
  ["syncanysql/main.py", "syncanysql/executor.py", "syncanysql/taskers/execute.py"],
  [("main", "syncanysql/main.py main")],
  AI + " of main with the standard input, arguments and task runner modelled; events and status compared with a table",
  "What the prompt does is not covered; signals arrive while a task runs.")


P("C31", "Evaluating an expression changes neither its operands nor shared state",
  "Evaluating a built-in scalar function leaves its operands (the values of the row, including JSON documents and everything nested in them) and all state shared between evaluations unchanged; the result of modifying functions such as JSON_SET and JSON_REMOVE is a new value. Feeding a row to an aggregate leaves the row's value unchanged.",
  ["inputs", "histories"], "every scalar function and aggregate, every operand position holding a JSON object or array of any content, every order of evaluations",
  "Tests look at the returned value only, never at the operand or the source table afterwards.",
  [MF + "json_funcs.py", MF, "syncanysql/calculaters/aggregate_calculater.py"],
  [("copy before modifying", MF + "json_funcs.py"), ("stateless functions on cached calculater instances", "syncanysql/calculaters/mysql_calculater.py")],
  AI + ": ownership of every store / mutator call (operand, global or fresh object)",
  "Nested documents decided to depth two, loops unrolled twice, at most 400 (thorough 4000) paths per shape. Mutation inside external libraries is not modelled (json/re/math do not mutate).")

P("C08", "An SQL expression compiles to the calculation it means",
  "Every operator, conditional (AND, OR, NOT, IF, IFNULL, COALESCE, CASE, BETWEEN, IN), CAST, variable and function call in a SELECT expression is compiled to the calculation with that SQL meaning: the calculater of that operator or function, operands in written order, none dropped or duplicated, the right branch chosen. The same holds for comparisons, AND, OR, BETWEEN, IN and LIKE in HAVING.",
  ["inputs"], "every expression: structural induction over expression node kinds, with column, constant (numbers, strings, NULL), variable, calculated, function and parenthesised operands",
  "Tests evaluate a few dozen expressions; operators, operand kinds and nesting combine without bound.",
  ["syncanysql/compiler.py"],
  [("compile_calculate", "syncanysql/compiler.py Compiler.compile_calculate"), ("compile_having_condition", "syncanysql/compiler.py Compiler.compile_having_condition")],
  AI + " of the compiler on abstract syntax trees, nested compilation replaced by the induction hypothesis; compiled forms compared by meaning",
  "Exhaustive over node kinds and operand kinds. Trusts the engine to evaluate compiled forms (#if, #make, #case, @function) as documented and sqlglot to parse; three-valued NULL logic of AND/OR/NOT is not claimed.")


P("C09", "WHERE and ON conditions are applied completely, wherever they are evaluated",
  "A SELECT applies exactly its WHERE condition and a join exactly its ON condition: the comparisons handed to the loader, the join keys and the conditions evaluated on rows together are the AND of precisely the conditions written (operator, direction and operands kept, OR never split, nothing dropped or repeated). A comparison is only handed to the loader when its value does not depend on the row and is not NULL, and never as a second condition that the loader would merge with or overwrite an earlier one of the same column.",
  ["inputs"], "every comparison of every operand kind (columns of the primary and a joined table, constants, NULL, variables, calculations, functions, subqueries) and every AND/OR/parenthesis tree over them",
  "Tests run a few fixed conditions; pushing a conjunct down is right or wrong per combination of operator, operand kinds and the conditions around it.",
  ["syncanysql/compiler.py"],
  [("compile_where_condition", "syncanysql/compiler.py Compiler.compile_where_condition"), ("parse_on_condition", "syncanysql/compiler.py Compiler.parse_on_condition")],
  AI + " of compile_select and parse_on_condition on abstract statements; loader conditions and row condition compared as sets of conjuncts with the statement's",
  "All comparisons x operand kinds, pairs of 30 conditions, nested AND/OR up to three conditions. The loader's own comparison (type conversion of the column, NULL rows) is the engine's and not claimed.")
