/* statements used as raw material for generated inputs */
static const char *const corpus[] = {
" ",
"  /* foo */;",
"  ; ",
" ;",
" return 1 /* s;hunter */;",
" return 1; /* foo */; return 2; return 3",
"... cyclists are harmless weekend types,",
"...of the cyclists are harmless weeke...",
"../../config.h",
"../../lib/src/cypher-parser.h",
"../../lib/src/errors.h",
"../../lib/src/util.h",
"/* MATCH */ RETURN *, 1 AS x, 'bar' AS y",
"/* MATCH */ RETURN 1 AS x, 'bar' AS y",
"/* MATCH */ RETURN DISTINCT 1 AS x, 'bar' AS y",
"/* drop! */DROP INDEX ON /* a label */ :Foo(bar);",
"/* drop! */DROP INDEX ON /* a label */ :Foo(bar, baz);",
"/*MATCH*/ DELETE n, CASE WHEN exists(n.foo) THEN m ELSE n END;",
"/*MATCH*/ DETACH DELETE n, CASE WHEN exists(n.foo) THEN m ELSE n END;",
"/*MATCH*/ FOREACH (x IN [1,2,3] | SET n.foo = x REMOVE n.bar)",
"/*MATCH*/ REMOVE n.foo, m.bar.baz",
"/*MATCH*/ REMOVE n:Foo, m:Bar:Baz",
"/*MATCH*/ SET (n.foo).bar = baz;",
"/*MATCH*/ SET n += {foo: bar};",
"/*MATCH*/ SET n = {foo: bar};",
"/*MATCH*/ SET n.foo = bar;",
"/*MATCH*/ SET n.foo.bar = baz;",
"/*MATCH*/ SET n:Foo:Bar;",
"/*foo*/",
"/*foo*/;",
":and \042*/loathing\042",
":bar\012:foo bar\042baz\042",
":foo bar",
":foo bar\012",
":foo bar // baz",
":foo bar // baz\012",
":foo bar\042baz\042",
":foo bar\042baz\042\012",
":foo bar\042baz\042\012 return 2",
":hunter\012",
":hunter\012:s;:thompson // loathing",
":hunter \042s\012thompson",
":hunter /* s\012thompson\012",
":hunter /* s\012thompson */\012",
":hunter /*;s\012*/thompson",
":hunter /*;s\012*/thompson\012",
":hunter //;s\012:thompson \042fear /*\042\012:and \042*/loathing\042",
":hunter \134 //firstname\012s \134\012  \134\012 thompson //lastname\012",
":hunter \134 //firstname\012s \134\012thompson",
":hunter \134 //firstname\012s \134\012thompson //lastname\012",
":hunter s thompson\012",
":hunter\134;s\134\042thom\134\134\042pson;\042",
":hunter\134;s\134\042thom\134\134\042pson;\042\012",
":thompson \042fear /*\042",
":thompson 'hunter s'\012",
":thompson lastname='hunter s'\012",
";",
"CALL foo. bar.baz();",
"CALL foo.bar.baz(1+n, 'foo');",
"CALL foo.bar.baz(1, 2) YIELD -;",
"CALL foo.bar.baz(1, 2) YIELD a AS x, b AS y;",
"CALL foo.bar.baz(1, 2) YIELD a WHERE a = 5;",
"CREATE (n)-[:KNOWS]->(f);",
"CREATE CONSTRAINT ON ()-[f:Foo]-() ASSERT exists(f.bar);",
"CREATE CONSTRAINT ON (f:Foo) ASSERT exists(f.bar);",
"CREATE CONSTRAINT ON (f:Foo) ASSERT f.bar IS UNIQUE;",
"CREATE INDEX ON :Foo(bar);",
"CREATE INDEX ON :Foo(bar, baz);",
"CREATE UNIQUE (n)-[:KNOWS]->(f);",
"CYPHER 2.3 runtime=fast planner=slow RETURN 1;",
"CYPHER 3.0 PROFILE RETURN 1;",
"CYPHER 3.0 RETURN 1;",
"CYPHER RETURN 1;",
"CYPHER runtime=fast RETURN 1;",
"DROP CONSTRAINT ON ()-[f:Foo]-() ASSERT exists(f.bar);",
"DROP CONSTRAINT ON (f:Foo) ASSERT exists(f.bar);",
"DROP CONSTRAINT ON (f:Foo) ASSERT f.bar IS UNIQUE;",
"EXPLAIN RETURN 1;",
"Initialising check using random seed: %d\012",
"Invalid input ' ': expected MATCH",
"Invalid input ' ': expected MATCH or MERGE",
"Invalid input '[': expected ';', ':', a statement option, a query hint, a clause or a schema command",
"Invalid input '[': expected '<', '-', USING INDEX, USING JOIN ON, USING SCAN, WHERE, ';' or a clause",
"Invalid input '\134n': expected label",
"Invalid input 'e': expected a label, '{', a parameter or ')'",
"Invalid input 'x': expected label",
"Invalid input 'x': expected label1 or label2",
"Invalid input 'x': expected label1, label2 or label3",
"Invalid input at end of input: expected '",
"LOAD CSV FROM 'file:///movies.csv' AS m RETURN m;",
"LOAD CSV FROM {source} AS m FIELDTERMINATOR '|' RETURN m;",
"LOAD CSV WITH HEADERS FROM {source} AS m RETURN m;",
"MATCH (n)\012[1,2,3]\012RETURN n",
"MATCH (n) RETURN n;",
"MATCH (n) WHERE n:Foo RETURN n;",
"MATCH (n), (m) USING JOIN ON n, m RETURN n;",
"MATCH (n)-[:Foo]->(m) RETURN n;",
"MATCH (n)-[:KNOWS]->(f) RETURN f;",
"MATCH (n)-[r:Foo*]-(m) RETURN n;",
"MATCH (n)<-[r:Foo*..9]->(m) RETURN n;",
"MATCH (n)<-[r:Foo*5..]-(m) RETURN n;",
"MATCH (n)<-[r:Foo*7]->(m) RETURN n;",
"MATCH (n:Foo) RETURN n;",
"MATCH (n:Foo) USING INDEX n:Foo(bar) RETURN n;",
"MATCH (n:Foo) USING SCAN n:Foo RETURN n;",
"MATCH (n:Foo:Bar) RETURN n;",
"MATCH (n:Label) RETURN n",
"MATCH (n:Person {name: 'Hunter'}) RETURN n;",
"MATCH (n:Person {param}) RETURN n;",
"MATCH (x:Foo) RETURN x UNION ALL MATCH (x:Bar) RETURN x;",
"MATCH n; ; MATCH (n) RETURN n;",
"MATCH p = (n)-[:Foo]->(m) RETURN p;",
"MATCH p = shortestPath((n)-[:Foo]->(m)) RETURN n;",
"MERGE (n)-[:KNOWS]->(f) RETURN f;",
"MERGE (n:Foo) ON CREATE SET n.bar = 'baz' ON MATCH SET n.bar = 'foo' RETURN n;",
"MERGE (n:Foo) ON CREATE SET n.bar = 'baz', n:Bar RETURN n;",
"MERGE (n:Foo) ON MATCH SET n.bar = 'baz' RETURN n;",
"Most of the cyclists are harmless wee...",
"Most of the cyclists are harmless weekend types,",
"OPTIONAL MATCH (n) RETURN n;",
"PROFILE RETURN 1;",
"RETURN \042foo\012bar\042 MA TCH (n)",
"RETURN 'foo",
"RETURN (n)-[:Foo {param}]->(m) AS p;",
"RETURN (n)-[:Foo {start:1999, end:2000}]->(m) AS p;",
"RETURN *, 1 AS x, 'bar' AS y SKIP 10",
"RETURN *, 1 AS x, 'bar' AS y SKIP 10 LIMIT 5",
"RETURN -1, +1, NOT false;",
"RETURN 1 AS x, 'bar' AS y ORDER BY x DESC, y ASC, z.prop + 10",
"RETURN 1 UNION RETURN 2;",
"RETURN 1;",
"RETURN 1; [1,2,3]",
"RETURN 3 IN [[1,2,3]][0] AS r",
"RETURN CASE WHEN x=1 THEN y WHEN x=2 THEN z ELSE d END AS r",
"RETURN CASE WHEN x=1 THEN y WHEN x=2 THEN z END AS r",
"RETURN CASE x WHEN 1 THEN y WHEN 2 THEN z ELSE d END AS r",
"RETURN CASE x WHEN 1 THEN y WHEN 2 THEN z END AS r",
"RETURN NOT 1 - 2 AND 3;",
"RETURN [ (a)-->(b) | b.name ];",
"RETURN [ x in list /* nothing */ ];",
"RETURN [x in list WHERE x.foo < 10 | x.bar ];",
"RETURN a < 1, 4 > b > 2, 2 <= c >= 5;",
"RETURN a-1, 1 / b, c STARTS WITH 'foo', d =~ '.*', e = 1;",
"RETURN all(x in list WHERE x.foo < 10);",
"RETURN allShortestPaths((n)-[:Foo]->(m)) AS p;",
"RETURN any(x in list WHERE x.foo < 10);",
"RETURN a{} AS x",
"RETURN extract(x in list | x.bar);",
"RETURN filter(x in list WHERE x.foo < 10);",
"RETURN foo(bar, baz), sum(DISTINCT a), count(*), count(DISTINCT *);",
"RETURN foo[1..5], bar[..n+5], baz[..];",
"RETURN foo[n];",
"RETURN fuz .foo(bar, baz);",
"RETURN map{x: 1, .y, z, .*}",
"RETURN none(x in list WHERE x.foo < 10);",
"RETURN reduce(a = 0, b in list | a + b);",
"RETURN single(x in list WHERE x.foo < 10);",
"START n = node(*)\012RETURN /* all nodes */ n;",
"START n = node(*) /* predicate */ WHERE n.foo > 1 RETURN n;",
"START n = rel(*)\012RETURN /* all rels */ n;",
"START n=node(65, 78, 3, 0) // find nodes\012RETURN n;",
"START n=node:index('bar');",
"START n=node:index(foo = 'bar');",
"START n=rel(65, 78, 3, 0) // find nodes\012RETURN n;",
"START n=rel:index('bar');",
"START n=rel:index(foo = 'bar');",
"The California climate is perfect for motorcycles,",
"The California climate is perfect for motorcycles,\015\012as well as surfboards, swimming pools and convertibles.\012Most of the cyclists are harmless weekend types,\012members of the American Motorcycle Association,\012and no\012more dangerous than skiers or skin divers.\012",
"UNWIND [1,2,3] AS x RETURN x;",
"USING PERIODIC COMMIT 500 CREATE (n);",
"USING PERIODIC COMMIT CREATE (n);",
"WITH * WHERE n.foo > 10",
"WITH *, 1 AS x, 'bar' AS y RETURN x, y",
"WITH *, 1 AS x, 'bar' AS y SKIP 10",
"WITH *, 1 AS x, 'bar' AS y SKIP 10 LIMIT 5",
"WITH 1 AS x, 'bar' AS y ORDER BY x DESC, y ASC, z.prop + 10",
"WITH 1 AS x, 'bar' AS y RETURN x, y",
"WITH DISTINCT 1 AS x, 'bar' AS y RETURN x, y",
"error tracking",
"file:///movies.csv",
"foo",
"foo;",
"lastname=hunter s",
"libcypher-parser",
"list comprehensions",
"map projection",
"match (n) return n;\012m atch (n) return n;\012match (d) return d;\012match (bc e) return a;\012",
"more dangerous than skiers or skin divers.",
"pattern comprehension",
"return 's;thompson",
"return 1",
"return 1 /* hunter;thompson\012",
"return 1;",
"return 1; :foo bar\042baz\042\012 return 2;",
"return 1; return 2",
"return 1; return 2;\012   return 3    ;",
"return 1; return 2; ; // foo",
"return 1; return 2; ; ;",
"return 1; return 2; ; foo",
"return 1; return 2; return 3",
};
#define NCORPUS (sizeof(corpus)/sizeof(corpus[0]))
