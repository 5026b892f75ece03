"""C05: a query returns exactly the satisfying bindings."""
import query as Q
CLAIMS = 'Trace::query with seed 0 returns, for every point whose statement matches and in order, one result per type-compatible binding of the free variables that satisfies the predicate, each once and in mixed-radix order; getPoints, cartesian, typeCompatible and collectResultsAtPoint meet the contracts this needs'
ASSUMPTIONS = ['containers hold fewer than 2^31 elements and the number of combinations at one point stays below 2^31 '
               '(so size_t arithmetic does not wrap)', 'memory allocation succeeds',
               'std::vector, std::map and flyweight behave as their contracts in vc/lib.py and vc/maps.py say',
               'a query with no free variables has the null predicate (asserted by the code)']
TASKS = [('specification lemmas', Q.task_lemmas), ('type compatibility', Q.task_typecompat), ('cartesian product', Q.task_cartesian),
         ('results at one point', Q.task_collect(False)), ('points with a statement', Q.task_getpoints), ('whole query', Q.task_query(False))]
