"""C06: soft predicates and seeded queries."""
import query as Q
CLAIMS = 'with soft predicates exactly the hard results with the highest number of satisfied soft predicates are kept, in order; with a non-zero seed the results are those of one point, fixed by the seed and the number of matching points'
ASSUMPTIONS = ['containers hold fewer than 2^31 elements and the number of combinations at one point stays below 2^31 '
               '(so size_t arithmetic does not wrap)', 'memory allocation succeeds',
               'std::vector, std::map and flyweight behave as their contracts in vc/lib.py and vc/maps.py say',
               'a query with no free variables has the null predicate (asserted by the code)',
               'std::mt19937 and std::uniform_int_distribution are deterministic functions of the seed and range, and stay in range']
TASKS = [('specification lemmas', Q.task_lemmas), ('best results at one point', Q.task_collect(True)), ('seeded query', Q.task_query(True))]
