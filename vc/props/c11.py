"""C11: serialising and restoring a database preserves it."""
import archive as A
CLAIMS = ('for every class that is archived, loading from the position it was saved at consumes exactly what was saved and restores every member: numbers, strings, vectors with '
          'length and order, blobs byte for byte into a fresh block; TraceDB restores all traces in order; serialize_trace_db returns the terminated archive text of the '
          'database in a block of its own and deserialize_trace_db restores a new database from exactly that text')
ASSUMPTIONS = ['boost::archive (text format, class headers, flyweight tables) transports the sequence of archived values: what is loaded is what was saved, provided it is loaded as the same kind of value '
               'and numbers fit the type they are loaded into; nothing is assumed about floating-point numbers shown as text',
               'boost::flyweight restores a flyweight with the value that was archived for it', 'memory allocation succeeds', 'names hold no NUL (the text is passed as a C string)',
               'std::vector, std::string and std::stringstream behave as their contracts say', 'a blob value is a live block of at least its size']
TASKS = A.TASKS
