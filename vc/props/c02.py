"""C02: writing a trace and reading it back gives the same trace."""
import decode as D
import encode as E
CLAIMS = ('for every consistent trace, what Trace::write emits is a complete, valid input whose meaning - the names, types and points the format gives those bytes - '
          'equals the trace: statements, sizes, auxiliary values, variables with value, name, type, format, size, buffer size and flag, blobs byte for byte; '
          'and the reader computes exactly that meaning (the contracts of C01, checked again here)')
ASSUMPTIONS = ['the trace is consistent: type formats are known and type names, variable names and types are inside the dictionaries; a variable has the format and size of its type, the size is 1, 2, 4 or 8 '
               '(float: 4 or 8) and the value fits it; buffer size and flag are those of the allocations recorded up to the point; names hold no NUL; counters number the points from 0; fewer than 2^32 types',
               'blob types have size 0: types with a fixed blob size are the known finding of this property',
               'std::ostream::write and put append the given bytes and do not fail', 'the output has fewer than 2^62 bytes',
               'std::string::c_str is the text of the string followed by a NUL', 'copying a float or double keeps its bits',
               'plus the assumptions of C01 for the reader']
TASKS = E.TASKS + [('read ' + n, f) for n, f in D.tagged('C01')]
