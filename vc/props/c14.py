"""C14: opening a trace either gives a readable stream or a prompt error."""
import sysio as S
CLAIMS = ('openWithTimeout opens the named file read-only and non-blocking, waits once for exactly that descriptor with the requested number of seconds (without limit only for zero), '
          'and either returns a stream that owns the open, readable, blocking descriptor or throws after closing it; read_trace and add_trace turn every error into '
          'NULL / 0 and delete every stream they made')
ASSUMPTIONS = ['open returns -1 or a descriptor that was not open; select on one descriptor returns -1, 0 or 1, and 1 means data (or end of file) is ready; fcntl on an open descriptor succeeds',
               'boost file_descriptor_source with close_handle closes the descriptor when its last copy goes away, and building one on an open descriptor does not throw',
               'timeouts are below 2^63 (the C interface passes 32 bits)', 'building an error message does not run out of memory',
               'the destructor is the first virtual member of the stream classes (Itanium C++ ABI)']
TASKS = [("open", S.task_open), ("read_trace", S.task_read), ("add_trace", S.task_add)]
