"""C13: adding a trace is all-or-nothing and thread-safe."""
import sysio as S
CLAIMS = ('add_trace returns 1 with the decoded file appended after the existing traces, or 0 with the list unchanged; addTrace changes the list only while it holds the lock of '
          'that database and releases it on every path; no repository function reached from add_trace writes a variable shared between threads')
ASSUMPTIONS = ['std::vector::push_back has the strong exception guarantee', 'std::mutex and std::lock_guard exclude each other; boost flyweight pools with simple_locking and glibc rand() are safe to call from several threads',
               'reading the list while another thread adds to it is the caller\'s responsibility (get_trace, n_traces)',
               'decoding is the function of the file contents established by C01; openWithTimeout follows its contract (C14)',
               'memory allocation may fail with bad_alloc']
TASKS = [('add_trace', S.task_add), ('addTrace', S.task_addtrace), ('frame', S.task_frame)]
