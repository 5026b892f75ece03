"""C03: malformed input is rejected, never misread."""
import decode as D
TAG = 'C03'
CLAIMS = ('for every byte string the readers stay inside their buffers and the input, fail only by the exceptions the interface catches, and a trace is '
          'accepted only if its dictionaries are complete and terminated, every type and every entry is valid and complete, and every index in it is inside its dictionary')
ASSUMPTIONS = ['the input has fewer than 2^62 bytes and containers hold fewer than 2^31 elements',
               'std::istream::read delivers the next n bytes and advances, or (past the end) leaves the destination unspecified and the stream neither good nor readable; '
               'nothing else about the stream is assumed', 'std::vector, std::string, std::map, std::unique_ptr and flyweight behave as their contracts in vc/lib.py, vc/maps.py and vc/decode.py say',
               'malloc and operator new[] may fail (null / bad_alloc); other allocations (container growth) may only throw exceptions of the standard library',
               'the allocation map is used through the contracts of updateMemoryMap and computeBufferSize (property C04)',
               'a blob value is identified with the fresh block the variable reader allocates for it']
TASKS = D.tagged(TAG)
