"""C01: a byte string decodes to exactly the trace it denotes."""
import decode as D
TAG = 'C01'
CLAIMS = ('for every byte string, Trace(istream) either throws or yields exactly the names, types and points the format gives the bytes: '
          'values zero- or sign-extended by type, blobs byte for byte, pointer sizes from the allocations recorded so far, points in order up to the '
          'limit or the cut at the end of the input; and it rejects only input whose header or some entry is truncated or invalid (or when memory runs out)')
ASSUMPTIONS = ['the input has fewer than 2^62 bytes and containers hold fewer than 2^31 elements',
               'std::istream::read delivers the next n bytes and advances, or (past the end) leaves the destination unspecified and the stream neither good nor readable; '
               'nothing else about the stream is assumed', 'std::vector, std::string, std::map, std::unique_ptr and flyweight behave as their contracts in vc/lib.py, vc/maps.py and vc/decode.py say',
               'malloc and operator new[] may fail (null / bad_alloc); other allocations (container growth) may only throw exceptions of the standard library',
               'the allocation map is used through the contracts of updateMemoryMap and computeBufferSize (property C04)',
               'a blob value is identified with the fresh block the variable reader allocates for it']
TASKS = D.tagged(TAG)
