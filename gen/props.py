#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 gen/props.py > properties.jsonl)."""
import json, sys
I = 'include/cybozu/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files],
                               mechanism=[dict(name=n, where=I + w) for n, w in mech])))

prop('C01', 'Objects that own a resource are never released twice or lost by copy or move',
 'Every library class whose destructor gives back a resource (file descriptor, stream, heap block, mapping, lock, OS or third-party context) either refuses to be copied or makes a real copy, so that two objects never release the same resource. Moving or swapping such an object transfers the resource: afterwards exactly one of the objects involved will release it, and none is forgotten.',
 ['programs', 'histories'], 'every program that copies, assigns, moves, swaps and destroys library objects in any order',
 'Tests move or copy an object once and look at its contents; a double release needs a particular object history and often goes unnoticed without a memory checker.',
 ['array.hpp', 'file.hpp', 'socket.hpp', 'mmap.hpp', 'thread.hpp', 'mutex.hpp', 'crypto.hpp', 'sha2.hpp', 'zlib.hpp', 'event.hpp', 'stacktrace.hpp', 'process.hpp', 'minixml.hpp', 'tls.hpp', 'log.hpp'],
 [('destructors and copy/move members', 'array.hpp')])

prop('C02', 'No resource leaks on any path, including error and exception paths',
 'A descriptor, stream, directory, address list, heap block, mapping or library context that an operation acquires is, on every way out of that operation, either released, or handed to an object that is alive and will release it, or returned to the caller. This includes exits by exception, in particular exceptions leaving a constructor, and an open operation never overwrites a handle that is still open. (Exhaustion of memory inside the standard library is not considered.)',
 ['inputs', 'fault_sequences'], 'every control path, with any system or library call failing and any throwing call throwing',
 'Tests exercise the success path; a leak needs a specific call to fail after another succeeded and has no visible effect until descriptors or memory run out.',
 ['file.hpp', 'socket.hpp', 'mmap.hpp', 'format.hpp', 'stacktrace.hpp', 'process.hpp', 'log.hpp', 'crypto.hpp', 'random_generator.hpp', 'zlib.hpp', 'array.hpp', 'minixml.hpp'],
 [('acquire/release call pairs', 'file.hpp')])

prop('C03', 'A failing system or library call is never reported as success',
 'When an operating-system, C-library, zlib or OpenSSL call on which an operation depends reports failure, the operation does not complete as if it had succeeded: it throws, returns its documented failure value, sets the caller\'s error flag, or retries the call. Only destructors and best-effort work (clean-up after another failure, logging) may ignore a failure.',
 ['fault_sequences', 'inputs'], 'every fallible call site and every failure it may report at every moment',
 'Tests cannot make read, write, close, fsync, mmap, pthread or OpenSSL calls fail on demand, so the failure branches are never executed.',
 ['file.hpp', 'socket.hpp', 'mmap.hpp', 'thread.hpp', 'mutex.hpp', 'event.hpp', 'crypto.hpp', 'sha2.hpp', 'zlib.hpp', 'random_generator.hpp', 'stream.hpp', 'process.hpp', 'log.hpp'],
 [('result checks of external calls', 'file.hpp')])

prop('C04', 'Exact-size reads and writes transfer every byte in order, or fail',
 'An operation that promises to read or write a given number of bytes (files, sockets, streams, random devices) either transfers exactly that many bytes, each to or from its own consecutive position of the caller\'s buffer, or throws; short transfers are continued where they stopped and interrupted calls are retried. It never spins forever when the other side reaches end of data.',
 ['fault_sequences', 'schedules', 'inputs'], 'every sequence of partial transfers, interruptions, errors and end-of-data conditions the other side can produce',
 'On test machines every read or write of a small buffer completes at once; partial transfers, EINTR and end of file in the middle are practically never seen.',
 ['file.hpp', 'socket.hpp', 'stream.hpp', 'ssl.hpp', 'random_generator.hpp'],
 [('transfer loops', 'socket.hpp'), ('transfer loops', 'file.hpp'), ('generic read/write', 'stream.hpp')])

prop('C05', 'Destructors never let an exception escape and always release',
 'No library destructor can let an exception propagate out of it, whatever the library or system calls it makes report (exhaustion of memory aside). Every way through a destructor of an object holding a resource releases that resource.',
 ['fault_sequences', 'histories'], 'every destructor and every failure of the calls it makes',
 'It takes a failing fsync, close or flush during destruction to see it; the process then terminates instead of reporting an error.',
 ['file.hpp', 'socket.hpp', 'mmap.hpp', 'thread.hpp', 'log.hpp', 'zlib.hpp', 'mutex.hpp', 'event.hpp'],
 [('destructors', 'file.hpp')])

prop('C06', 'Locks are released exactly once on every path and guard what they claim to guard',
 'Mutex, CriticalSection and the AutoLock guards take and give back exactly the lock they stand for, once; every other library function gives back each lock it takes exactly once on every way out, including exceptions, and never gives back a lock it did not take. Condition variables wait on their own variable with the caller\'s lock, notifyOne wakes a waiting thread and notifyAll all of them. Event::wait returns only after a wakeup seen under the lock, which it consumes; Event::wakeup always leaves the event signalled and wakes a waiter, so that no wakeup is lost.',
 ['schedules', 'fault_sequences'], 'every thread interleaving and every path through the locking code',
 'A lost or doubled unlock needs a particular interleaving or exception to be seen.',
 ['mutex.hpp', 'critical_section.hpp', 'condition_variable.hpp', 'condition_variable_cs.hpp', 'event.hpp', 'tls.hpp'],
 [('AutoLock and wait primitives', 'mutex.hpp')])

prop('C07', 'Atomic operations are single indivisible, sequentially consistent accesses',
 'Each atomic increment, add, exchange and compare-and-exchange in the library is performed as one indivisible, fully ordered memory access and returns the value the cell held just before, or after, as its name says; the full fence really is one. Handles shared between threads (the descriptor of a socket, the handle of a thread) are taken out of their object by one such exchange, so that two threads closing or joining at the same time never both act on the same handle.',
 ['schedules'], 'every interleaving of any number of threads',
 'A lost update needs two threads inside a window of a few instructions; weak ordering does not show on x86 at all.',
 ['atomic.hpp', 'thread.hpp', 'socket.hpp', 'event.hpp'],
 [('atomic primitives', 'atomic.hpp')])

prop('C08', 'Accesses to fixed-size tables and buffers stay inside them for every input',
 'Library code never reads or writes outside its own fixed-size arrays, lookup tables and local buffers, whatever values, characters (including bytes above 127) or lengths it is given.',
 ['inputs'], 'every argument value and every content of the data being processed',
 'Tests use a few typical values; an off-by-one or a negative index from a signed character needs the extreme value and usually reads harmless neighbouring memory.',
 ['itoa.hpp', 'atoi.hpp', 'string.hpp', 'base64.hpp', 'endian.hpp', 'sha2.hpp', 'sucvector.hpp', 'bitvector.hpp', 'select8.hpp', 'v128.hpp', 'exception.hpp', 'time.hpp', 'random_generator.hpp', 'xorshift.hpp', 'pcg.hpp', 'socket.hpp', 'zlib.hpp', 'stream.hpp', 'wavelet_matrix.hpp'],
 [('array subscripts and block copies', 'itoa.hpp')])

prop('C10', 'Text to integer conversion is exact: right value or an error',
 'Converting text to an integer with cybozu::atoi (decimal) or cybozu::hextoi (hexadecimal), for every integer type, from pointer and length or from std::string, with or without a success flag, either yields exactly the number written or reports an error (flag false, or an exception). The text ends at its given length or at the first NUL. Text that is empty or has no digit, contains anything but digits (and, in decimal for signed types, one leading minus sign), or denotes a number outside the target type is an error; every text denoting a number of the type, including the largest and the smallest, with leading zeros or hexadecimal digits of either case, is accepted.',
 ['inputs'], 'every string and every integer type',
 'The tests try a handful of values around the limits of some types; every digit string of every length has to be right.',
 ['atoi.hpp'], [('digit loops and limits', 'atoi.hpp')])

prop('C11', 'UTF-8 and UTF-16 decoding accepts exactly well-formed text and round-trips',
 'Decoding UTF-8 (GetCharFromUtf8) accepts exactly the well-formed sequences (no overlong forms, no surrogates, nothing above U+10FFFF, no sequence cut off by the end), yields the code point they encode, leaves the position just after them and never reads past the end; decoding UTF-16 (GetCharFromUtf16) likewise accepts exactly single non-surrogate units and surrogate pairs. Encoding (toUtf8, toUtf16, AppendUtf8, AppendUtf16) gives a code point its one standard form, which decodes back to it, and refuses everything that is not a code point; GetCharSize and IsValidChar agree with it. Converting whole texts (ConvertUtf8ToUtf16, ConvertUtf16ToUtf8, ToUtf8, ToUtf16, String from UTF-8 or UTF-16 and back) converts every character in order up to the end of the text, or reports an error as soon as one cannot be converted.',
 ['inputs'], 'every byte sequence and every code point',
 'Tests sample a few hundred characters; well-formedness is a statement about all sequences of up to four bytes.',
 ['string.hpp'], [('character encoders and decoders', 'string.hpp')])

prop('C12', 'Endian conversions produce the exact byte layout for every value',
 'Storing an integer as little or big endian (Set16bitAsLE, Set32bitAsBE and so on) writes each byte of the value at its specified position and touches nothing else, and loading does the inverse, for 16, 32 and 64 bits and all values, whatever the alignment of the buffer. Byte swapping reverses all bytes. This holds both in the native and in the portable configuration of the header.',
 ['inputs', 'configurations'], 'every value, width and configuration of the endian helpers',
 'Tests check one pattern per width; a wrong mask or sign extension shows only for some values.',
 ['endian.hpp'], [('get/set and byteSwap', 'endian.hpp')])

prop('C13', 'Whatever save writes, load reads back: same items, order, widths, members and values',
 'For every serialisable type the library provides - scalars, std::string and cybozu::String, the standard sequence containers, sets, maps and unordered maps, POD vectors (savePodVec/loadPodVec), SucVector, CSucVector, WaveletMatrix, FMindex and Frequency - load takes from the stream exactly the items save put into it, in the same order, with the same representation and number, and into the same members; afterwards every member that was saved has the saved value, a container holds exactly the saved elements whatever it held before, and the stream is positioned right behind the object. load refuses nothing that save writes. Every value of every integer type survives saving and loading, with the variable-length format and with CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER.',
 ['inputs', 'histories'], 'every value of every serialisable type and every sequence of saves and loads',
 'Tests round-trip small instances; a swapped or missing field that is recomputed, zero or equal in the test data stays hidden.',
 ['serializer.hpp', 'sucvector.hpp', 'csucvector.hpp', 'wavelet_matrix.hpp', 'fmindex.hpp', 'frequency.hpp', 'string.hpp'],
 [('save/load pairs', 'serializer.hpp')])

prop('C15', 'Every public header stands alone in every supported configuration',
 'Including any one public header in an otherwise empty translation unit compiles, alone or twice, under each C++ standard from C++98 to C++23 and with each optional-feature switch (NDEBUG, CYBOZU_DONT_USE_OPENSSL, CYBOZU_SOCKET_USE_EPOLL, CYBOZU_EXCEPTION_WITH_STACKTRACE and the like), and all headers can be included together in any order. Two translation units including the same headers link together without duplicate definitions.',
 ['programs', 'configurations'], 'every header, language standard and include order',
 'The test programs include other headers first and each test is a single translation unit.',
 ['quit_signal_handler.hpp', 'process.hpp', 'siphash.hpp', 'nlp/tfidf.hpp', 'array.hpp'],
 [('headers', 'config.hpp')])

prop('C16', 'Base64 tables and bit packing are exact inverses over all byte values',
 'Base64 encoding maps every three input bytes to the four characters of the standard alphabet by their six-bit groups, with standard padding, and decoding maps each of those characters back to the same six bits and rejects or skips everything else as documented, for every input length and content.',
 ['inputs'], 'every input length and content', 'Tests encode some strings; a wrong table entry or a wrong mask shows only for particular bytes and remainders.',
 ['base64.hpp'], [('tables and bit packing', 'base64.hpp')])

prop('C17', 'Algorithm names, identifiers and sizes of the crypto wrappers agree',
 'For every supported hash and cipher, the name lookup in both directions, the identifier, the algorithm that Hash, Hmac and Cipher actually run, and the digest and key sizes reported all belong to the same algorithm; unknown names or identifiers are rejected by an exception. Cipher::setup accepts only a key of exactly the cipher\'s length and a vector at least as long as the cipher reads, and encrypts or decrypts and pads as asked. The digest covers exactly the caller\'s data in order. Sha256 and Sha512 return their digest size and never write to an output buffer smaller than that.',
 ['inputs', 'configurations'], 'every algorithm name and identifier', 'Tests cover some algorithms and not the consistency of every pair of lookups, nor bad lengths.',
 ['crypto.hpp', 'sha2.hpp'], [('name and identifier maps', 'crypto.hpp')])

prop('C18', 'Checked accessors throw before touching memory outside the object',
 'Operations documented to check their position or length (string and array at, substr, insert, erase, bounded memory streams and the like) raise an exception, and modify nothing, for every out-of-range argument, including arguments near the largest representable value; for in-range arguments they touch only memory of the object.',
 ['inputs'], 'every position and length argument, including values where sums wrap around', 'Tests try just past the end; wrap-around and off-by-one at the boundary need particular sizes.',
 ['string.hpp', 'array.hpp', 'stream.hpp', 'bitvector.hpp', 'v128.hpp', 'nlp/sparse.hpp'], [('range checks', 'string.hpp')])

prop('C19', 'File modes map to exactly the documented open flags',
 'Opening a file for reading (File::open with in, openR, Mmap) never creates, truncates or writes it; opening for writing (out, openW) creates it and truncates it unless append was asked for, and with append, as with the log file, nothing existing is ever overwritten. Contradictory modes are rejected before the file system is touched. RenameFile renames from its first to its second argument and RemoveFile removes just the file named.',
 ['inputs', 'histories'], 'every combination of open modes', 'Tests use three combinations.',
 ['file.hpp', 'mmap.hpp', 'log.hpp'], [('mode to flag mapping', 'file.hpp')])

prop('C20', 'parallel_for covers every index exactly once, joins all workers, reports errors',
 'parallel_for over n >= 0 items with any number of threads divides 0..n-1 into consecutive ranges, one per worker, that cover every index exactly once; each worker calls the given object once for every index of its range in order with its own worker number, until the call returns false or throws. parallel_for returns normally only after every worker was started, waited for and found to have no error; if any worker could not be started or waited for, or the call threw anything in a worker (whatever the type of the exception, even with an empty message), parallel_for throws. No exception leaves a worker thread, and a worker object is not torn down before its thread has ended.',
 ['schedules', 'inputs'], 'every n, thread count, interleaving and set of failing workers', 'Tests use a few n and thread counts and no failing worker.',
 ['parallel.hpp', 'thread.hpp'], [('work distribution', 'parallel.hpp')])

prop('C21', 'Constructed objects are fully initialised',
 'After any constructor of a library class (default, converting, copy or move) completes normally, every number, flag, enumeration and pointer member declared in that class has been given a definite value on every path, so that no later operation depends on indeterminate memory. (Plain structs without a constructor and raw array buffers are not covered.)',
 ['programs', 'histories'], 'every constructor and every following sequence of operations', 'Fresh memory is usually zero in tests, so reading an uninitialised member gives the expected value.',
 ['socket.hpp', 'file.hpp', 'regex.hpp', 'zlib.hpp', 'sucvector.hpp', 'log.hpp'], [('constructors', 'socket.hpp')])

prop('C22', 'Caller-supplied text is never interpreted as a format string',
 'Text that originates from callers or from data is only ever printed or logged as data; every format string the library passes to a printf-like function is a literal whose conversions match the arguments, except in functions whose own documented parameter is the format.',
 ['inputs'], 'every message text', 'Needs a message containing a conversion specification.',
 ['log.hpp', 'format.hpp', 'exception.hpp', 'option.hpp'], [('printf-like calls', 'log.hpp')])

prop('C23', 'Functions with a success flag always set it and never throw',
 'Functions that report success through a caller-supplied flag set that flag on every return path and never let an exception out (exceptions of the caller\'s own stream object and exhaustion of memory aside).',
 ['inputs', 'fault_sequences'], 'every input and every path', 'Tests check the flag for a few inputs and never start from a flag holding the wrong value on every path.',
 ['atoi.hpp', 'stream.hpp', 'itoa.hpp'], [('bool* overloads', 'atoi.hpp')])

prop('C24', 'No hidden shared mutable state; independent objects can be used from any thread',
 'Functions of the library and objects not shared between threads do not interfere: no operation writes a global, static member or function-local static variable outside its one-time initialisation or a lock, and none calls a C library function that keeps its result in static storage or changes process-wide state. Exempt by design: the test and benchmark tools, registration of the signal handler, and the configuration calls of the process-wide logger.',
 ['schedules'], 'every interleaving of operations on distinct objects', 'Data races need concurrency the tests do not have.',
 ['time.hpp', 'env.hpp', 'log.hpp', 'exception.hpp', 'random_generator.hpp'], [('statics and libc calls', 'time.hpp')])
prop('C25', 'The built-in hashes process exactly the padded message, however it is divided',
 'Sha1, and Sha256 and Sha512 without OpenSSL, give their block function every byte passed to update and digest exactly once, in order and in full blocks, however the data is divided into calls and whatever their lengths; digest adds the padding and bit length of FIPS 180-4 for every message length and writes the resulting state in big endian. A new or cleared object, and a Sha1 object after digest, starts an empty message with the standard initial value. hmac256 is HMAC over Sha256 for every key length. (The arithmetic inside the block function is not covered.)',
 ['inputs'], 'every message length and every division into updates, every key length', 'The tests use a few dozen messages, and never the built-in Sha256 and Sha512.',
 ['sha1.hpp', 'sha2.hpp'], [('update, digest, term', 'sha2.hpp'), ('hmac256', 'sha2.hpp'), ('update, term', 'sha1.hpp')])

for id, title, st, why, files in [
 ('N01', 'Rank and select results are correct', 'rank and select of the bit vectors and wavelet matrices return the number and position of bits for every sequence and position.', 'sampled sequences', ['sucvector.hpp', 'csucvector.hpp', 'wavelet_matrix.hpp']),
 ('N02', 'FM-index search finds exactly the occurrences', 'A search in the full-text index reports exactly the positions at which the pattern occurs.', 'sampled texts', ['fmindex.hpp']),
 ('N03', 'Block functions compute the standard values', 'The arithmetic of the SHA-1 and SHA-2 block functions and of SipHash gives the standard values for every block and key.', 'a few vectors', ['sha1.hpp', 'sha2.hpp', 'siphash.hpp']),
 ('N04', 'Compression followed by decompression is the identity', 'Data written through the compressor is restored exactly by the decompressor for every content and buffer size.', 'sampled data', ['zlib.hpp']),
 ('N05', 'Numerical results of the language-processing tools converge', 'SVD, PLSI and tf-idf produce the mathematically defined result up to rounding.', 'sampled data', ['nlp/svd.hpp', 'nlp/plsi.hpp', 'nlp/tfidf.hpp']),
]:
    prop(id, title, st, ['inputs'], 'every input', why, files, [('algorithm', files[0])])

if __name__ == '__main__':
    for p in P: print(json.dumps(p))
