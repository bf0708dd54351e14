P = []
NA = []


def prop(**k):
    P.append(k)


def na(**k):
    NA.append(k)


prop(id="C01", how='`dateToJulian`, `julianToDate`, all constructors, `check`, `today`-independent operators executed in full. Oracle: calendar rules written independently (days per month, leap rule, successor day) and an anchor day; monotonicity and inverse as lemmas over the contract. The domain (years 100–9999) is complete, no bound beyond it. ≈60 s.',
     title="Calendar dates and julian day numbers are the same thing",
     statement="For every calendar date of the years 100 to 9999 the library's day number follows the proleptic Gregorian calendar: consecutive "
               "days have consecutive numbers and later dates have larger numbers, 2000-01-01 being day 2451545. Converting a day number back "
               "gives the valid date it came from, so a date built from year, month and day is accepted exactly when that day exists and reports "
               "the same components. Adding n days, subtracting dates and comparing them agree with the calendar.",
     over=["inputs"], quant="every date of years 100..9999, every day number in between, every number of days added",
     why="The tests look at a few dozen dates; a wrong leap-century rule, month offset or truncation shows only for particular years or month ends.",
     files=["src/eckit/types/Date.cc", "src/eckit/types/Date.h"],
     mech=[("Date::dateToJulian / Date::julianToDate", "src/eckit/types/Date.cc"), ("Date constructors and check()", "src/eckit/types/Date.cc"),
           ("day arithmetic and comparison operators", "src/eckit/types/Date.h")])
prop(id="C02", how='Constructors (h,m,s / seconds / real seconds), accessors, comparison, difference, executed in full; oracle is the integer recomposition. Refusal proved in both directions (accepted iff in range). ≈2 s.',
     title="A time of day is accepted exactly when it exists, and reads back",
     statement="A time built from hours, minutes and seconds, or from seconds since midnight, is accepted exactly when it lies within the day (or, "
               "in extended form, is not negative). Its hours, minutes, seconds and hhmmss then recompose to exactly the value given. "
               "Comparison and difference of times are those of the seconds since midnight.",
     over=["inputs"], quant="every hour/minute/second triple with components of magnitude up to 2*10^9, every integral second count up to 4*10^12, every finite real second count",
     why="Tests use a few valid times; carry and range boundaries, extended times over a day and rejected combinations are unbounded input spaces.",
     files=["src/eckit/types/Time.cc", "src/eckit/types/Time.h"],
     mech=[("Time constructors", "src/eckit/types/Time.cc"), ("hours/minutes/seconds/hhmmss", "src/eckit/types/Time.cc"), ("comparison and difference", "src/eckit/types/Time.h")])
prop(id="C03", how='`operator+`, `operator-`, `round`, comparisons. Whole durations: oracle is day*86400+seconds in integers, doubles bit-precise. Fractional durations: only range and absence of failure (floating-point closeness not claimed). Date conversions used by contract (C01). ≈90 s.',
     title="Instants plus durations move by exactly that duration",
     statement="Adding any whole number of seconds, positive or negative, to a date-time gives the instant that many seconds away with a time of day "
               "inside the day, and subtracting the two recovers the duration. Adding a fractional duration of up to a day never leaves the day range or fails. "
               "Order and equality of date-times are chronological, and rounding goes back to the previous multiple of the step.",
     over=["inputs"], quant="every instant of years 100..9999, whole durations up to 10^11 s, fractional durations up to one day, steps up to one day",
     why="Midnight and day-boundary crossings in both directions depend on particular combinations of time and duration that the sampled tests never form.",
     files=["src/eckit/types/DateTime.cc", "src/eckit/types/DateTime.h"],
     mech=[("DateTime::operator+ / operator- / round", "src/eckit/types/DateTime.cc"), ("DateTime comparison operators", "src/eckit/types/DateTime.h")])
prop(id="C06", how='Buffer and MemoryHandle under class invariants, one arbitrary byte index observed (skolem), frame: every other byte. `round` by contract. ≈13 s.',
     title="Memory buffers and memory handles hold exactly what was put in them",
     statement="Copying, moving, resizing with preservation and zeroing a buffer, and writing, reading, seeking, skipping and cloning a memory handle, "
               "touch exactly the bytes addressed: what was written is read back at its position and every other byte is kept. "
               "A handle that may grow takes every write in full and its size becomes the larger of its old size and the end of the write; one that may not takes "
               "what fits. An operation that would go outside the content, or that the open mode forbids, is refused and changes nothing.",
     over=["inputs", "histories"], quant="every size, content, position, length and reachable handle state (class invariant), sizes up to 2^40",
     why="Tests write and read a few fixed strings from the start; overwriting in the middle, growing from a position before the end and boundary sizes are never combined.",
     files=["src/eckit/io/Buffer.cc", "src/eckit/io/MemoryHandle.cc", "src/eckit/io/MemoryHandle.h", "src/eckit/maths/Functions.cc"],
     mech=[("Buffer::resize / copy / move / zero", "src/eckit/io/Buffer.cc"), ("MemoryHandle::write / read / seek / skip / open / clone", "src/eckit/io/MemoryHandle.cc")])
prop(id="C07", how='Class invariant (pos<size<=capacity, used<=size); abstract view = k-th waiting byte for arbitrary k; each operation transforms the view as a queue. Growth in the wrapped state included. ≈10 s.',
     title="The circular buffer is a first-in first-out queue of bytes",
     statement="Bytes come out of a circular buffer in the order they went in, none lost, repeated or changed, whatever the interleaving of writes and reads and "
               "wherever the ring wraps or grows. The length is always what was written minus what was read, and a write is refused, changing nothing, "
               "only when it does not fit and growing would exceed the capacity.",
     over=["inputs", "histories"], quant="every queue state satisfying the class invariant, every length and content",
     why="Wrap-around and growth in the middle of a wrapped ring need particular sequences of lengths; the tests run a few.",
     files=["src/eckit/io/CircularBuffer.cc", "src/eckit/maths/Functions.cc"],
     mech=[("CircularBuffer::write / read / clear", "src/eckit/io/CircularBuffer.cc")])
prop(id="C04", how='Constructors, gcd (loop invariant: same divisors, via ghost divisor), checked helpers, all operators, mixed operators; exactness by cross multiplication in integers. `Fraction(double)`: loop cut with an invariant over the convergents; range, sign, positive denominator, absence of overflow proved for every double; closeness only by native search (labelled native). ≈75 s.',
     title="Rational arithmetic is exact and never wraps silently",
     statement="The sum, difference, product and quotient of fractions whose terms are below 2^31, among themselves or with integers on either side, is the exact "
               "rational number, reduced with a positive denominator, and comparisons are those of the values. Terms up to the limits of 64 bits never cause "
               "a silent wrap-around, and a fraction made from a floating-point number below 3 10^9 in magnitude is close to it, any greater being refused. A zero denominator, the inverse of zero and the conversion of a non-integer to an integer are refused.",
     over=["inputs"], quant="every pair of fractions with terms below 2^31 (exactness), every pair with terms up to 2^63-1 (no overflow), every floating-point number (range and sign; closeness by random search)",
     why="Sign handling, reduction and overflow detection depend on particular magnitudes and signs; tests use a handful of small fractions.",
     files=["src/eckit/types/Fraction.cc", "src/eckit/types/Fraction.h"],
     mech=[("Fraction constructors", "src/eckit/types/Fraction.cc"), ("arithmetic and comparison operators with overflow-checked helpers", "src/eckit/types/Fraction.cc"), ("mixed integer/fraction operators", "src/eckit/types/Fraction.h")])
prop(id="C05", how='Per-type writers against the byte layout, readers against arbitrary bytes (arbitrary valid records and arbitrary invalid ones), round trip as lemma over the two; blobs with a ghost index; large blobs by invariant over chunks; MemoryStream/ResizableMemoryStream under class invariants. ≈55 s.',
     title="What is written to a binary stream is what is read back",
     statement="Every value, text and blob written to a stream is read back identical, consuming exactly the bytes it was written as, in a fixed layout (type tag, then "
               "32-bit words most significant byte first), and nothing else in memory is touched. A record that is of another type than the one asked for, truncated, "
               "of another blob size, or that does not fit is reported and never delivered. Objects are framed so that their start, end and what follows are recognised.",
     over=["inputs", "histories"], quant="every value of every integral type, every double bit pattern, every text and blob below 2^31 bytes, large blobs up to 2^40 bytes, every stream position",
     why="Tests read back a few sample values; sign extension, word order, chunk boundaries of large blobs and every truncation point are not reachable by examples.",
     files=["src/eckit/serialisation/Stream.cc", "src/eckit/serialisation/Stream.h", "src/eckit/serialisation/MemoryStream.cc", "src/eckit/serialisation/ResizableMemoryStream.cc"],
     mech=[("Stream::operator<< / operator>> per type", "src/eckit/serialisation/Stream.cc"), ("readTag / nextTag / badTag", "src/eckit/serialisation/Stream.cc"),
           ("writeLargeBlob / readLargeBlob", "src/eckit/serialisation/Stream.cc"), ("MemoryStream and ResizableMemoryStream read/write", "src/eckit/serialisation/MemoryStream.cc")])
prop(id="C08", how="BitIO: abstract view = number of pending bits and their value; write/flush/read transform it, for every width 1..64 (case split over width and fill). Base64 loops: encode/decode of an arbitrary 6-bit/8-bit position by loop invariants, byte strings up to 48 bytes in the loop contracts' index arithmetic. ≈80 s.",
     title="Bit streams and Base64 return the bits and bytes that went in",
     statement="Codes of any width from 1 to 64 bits written one after another to a bit stream go out most significant bit first without gaps, only the last byte being padded "
               "with zeros, and are counted; reading codes of any widths yields exactly those bits in order, keeps the ones not yet asked for, and reports the end of the data "
               "by the marker, an error or zero padding as configured. Encoding bytes as Base64 gives the standard text, and decoding that text gives the bytes back.",
     over=["inputs", "histories"], quant="every buffer state, code, width and source length; every byte string of up to 48 bytes through the Base64 loops",
     why="Each combination of bits left over in the 64-bit buffer and width of the next code is a different path; tests exercise a few widths from an empty buffer.",
     files=["src/eckit/io/BitIO.cc", "src/eckit/io/Base64.cc"],
     mech=[("BitIO::write / flush / read", "src/eckit/io/BitIO.cc"), ("Base64::encode / decode", "src/eckit/io/Base64.cc")])
prop(id="C09", how="Wrapped handle is a contract stub (any content, any short read). Class invariants relate wrapper position, buffer range and wrapped position; each operation proved to deliver content[position..]. PeekHandle's deque by contract. ≈19 s.",
     title="Buffering, peeking and seekable wrappers show exactly the handle they wrap",
     statement="Reading, skipping, seeking and rewinding through a buffered handle delivers exactly the bytes of the wrapped handle at the position reported, whatever the buffer "
               "size and however short the reads of the wrapped handle; what is written through it, with moves in between, arrives at the positions it was written at once "
               "flushed, closed or moved. Peeking delivers the bytes ahead without moving or losing any, and later reads deliver them first. The seekable wrapper can go back over "
               "everything read since it was last cleared, and refuses to go anywhere else.",
     over=["inputs", "histories"], quant="every wrapper state satisfying the class invariant, every buffer size, length, position and content, every pattern of short reads",
     why="The state of two positions and a partly used buffer has to agree after every sequence of operations; tests run a few sequences with one buffer size.",
     files=["src/eckit/io/BufferedHandle.cc", "src/eckit/io/PeekHandle.cc", "src/eckit/io/SeekableHandle.cc"],
     mech=[("BufferedHandle::read / write / skip / seek / flush", "src/eckit/io/BufferedHandle.cc"), ("PeekHandle::peek / read / skip", "src/eckit/io/PeekHandle.cc"),
           ("SeekableHandle", "src/eckit/io/SeekableHandle.cc")])
prop(id="C10", how='PartHandle: part list of any length as arrays of offsets/lengths, prefix sums as ghost function; read1/read/restart by invariants. copyTo loops by invariant over transferred count. MultiHandle harnesses (`multi_*`) are **bounded**: two to three handles, of any length; counted as bounded in the evidence. PartFileHandle the same way (`pf_*`); sorting, merging and accumulating part lists (`list_*`): **bounded**, three parts of any offset and length. ≈60 s.',
     title="Parts and concatenations read as one sequence of bytes; copies are complete",
     statement="Reading a list of parts of a handle delivers the bytes of the parts one after another, each position of the sequence exactly once, in pieces of any size, also when "
               "restarted or sought at any position within it; empty parts do not matter, and sorting or merging the list keeps the parts or the sequence. Handles put one after another read, seek and write as one sequence in which each handle gets exactly its share. "
               "Copying one handle to another transfers exactly the announced or limited number of bytes in order, or reports an error.",
     over=["inputs", "histories"], quant="any number of parts of any offset and length, any request sizes and reader state (parts, copy: unbounded; concatenations: two to three handles of any length; sorting and merging lists: three parts)",
     why="Which part a position falls in, and how requests straddle part ends and empty parts, is combinatorial; tests use two or three fixed layouts.",
     files=["src/eckit/io/PartHandle.cc", "src/eckit/io/PartFileHandle.cc", "src/eckit/io/Offset.cc", "src/eckit/io/MultiHandle.cc", "src/eckit/io/DataHandle.cc"],
     mech=[("PartFileHandle::read1 / read / seek / position / restartReadFrom", "src/eckit/io/PartFileHandle.cc"), ("eckit::sort / compress / accumulate of part lists", "src/eckit/io/Offset.cc"),
           ("PartHandle::read1 / read / restartReadFrom / estimate", "src/eckit/io/PartHandle.cc"), ("MultiHandle::read / write / seek / restartReadFrom", "src/eckit/io/MultiHandle.cc"),
           ("DataHandle::copyTo", "src/eckit/io/DataHandle.cc")])
prop(id="C11", how='`std::map` and `std::list` by contract (assumed, listed in the evidence), class invariant over an abstract order; two arbitrary keys observed. Native history harness gives concrete sequences. ≈8 s.',
     title="A least-recently-used cache keeps the most recently used entries, as many as fit",
     statement="After any operation on a least-recently-used cache the entries kept are the most recently inserted or accessed ones, never more than the capacity and as many as fit, "
               "and looking a key up gives the value last inserted for it. Inserting, removing and resizing tell truthfully whether the key was there, and each entry removed, evicted or cleared is handed "
               "to the purge function exactly once with its value, while an extracted one is not.",
     over=["inputs", "histories"], quant="every cache state satisfying the class invariant, every capacity, key and value (two arbitrary keys observed among any number)",
     why="What is evicted depends on the whole history of insertions and accesses; tests run one short sequence.",
     files=["src/eckit/container/CacheLRU.h", "src/eckit/container/CacheLRU.cc"],
     mech=[("CacheLRU::insert / access / extract / remove / clear / capacity / trim", "src/eckit/container/CacheLRU.cc")])
prop(id="C12", how="Per algorithm: the block function against a specification of the compression function written as whole-state steps (MD5: RFC 1321), update and finish against a ghost of the "
         "bytes buffered and the chaining value (one arbitrary byte/word observed), and the Hash wrappers (update, digest, numericalDigest, reset, compute) over contract stubs of the library contexts: "
         "MD4 and SHA-1 (OpenSSL) and xxHash are assumed to be functions of the sequence of bytes fed. Adding to an MD5 after asking for the digest is a known finding (a test pins the behaviour). Found and fixed four defects. ~32 s.",
     title="A digest depends on the bytes added since the last reset, and on nothing else",
     statement="The digest of a hash object is that of the bytes added since it was created or last reset: in however many pieces they came, whatever was hashed before the reset, and whether or not "
               "digests were asked for in between; a number or text value is added as a fixed sequence of bytes. MD5 digests are those of RFC 1321 for messages of any length, "
               "and a length that cannot be honoured is refused rather than cut.",
     over=["inputs", "histories"], quant="every state of the context (bytes buffered, chaining value, length so far), every piece length and content; every order of adding, asking and resetting",
     why="Tests hash a few short strings at once; how pieces straddle blocks, lengths near 4 GiB and digests in the middle of a sequence are not sampled.",
     files=["src/eckit/utils/MD5.cc", "src/eckit/utils/MD4.cc", "src/eckit/utils/SHA1.cc", "src/eckit/utils/xxHashing.cc", "src/eckit/utils/Hash.h", "src/eckit/utils/Hash.cc"],
     mech=[("MD5 block / update / finish / compute", "src/eckit/utils/MD5.cc"), ("SHA1", "src/eckit/utils/SHA1.cc"), ("xxHash", "src/eckit/utils/xxHashing.cc"),
           ("Hash::add / digest / reset", "src/eckit/utils/Hash.h")])
prop(id="C13", how="Extents and coordinates symbolic up to rank 3 (4 for Tensor access), the number of elements below 2^48, arithmetic lifted to unbounded integers; the specification is the Horner form. "
         "combine by loop invariant over maps of any length. Changes of layout and added labels (`to_right`, `to_left`, `add_labels`) are **bounded**: extents and rank at most 3. ~45 s.",
     title="Multi-dimensional coordinates and element numbers correspond one to one",
     statement="Coordinates within the extents of a hypercube or tensor correspond one to one, in order of the layout, to the element numbers below the product of the extents; anything outside is refused. "
               "Copying, assigning, moving and changing the layout of a tensor keep the element at each coordinate, and adding labels to a dimension of a hypercube maps each element "
               "to the one with the same labels.",
     over=["inputs"], quant="every list of up to three (tensor access: four) extents with a product below 2^48 and every coordinate; layout changes and added labels: bounded, extents and rank at most 3",
     why="The correspondence holds between large products of unknown extents; tests use one or two small shapes.",
     files=["src/eckit/utils/HyperCube.h", "src/eckit/utils/HyperCube.cc", "src/eckit/linalg/Tensor.h"],
     mech=[("HyperCube::index / coordinates / addToDimension / combine", "src/eckit/utils/HyperCube.cc"), ("Tensor access, copies and layout transforms", "src/eckit/linalg/Tensor.h")])

prop(id="C14", how="libc (fwrite, fread, fflush, fsync, fclose, write, read, lseek, send, recv, ...) as contract stubs with any short transfer and any failure, over ghost copies of what was transferred; "
         "each handle's operations against them. Loops (retries on a full disk, tee copies, socket loops, copying) by invariant. Resources assumed to have their default values. ~100 s.",
     title="Handles transfer exactly what they report, and report every failure",
     statement="What a file, descriptor, pipe, socket or stream-buffer handle reports as written or read is exactly the bytes transferred, once and in order, however short the transfers of the system are; a full disk is waited for, "
               "and a tee gives every copy all the bytes. Every failure to read, write, flush, synchronise, seek or close is reported, and closing a written file flushes it and synchronises it and its directory first, and closes it once. "
               "A handle used as a C FILE reads, writes and seeks at the handle's position.",
     over=["inputs", "crash_points"], quant="every length and content, every pattern of short transfers, and a failure at any system call",
     why="Short writes, interrupted sends, full disks and errors on close do not happen in tests.",
     files=["src/eckit/io/FileHandle.cc", "src/eckit/io/FileDescHandle.cc", "src/eckit/io/RawFileHandle.cc", "src/eckit/io/PipeHandle.cc", "src/eckit/io/FDataSync.cc", "src/eckit/io/HandleBuf.cc",
            "src/eckit/io/StdioBuf.cc", "src/eckit/io/SockBuf.cc", "src/eckit/io/TCPSocketHandle.cc", "src/eckit/io/TeeHandle.cc", "src/eckit/io/FOpenDataHandle.cc", "src/eckit/net/TCPSocket.cc"],
     mech=[("FileHandle open / read / write / flush / close", "src/eckit/io/FileHandle.cc"), ("TCPSocket::read / write", "src/eckit/net/TCPSocket.cc"), ("HandleBuf sync / overflow / underflow", "src/eckit/io/HandleBuf.cc"),
           ("FOpenDataHandle callbacks", "src/eckit/io/FOpenDataHandle.cc"), ("TeeHandle::write", "src/eckit/io/TeeHandle.cc")])
prop(id="C15", how="The entry shared through the pool and each operation of a handle from any state of the entry (any set of registered users among two observed ones, any position of the file), "
         "with the file as contract stubs of libc or of a DataHandle; native histories of several users. ~5 s.",
     title="Readers sharing a pooled file do not disturb each other",
     statement="Each user of a pooled file has its own position and open state, and reads the bytes at its own position whatever the others read, seek or close in between. "
               "The file is opened once for all of them, stays open while one uses it, and only users who registered and opened may read. Errors reading, seeking or closing are reported.",
     over=["inputs", "histories"], quant="every state of the shared entry and of two users, every position and length, and a failure at any system call",
     why="What a user reads depends on what all the others did since its last read; tests run one sequence of two or three users.",
     files=["src/eckit/io/PooledFile.cc", "src/eckit/io/PooledHandle.cc"],
     mech=[("PooledFileEntry / PooledFile", "src/eckit/io/PooledFile.cc"), ("PoolHandleEntry / PooledHandle", "src/eckit/io/PooledHandle.cc")])
prop(id="C16", how="The real parsers and printers, with a text of every documented format and any digits in it (the digits symbolic, the format a case split), "
         "strtol and strtod as contracts over decimal digits, the inserters of std::ostream as contracts that append to a ghost text, and the calendar of Date as C03's contract. ~150 s.",
     title="Dates and times written as text are read as what they say",
     statement="A text in one of the accepted forms of a date (YYYYMMDD, YYMMDD, YYYY-MM-DD, MM-DD, YYYY-DDD) or time (H, HHMM, HHMMSS, H:MM, H:MM:SS, decimal hours, 1d2h3m4s, with a sign where extended times are allowed) is read as exactly that date or time. "
               "One that names no existing day or time of day, mixes the forms, or has anything else in it, is refused. "
               "Printing a date, time or both gives YYYY-MM-DD, HH:MM:SS, and this text is read back as the same value.",
     over=["inputs"], quant="every choice of digits in texts of each accepted form, every character put in place of one of them, every date of the years 1000 to 9999 and time of day",
     why="Each form has its own arithmetic and bounds, and the sign, the number of days and leap years interact with them; tests read a few dozen texts.",
     files=["src/eckit/types/Date.cc", "src/eckit/types/Time.cc", "src/eckit/types/DateTime.cc"],
     mech=[("Time(text)", "src/eckit/types/Time.cc"), ("Date::parse", "src/eckit/types/Date.cc"), ("DateTime(text) and print", "src/eckit/types/DateTime.cc")])

prop(id="C17", how="The arithmetic of both directions against the definition of Gorski et al. 2005 written over face, ring and place in the face (integer square root, bit interleaving and division as contracts proved in harnesses of their own); "
         "the loop over all pixels by an invariant at one symbolic pixel. ~200 s.",
     title="HEALPix ring and nested numbers correspond one to one",
     statement="The ring number of every pixel of a HEALPix grid, counted along the rings from north to south and along each ring from longitude zero, is the one of the HEALPix definition for the pixel with this nested number. "
               "Converting it back gives the nested number again, so no two pixels share a number. "
               "A whole grid is renumbered pixel by pixel with these numbers, and not at all when the order asked for is the one it has.",
     over=["inputs"], quant="every pixel of every grid of Nside 1, 2, 4, ... 2^13",
     why="Caps and belt, odd and even rings, and the wrap at longitude zero each have their own arithmetic, and rounding of the square root shows only for particular pixels; tests compare grids of a few pixels.",
     files=["src/eckit/geo/order/HEALPix.cc"],
     mech=[("Renumber::nest_to_ring", "src/eckit/geo/order/HEALPix.cc"), ("Renumber::ring_to_nest", "src/eckit/geo/order/HEALPix.cc"), ("HEALPix::reorder", "src/eckit/geo/order/HEALPix.cc")])
