"""The properties, the harness that decides each, and how much of it each tier explores."""

HARNESSES = {
    "vmem_list": {"parts": 4},
    "vmem_map": {"parts": 4},
    "vmem_pool": {"parts": 4},
    "vmem_life": {"parts": 6},
    "json": {"parts": 1},
    "http": {"parts": 1},
    "files": {"parts": 1},
    "diag": {"parts": 1},
    "net": {"parts": 2},
    "endpoint": {"parts": 2},
    "gpio": {"parts": 1},
    "testfw": {"parts": 1},
    "games": {"parts": 2, "dirs": ["samples"]},
    "services": {"parts": 3, "dirs": ["samples"]},
    "car": {"parts": 1, "dirs": ["samples"]},
}

VMEM_ASSUME = [
    "single-threaded use of a pool, as documented",
    "pools map at least 5 (pages) or 8 (containers) pages at a time: the containers lock several pages at once, and the harness keeps the start page locked as the documentation shows",
    "a kill preserves what the process has written to its mappings (no power loss)",
]


def prop(id, harness, quick, thorough, title, statement, over, text, why, files, mechanism, assumptions=None, observe=None, **kw):
    d = dict(harness=harness, quick=quick, thorough=thorough, title=title, statement=statement, over=over, text=text, why=why,
             files=files, mechanism=mechanism, assumptions=assumptions or [], observe=observe or [])
    d.update(kw)
    return id, d


PROPS = dict([
    prop("C01", "vmem_list", 80000, 3000000,
         "A persistent list behaves exactly like an in-memory sequence",
         "Whatever sequence of insertions, erasures, pushes, pops, range operations, clears and traversals is applied to a list (or a generic balanced container) in a pool, its size, its content and its order in both directions are those of a plain in-memory sequence given the same operations, and every returned position refers to the item the operation promises. "
         "This holds for every item size that fits a page, any balancing policy, any number of lists sharing the pool, and any number of memory-mapped pages from the supported minimum up. "
         "Items are never torn, lost, duplicated or moved between lists. "
         "An insertion for which the file has no space is reported and changes nothing, and misuse (erasing or reading past the end, inserting at a position that isn't one, opening a list over the state of one of another item size) is refused and changes nothing.",
         ["histories", "configurations"],
         "all finite histories of operations, over all item sizes, balancing policies and pool capacities",
         "Tests insert a handful of fixed sequences for one item size and check page counts; splits, merges and position bookkeeping depend on the whole history and on the page capacity.",
         ["src/x/vmem_container.x.h", "src/i/vmem_container.i.h", "src/x/vmem_iterator.x.h", "src/x/vmem_list.x.h", "src/x/vmem_linked.x.h"],
         [("splitting a full page on insert", "src/x/vmem_container.x.h: insert_with_overflow()"), ("merging pages on erase", "src/x/vmem_container.x.h: balance_merge(), erase_nostate()"), ("iterator next/prev over pages", "src/x/vmem_container.x.h: next(), prev()")],
         VMEM_ASSUME, ["public API of vmem_list and vmem_container", "the pool file"]),
    prop("C02", "vmem_map", 9000, 400000,
         "A persistent map behaves exactly like an in-memory sorted map",
         "Whatever sequence of insertions, erasures, lookups and clears is applied to a map in a pool, a key is found exactly when it has been inserted and not erased since, with the value given, and traversal yields all items in key order in both directions. "
         "Inserting an existing key is refused and changes nothing, and erasing reports whether the key was there. "
         "This holds for every key order, key size and value size, at every depth of the index, with several maps sharing a pool. "
         "An insertion or an erasure for which the file has no space is reported as not done and changes nothing.",
         ["histories", "configurations"],
         "all finite histories of operations, over all key orders, key and value sizes and pool capacities",
         "Tests insert one shuffled and a few fixed key sequences; the index levels depend on the history of splits and merges, which only long mixed histories with large keys reach.",
         ["src/x/vmem_map.x.h", "src/i/vmem_map.i.h", "src/x/vmem_container.x.h"],
         [("descending the key levels", "src/x/vmem_map.x.h: find2()"), ("keeping key levels in step with value pages", "src/x/vmem_map.x.h: update_key_levels(), replace_key()")],
         VMEM_ASSUME, ["public API of vmem_map", "the pool file"]),
    prop("C03", "vmem_pool", 36000, 1000000,
         "Stacks are last-in-first-out, pack pages fully, and temporaries leave nothing",
         "A stack in a pool returns items in the reverse order of pushing, with its size and content equal to those of an in-memory stack after any history, across reopening of the pool. "
         "Because it is never balanced, its items always occupy the least possible number of pages. "
         "A temporary container (stack, list or map), also one that has been moved, gives all its pages back to the pool when it is destroyed, and not before. "
         "The result of a map lookup with a path can be moved like any value.",
         ["histories"],
         "all finite histories of pushes, pops, clears, temporary containers, moves and reopenings",
         "Tests push and pop one fixed sequence.",
         ["src/i/vmem_list.i.h", "src/x/vmem_list.x.h", "src/x/vmem_map.x.h", "src/x/vmem_container.x.h"],
         [("no balancing policy", "src/i/vmem_list.i.h: vmem_stack"), ("clear on destruction", "src/x/vmem_list.x.h: ~vmem_temp()")],
         VMEM_ASSUME, ["public API of vmem_stack and vmem_temp", "the pool file"]),
    prop("C04", "vmem_pool", 70000, 3000000,
         "Pages keep their identity and content, and none is shared, lost or over-mapped",
         "Every page of a pool keeps its position and content from allocation until it is freed, however many other pages are used meanwhile; a newly allocated page is never one that is in use, a freed page is used again before the file grows, and every page of the file is in use or free. "
         "At no time are more pages mapped into memory than the pool's limit; a locked page stays at its address until released, and when all slots are locked a further lock fails cleanly instead of disturbing another page. "
         "Linked pages iterate in the order built by insertions, erasures and splices, and destroying the pool closes its file and removes all its mappings. "
         "When the file can't grow, an allocation for which no page is free fails cleanly and leaves a file of whole pages.",
         ["histories", "configurations"],
         "all finite histories of allocating, freeing, locking, copying, moving, writing and linking pages, over all pool capacities",
         "Tests check hit and miss counts of a few fixed page sequences; aliasing of pages shows only in particular histories of eviction and reuse.",
         ["src/x/vmem_pool.x.h", "src/i/vmem_pool.i.h", "src/x/vmem_linked.x.h"],
         [("list of free pages", "src/x/vmem_pool.x.h: pop_free_page_pos(), push_free_page_pos()"), ("unmapping of pages that are not locked", "src/x/vmem_pool.x.h: make_mapping_capacity()"), ("links", "src/x/vmem_linked.x.h: insert_nostate(), erase_nostate(), splice()")],
         VMEM_ASSUME + ["a page whose allocation failed because every mapped page was locked may stay unused"], ["public API of vmem_pool, vmem_page, vmem_ptr and vmem_linked", "/proc/self/maps", "the pool file"]),
    prop("C05", "vmem_life", 5000, 200000,
         "What was stored in a pool is there when the pool is opened again",
         "After any sequence of sessions, each ending by closing the pool, by the process exiting without closing it or by the process being killed between two operations, opening the pool gives exactly the lists, maps, stacks, strings and start page content left by the completed operations. "
         "The same holds for a copy of the pool file taken between two operations while the pool is open, and the number of mapped pages may differ from session to session.",
         ["histories", "crash_points", "configurations"],
         "all histories of sessions, every point between two operations at which a session ends, all pool capacities",
         "Tests reopen a pool once after a fixed content and never end a process early.",
         ["src/x/vmem_pool.x.h", "src/i/vmem_layout.i.h", "src/x/vmem_container.x.h", "src/x/vmem_map.x.h"],
         [("shared mappings of the pool file", "src/x/vmem_pool.x.h: map_new_page()"), ("states kept on the start page", "src/i/vmem_layout.i.h")],
         VMEM_ASSUME, ["public API after reopening", "the pool file"]),
    prop("C06", "vmem_life", 200000, 5000000,
         "A file that is not a valid pool is refused without harm",
         "Opening a pool on a file of a wrong size, with a wrong version, signature or page size, without a start page, with random content, or on a path that cannot be opened or is missing throws, leaves the file as it was, and leaks neither an open file nor a mapping. "
         "An empty or new file becomes a valid pool with a zeroed start page, and a valid file is accepted unchanged. "
         "A pool type that maps fewer pages than the supported minimum is refused, and a pool that couldn't be created because the disk was full can be created later.",
         ["inputs", "configurations"],
         "all file contents and paths",
         "No test opens an invalid pool file.",
         ["src/x/vmem_pool.x.h"],
         [("validation on open", "src/x/vmem_pool.x.h: open_pool_or_throw(), verify_pool_or_throw()")],
         [], ["constructor of vmem_pool", "/proc/self/fd", "/proc/self/maps"]),
    prop("C07", "vmem_life", 24000, 2000000,
         "Balancing keeps list pages at least half used",
         "As long as items are only appended, a list fills its pages fully; after insertions at any positions every page except the last is at least half full. "
         "After erasures at any positions no page is empty and no two neighbouring pages (the last one aside) together hold half a page or less. "
         "An emptied list owns no pages.",
         ["histories"],
         "all finite histories of insertions and erasures, over all item sizes",
         "Tests check page counts of two fixed sequences.",
         ["src/x/vmem_container.x.h", "src/i/vmem_list.i.h"],
         [("splitting in halves", "src/x/vmem_container.x.h: balance_split()"), ("merging", "src/x/vmem_container.x.h: balance_merge()")],
         VMEM_ASSUME + ["the documented bound of 50% after erasures is read per pair of neighbours: a page that cannot be merged with either neighbour may be less than half full"], ["the pool file"]),
    prop("C08", "vmem_life", 7000, 400000,
         "A persistent string stream gives back exactly the characters written",
         "Characters of every value written to a string in a pool through an output stream and flushed are read back through an input stream identical, in number and in order, up to the end of the string and no further. "
         "This holds across page boundaries, interleaved writes and reads, moves of the stream buffers and reopening of the pool, for every character type. "
         "When the file has no space for a character, the stream fails and the string holds exactly the characters before it.",
         ["inputs", "histories"],
         "all character sequences, and all interleavings of writes, flushes, reads, moves and reopenings",
         "The test writes three numbers.",
         ["src/x/vmem_string.x.h", "src/i/vmem_string.i.h"],
         [("one-character buffers", "src/x/vmem_string.x.h: underflow(), overflow(), sync()")],
         VMEM_ASSUME + ["a reader that has reached the end does not see characters appended later"], ["std::istream and std::ostream over vmem_basic_string_streambuf"]),
    prop("C09", "json", 600000, 30000000,
         "The JSON reader delivers exactly the tokens of a well-formed text",
         "For every well-formed JSON text within the nesting limit of the reader, the reader delivers the same sequence of tokens, names, values and nesting as the text spells, whatever the whitespace, escapes, number formats and lengths, and however the source hands out its bytes; strings and numbers arrive with exactly their content. "
         "Skipping a value lands on the same place as reading it, and the reader may be moved between any two tokens. "
         "Strings longer than the given buffer are refused and never delivered truncated.",
         ["inputs"],
         "all JSON texts, all mixes of reading and skipping, all chunkings of the source",
         "Tests read a few fixed documents; escapes at buffer ends, deep nesting, long numbers and chunk boundaries are never reached.",
         ["src/json.h", "src/i/json.i.h", "src/stream.h"],
         [("nesting state as a bit stack", "src/json.h: json_state"), ("string escapes", "src/json.h: get_string()"), ("skipping", "src/json.h: skip_value()")],
         ["numbers are compared with strtod() of the same text", "leniencies of the reader (trailing commas, leading + or zeros, raw control chars) are neither required nor forbidden", "only \\u00XX escapes are supported, as documented by the code"],
         ["public API of json_istream"], fuzz_s=60),
    prop("C10", "json", 1000000, 60000000,
         "The JSON reader refuses malformed text and never runs away",
         "On every malformed, truncated or random text the JSON reader terminates, reports the error, and delivers no token past it; it never reads or writes outside the buffers it was given, and never takes the end of the text for a character. "
         "What it delivers before the error is a prefix of what the text spells.",
         ["inputs"],
         "all byte sequences",
         "Tests cover a few kinds of mismatched brackets; truncation and corruption at every position of every document cannot be listed.",
         ["src/json.h", "src/i/json.i.h", "src/stream.h"],
         [("state checks on every token", "src/json.h: get_or_skip_token()"), ("peeking at the end", "src/json.h: peek_char(), get_char()")],
         ["leniencies of the reader are neither required nor forbidden"],
         ["public API of json_istream", "AddressSanitizer"], fuzz_s=60),
    prop("C11", "json", 600000, 30000000,
         "What the JSON writer accepts reads back the same, and misuse is refused",
         "Every sequence of put operations the JSON writer accepts produces a well-formed JSON text, unless it stops half-way, which reads back - with an independent reader and with the reader of the library - as exactly the names, values and nesting that were put, for every string content and every finite number. "
         "An operation that is not allowed at that point is refused with the documented exception and leaves no output and no change of state behind. "
         "The writer may be moved between any two operations.",
         ["inputs", "histories"],
         "all sequences of put operations over all values",
         "Tests write a few fixed documents with simple strings and numbers.",
         ["src/json.h", "src/i/json.i.h", "src/stream.h"],
         [("state checks on every put", "src/json.h: json_ostream"), ("escaping", "src/json.h: put_string(), put_property()")],
         ["the spelling of the output (spacing, line breaks, choice of escapes) is not part of the property"],
         ["public API of json_ostream"]),
    prop("C12", "diag", 3000000, 400000000,
         "A timestamp is the calendar date and time of its time point",
         "For every time point from 1970 on, whatever the precision of the clock, a timestamp has the year, month, day, hours, minutes, seconds and fractions that the Gregorian calendar gives for it. "
         "Two timestamps compare (equal, before, after) the way their time points do, and resetting a timestamp gives the same as making it from the new time point.",
         ["inputs"],
         "all time points from 1970 to several thousand years later",
         "Tests check a handful of dates; leap days and century boundaries after 2100 are not among them.",
         ["src/timestamp.h", "src/i/timestamp.i.h"],
         [("year arithmetic from Mar 1, 1970", "src/timestamp.h: reset_date()")],
         ["no dates before 1970"],
         ["public API of timestamp", "gmtime_r() as the oracle"]),
    prop("C13", "diag", 150000, 8000000,
         "Logs write exactly the entries their filter lets through, in their format",
         "A log writes one line for each entry the filter lets through and nothing for the others, in order, each line with the category, severity, tag, time, thread and message in the columns of its format, however the filter changes in between. "
         "A message that does not fit its line is cut, never spilled into the next line, a binary dump has every byte in hexadecimal and readable form, in order, and a line is flushed to the stream behind the log when it ends.",
         ["histories", "inputs"],
         "all sequences of entries, messages, dumps and filter changes, for every line format",
         "Tests compare a few fixed lines.",
         ["src/log.h", "src/i/log.i.h", "src/table.h", "src/i/table.i.h"],
         [("filtering", "src/log.h: log_ostream"), ("line formats", "src/log.h: debug_line_ostream, diag_line_ostream, test_line_ostream")],
         [], ["the bytes that reach the stream behind the log"]),
    prop("C14", "diag", 600000, 40000000,
         "A line keeps to its buffer and is put exactly once",
         "Whatever is put into a line, of whatever length, with formatted text, strings and binary data in any order, nothing is written or read outside the line, the line that reaches its table is what was put cut at the size of the line, and it reaches it, and the stream behind it, exactly once per flush, even when the line is moved or destroyed.",
         ["histories", "inputs"],
         "all sequences of puts, flushes and moves, over several line sizes",
         "Tests put short lines only.",
         ["src/table.h", "src/i/table.i.h"],
         [("clamping to the buffer", "src/table.h: put_any(), put_binary()"), ("flush on destruction", "src/table.h: ~line_ostream()")],
         [], ["the bytes that reach the table", "AddressSanitizer on buffers of exact size"]),
    prop("C15", "diag", 600000, 40000000,
         "A buffer stream reads and writes its ranges and nothing else",
         "A stream over a buffer reads exactly the characters of its read range and then reports the end, writes exactly into its write range and then fails, and leaves every other character alone. "
         "It works the same for any ranges, for every character type, and keeps its positions and its state when the buffer or the stream is moved.",
         ["histories", "configurations"],
         "all sequences of reads, writes, resets and moves over all ranges",
         "Tests read and write one small buffer from its start.",
         ["src/buffer_streambuf.h", "src/stream.h"],
         [("ranges given to the std stream buffer", "src/buffer_streambuf.h: reset()"), ("moving", "src/buffer_streambuf.h: buffer_streambuf(buffer_streambuf&&)")],
         [], ["public API", "AddressSanitizer on buffers of exact size"]),
    prop("C16", "diag", 600000, 40000000,
         "ASCII classification and comparison match the standard tables",
         "Every character predicate of the library accepts exactly the characters its standard (ASCII, HTTP, JSON) names, for every char value including negative ones. "
         "Comparing strings, in whole or up to a limit, is exact; comparing and converting regardless of case folds ASCII letters only.",
         ["inputs"],
         "all characters and all pairs of strings",
         "Only indirectly used by tests.",
         ["src/ascii.h"],
         [("predicates", "src/ascii.h")],
         [], ["public functions of abc::ascii"]),
    prop("C17", "http", 300000, 30000000,
         "The HTTP reader delivers exactly the parts of a well-formed message",
         "For every well-formed HTTP request or response, and for any number of them one after another on one stream, the reader delivers exactly the method, resource, protocol, status code, reason phrase, header names, header values and body that the message spells, whatever the optional spaces and folded lines, the lengths, and the way the source hands out its bytes; a buffer of exactly the right size is enough. "
         "A header value reads with its inner spaces and line folds as one space. "
         "A part can only be read when it is due; asking out of order is refused with an exception and changes nothing. The reader may be moved between any two parts, alone or as a part of a client or server stream.",
         ["inputs", "histories"],
         "all well-formed messages, chunkings, buffer sizes, and calls out of order",
         "Tests read a few fixed messages with large buffers.",
         ["src/http.h", "src/i/http.i.h", "src/stream.h", "src/ascii.h"],
         [("state machine", "src/http.h: http_state"), ("unfolding", "src/http.h: get_header_value()"), ("body by length", "src/http.h: get_body()")],
         ["ASCII only in the start line and the headers, as the reader is documented", "the body length is known to the caller"],
         ["public API of the http streams", "AddressSanitizer on buffers of exact size"], fuzz_s=60),
    prop("C18", "http", 600000, 60000000,
         "The HTTP reader refuses malformed text and short buffers safely",
         "On every malformed, truncated or random text, and with every buffer that is too short, the HTTP reader terminates, reports the failure at the part where it happens, delivers nothing after it, and writes and reads nothing outside of the given buffer, which it always terminates. "
         "What it delivers up to there is what the text spells; the end of the text is never taken for a character.",
         ["inputs"],
         "all byte sequences and all buffer sizes",
         "Tests read well-formed messages only, with large buffers.",
         ["src/http.h", "src/i/http.i.h", "src/stream.h"],
         [("limits of the buffer", "src/http.h: get_chars()"), ("peeking at the end", "src/http.h: peek_char(), get_bytes()")],
         ["leniencies of the reader (missing spaces between parts, empty parts, missing version digits) are neither required nor forbidden"],
         ["public API of the http streams", "AddressSanitizer on buffers of exact size"], fuzz_s=60),
    prop("C19", "http", 300000, 30000000,
         "What the HTTP writer accepts reads back the same; nothing can be smuggled",
         "Every sequence of put operations the HTTP writer accepts produces a message that an independent reader and the reader of the library read back as exactly the parts that were put. "
         "Content that cannot be a part (line breaks, control or non-ASCII characters, separators in a name, empty names, an incomplete protocol) is refused: the stream fails, no line is completed, and nothing more is written. "
         "A part out of order is refused with an exception and changes nothing. When the medium behind the stream is full the writer fails and what was written is a prefix of the message.",
         ["inputs", "histories"],
         "all sequences of put operations over all contents",
         "Tests write a few fixed messages.",
         ["src/http.h", "src/i/http.i.h", "src/stream.h"],
         [("predicates on every char", "src/http.h: put_chars()"), ("state machine", "src/http.h: http_state")],
         ["the spelling of optional spaces is not part of the property"],
         ["public API of the http streams"]),
    prop("C20", "http", 1000000, 100000000,
         "Splitting a resource finds exactly its parameters",
         "For every resource of a request, splitting it leaves the path, and looking a parameter up returns the value of the first parameter of exactly that name, or nothing when there is none; names that are prefixes or suffixes of each other are told apart, and nothing outside of the buffer is touched.",
         ["inputs"],
         "all resources with any parameters, in buffers of any size",
         "Tests look up one parameter of one resource.",
         ["src/http.h"],
         [("splitting in place", "src/http.h: split_resource()"), ("lookup", "src/http.h: get_resource_parameter()")],
         ["an empty parameter ends the list"],
         ["public API of http_request_istream", "AddressSanitizer on buffers of exact size"]),
    prop("C21", "files", 200000, 10000000,
         "A multi-file stream puts every byte in the file of its time",
         "Everything written to a multi-file stream is found, once and in order, in its files taken in the order of their names, and once a new file is open the earlier ones don't change. "
         "Each file is named after the UTC second it was opened in. A new file is opened on request, and with a flush exactly when the duration has passed since the current one was opened, or when the file has reached the size limit; never at another time. "
         "Any path up to the maximum length works and a longer one is refused; a stream may be moved at any time; a flush to a full medium is reported.",
         ["histories"],
         "all sequences of writes, flushes, reopens, moves and passing time",
         "Tests write a few bytes to one file and move the stream once.",
         ["src/multifile.h", "src/i/multifile.i.h", "src/timestamp.h"],
         [("file names", "src/multifile.h: multifile_streambuf::reopen()"), ("rotation by time", "src/multifile.h: duration_multifile_streambuf::sync()"), ("rotation by size", "src/multifile.h: size_multifile_streambuf::sync()")],
         ["at most one file is opened per second, as documented", "the clock does not go back", "a file of exactly the limit may or may not be followed by a new one"],
         ["files in a scratch folder", "a simulated clock given as the Clock parameter"]),
    prop("C22", "net", 24000, 2000000,
         "Sockets deliver exactly the bytes sent, and own their descriptors",
         "Over TCP, what one side sends, in pieces of any size, directly or through a socket stream, is what the other side receives, whole and in order, in both directions at once, over IPv4 and IPv6; a close is seen after the last byte, even when the closing side has left something unread. UDP messages arrive whole, or cut to the receiver's buffer, and can be answered. "
         "Moving a socket or a stream at any time changes nothing that can be observed; every descriptor is closed exactly once. "
         "Misuse and failure - a closed socket, a name or port that can't be used, a peer that is gone - are reported by an exception or a short count, never by the end of the process.",
         ["histories"],
         "all histories of connects, sends, receives, flushes, moves and closes by two peers",
         "Tests exchange a few fixed short messages and never fail, move or close early.",
         ["src/socket.h", "src/i/socket.i.h"],
         [("sending and receiving all", "src/socket.h: tcp_client_socket::send(), receive()"), ("stream over a socket", "src/socket.h: socket_streambuf"), ("ownership", "src/socket.h: basic_socket::close(), move constructors"), ("addresses", "src/socket.h: connect(), bind(), send_to(), receive_from()")],
         ["loopback interface only", "UDP only to a peer whose buffer has space"],
         ["bytes received", "the number of open descriptors"]),
    prop("C23", "net", 4000, 200000,
         "TLS sockets deliver exactly the bytes sent, only between trusted peers",
         "What C22 says about TCP holds for TLS sockets too: the bytes received are those sent, in order, in both directions, through moves and closes, also right after a lot has been sent, and a peer that is gone doesn't end the process. "
         "A client that verifies connects only to a server whose certificate it trusts, a server that verifies accepts only clients that have one, and a key is used only with its password. "
         "When any byte of the traffic is changed on its way, nothing but a prefix of what was sent is delivered. "
         "A socket object can connect again after it has been closed, to the same or to another server.",
         ["histories"],
         "all histories of connects, sends, receives, moves and closes; all single changes of the traffic; the combinations of certificates, keys and verification",
         "Tests make one connection without verification and exchange short messages.",
         ["src/openssl_socket.h", "src/i/openssl_socket.i.h"],
         [("handshake and verification", "src/openssl_socket.h: openssl_tcp_client_socket::connect(), openssl_tcp_server_socket::accept()"), ("reading and writing", "src/openssl_socket.h: send(), receive()")],
         ["a truncation is not distinguished from a close", "OpenSSL itself is right"],
         ["bytes received", "exceptions", "a proxy that changes one byte"]),
    prop("C24", "endpoint", 9000, 400000,
         "An endpoint answers each request right, and only from its root directory",
         "A GET of a resource under the files prefix (or /favicon.ico) is answered with exactly the content of that regular file under the root directory, with its length and the type of its extension; if there is no such file the answer is 404, and another method gets 405. No request, whatever its path, is answered with anything from outside of the prefix. "
         "Every other request is given, once, with its method, resource, headers and body as they were sent, to the REST handler, whose response is what the client gets. "
         "This holds for resources up to the limit (a longer one is refused), for requests that arrive in any pieces, over TCP and TLS. Every response is valid HTTP whose Content-Length is the number of bytes that follow, even when the file grows meanwhile.",
         ["inputs", "configurations"],
         "all requests, file trees, prefixes, limits and ways in which a request arrives",
         "Tests ask for two fixed REST resources and never for a file.",
         ["src/endpoint.h", "src/i/endpoint.i.h"],
         [("files", "src/endpoint.h: process_file_request(), is_file_request(), has_parent_segment()"), ("content type", "src/endpoint.h: get_content_type_from_path()"), ("request line", "src/endpoint.h: process_request()"), ("simple responses", "src/endpoint.h: send_simple_response()")],
         ["resources are ASCII", "a query string on a file, a root directory longer than the limits and a resource within 2 characters of the limit are unspecified", "a client that goes on sending after it could have been answered may lose the answer"],
         ["bytes of the response", "calls of process_rest_request()"],
         workers=8),
    prop("C25", "endpoint", 8000, 400000,
         "An endpoint outlives any client, and a shutdown waits for requests",
         "Whatever some clients do - send garbage, a part of a request, nothing, or break the connection at any moment - and whatever exception a request handler throws, all other clients get their answers, nothing that wasn't asked for is processed, nothing is processed twice, and every connection and descriptor is closed in the end. "
         "After a shutdown request the future becomes ready exactly when the requests in progress have been completed, those requests get their full answers, and no request that comes later is processed; clients that are connected but haven't sent a request don't delay it. Several shutdowns at once are one. "
         "An endpoint that can't start reports that through its future.",
         ["histories"],
         "all interleavings of the steps of up to 16 clients, with all moments of the shutdown",
         "Tests use one well-behaved client and one shutdown at the end.",
         ["src/endpoint.h", "src/i/endpoint.i.h", "src/socket.h", "src/openssl_socket.h"],
         [("accepting", "src/endpoint.h: start()"), ("requests in progress", "src/endpoint.h: process_request(), end_request()"), ("reporting", "src/endpoint.h: start_thread_func()")],
         ["request handlers throw exceptions derived from std::exception only", "threads can be created"],
         ["bytes of the responses", "the future", "calls of process_rest_request()", "live socket objects and descriptors"]),
    prop("C26", "gpio", 60000, 3000000,
         "GPIO chips and lines report and set levels truthfully, and leak nothing",
         "A GPIO chip or line is made exactly when the system grants it, and otherwise reports it by throwing; a line is requested with the given direction and flags for the chip's consumer, is held until the object is gone, however often it is moved, and every descriptor is closed exactly once, also when a request fails half way. "
         "Chip and line information is that of the device, and invalid when it can't be had. "
         "get_level() returns the level of the line, put_level() returns the level it has set; both return invalid when the system refuses or the level isn't one. "
         "expect_level() succeeds as soon as the line has the level, and gives up only when the timeout has passed; put_level() with a duration holds the level for that long. "
         "An ultrasonic measurement sends a pulse of at least 10 us, returns the distance that corresponds to the length of the echo, and the given maximum if there is no echo within the time sound takes for twice that distance.",
         ["histories", "inputs", "faults"],
         "all histories of chips, lines, levels, moves and failures of the system, over all signals on the lines",
         "There are no tests of GPIO, which needs hardware; failures of the system and signals at every moment don't come on demand with hardware either.",
         ["src/x/gpio_chip.x.h", "src/x/gpio_line.x.h", "src/x/gpio_ultrasonic.x.h", "src/i/gpio_line.i.h", "src/i/gpio_ultrasonic.i.h"],
         [("line requests", "src/x/gpio_line.x.h: gpio_line()"), ("waiting for a level", "src/x/gpio_line.x.h: expect_level()"), ("echo timing", "src/x/gpio_ultrasonic.x.h: measure_distance()")],
         ["the kernel's GPIO v2 devices are replaced by a model of them (open, close and ioctl of this process), and time by a virtual clock", "a line is polled, so a level that lasts for less than a few polls may be missed"],
         ["public API of gpio_chip, gpio_line and gpio_ultrasonic", "requests that arrive at the device", "open descriptors", "virtual time"]),
    prop("C27", "gpio", 120000, 6000000,
         "SMBus transfers reach their target with the right bytes, or report failure",
         "Every SMBus operation addresses the target it was given with exactly the register, size and bytes of the operation, words in the byte order the target requires, and returns true only if the whole operation succeeded; a received value is the one the target sent. "
         "Whenever selecting the target or transferring fails, when a block is longer than the protocol allows, or longer than the buffer it's to be received in, the operation returns false, whether or not there is a log, and nothing outside the given buffer is read or written. "
         "Threads that use different targets on one bus never reach each other's target, and a word read in two parts isn't mixed with another thread's. "
         "A bus that can't be opened or queried throws, and leaves no descriptor open.",
         ["histories", "schedules", "faults"],
         "all sequences of operations by up to 5 threads on as many targets, with a failure at any request, over all schedules",
         "There are no tests of SMBus, which needs hardware; interleavings of threads between selecting a target and transferring are up to the scheduler.",
         ["src/x/gpio_smbus.x.h", "src/i/gpio_smbus.i.h"],
         [("selecting the target", "src/x/gpio_smbus.x.h: ensure_address()"), ("one lock per operation", "src/i/gpio_smbus.i.h: _ioctl_mutex"), ("byte order", "src/x/gpio_smbus.x.h: swap_bytes()")],
         ["the kernel's I2C device is replaced by a model of it, and threads run one at a time by a generated schedule that switches at locks, clocks, sleeps and system calls"],
         ["public API of gpio_smbus", "transfers that arrive at the device", "registers of the targets"]),
    prop("C28", "gpio", 600000, 30000000,
         "SMBus peripherals are set and read in the right units",
         "A hardware PWM is set to a period that matches the requested frequency at the target's clock as closely as its two factors allow, for every clock and frequency; a duty cycle between 0 and 100 sets the pulse width to that share of the period, or of the given range of pulse widths, 0 is off and 100 or more fully on. "
         "A timed duty cycle, and each one of a servo, lasts for the given duration and then ends with 0. "
         "A motor turns in the direction last set, and reports the direction and the duty cycle last set. "
         "A grayscale sensor returns left, center and right as measured. "
         "A motion sensor is configured for 16 g and 2000 degrees per second, returns exactly the channels of the mask, 0 for a channel that can't be read, values relative to the calibration in those units and the temperature in degrees; the calibration of a channel is the average of several measurements.",
         ["inputs", "histories", "faults"],
         "all clocks, frequencies, pulse widths, duty cycles, directions, measurements, masks and calibrations",
         "There are no tests of peripherals, which need hardware.",
         ["src/x/gpio_smbus_pwm.x.h", "src/x/gpio_smbus_servo.x.h", "src/x/gpio_smbus_motor.x.h", "src/x/gpio_smbus_grayscale.x.h", "src/x/gpio_smbus_motion.x.h"],
         [("period and prescaler", "src/x/gpio_smbus_pwm.x.h: gpio_smbus_pwm(), get_autoreload_from_period()"), ("pulse width", "src/x/gpio_smbus_pwm.x.h: set_duty_cycle()"), ("units", "src/x/gpio_smbus_motion.x.h: get_value_from_measurement()")],
         ["a period has at least 16 and at most 2^31 ticks of the target's clock", "the maximum pulse width fits in the period and isn't below the minimum", "the kernel's devices are replaced by models of them, and time by a virtual clock"],
         ["public API of the peripherals", "registers of the targets", "levels of the lines", "virtual time"]),
    prop("C29", "gpio", 100000, 5000000,
         "Background PWM and motion tracking follow their commands and always stop",
         "An emulated PWM produces, within 200 ms and two periods of the last command, high pulses of exactly the commanded share of the period (or of the range of pulse widths), one per period, a constant level for duty cycles 0 and 100, and a low line when it is gone. "
         "A motion tracker measures every millisecond from at most 200 ms after it was started until it is stopped; its depth, width, direction and speed are those of a body that starts at the values last set and moves with the measured acceleration and rotation, they stay as they are while it's stopped, and the speed is then 0. "
         "Whenever it comes - also right after the construction, and at any moment of the background thread's work - a start is not missed, and the destructor returns within a bounded time and leaves neither a thread nor a held line behind. "
         "One that can't be made throws and leaves nothing behind.",
         ["histories", "schedules"],
         "all sequences of commands at all moments, over all schedules and all signals of the sensor",
         "There are no tests of the background threads; a missed notification shows only if a command comes at a particular moment.",
         ["src/x/gpio_pwm_emulator.x.h", "src/i/gpio_pwm_emulator.i.h", "src/x/gpio_smbus_motion_tracker.x.h", "src/i/gpio_smbus_motion_tracker.i.h"],
         [("wave", "src/x/gpio_pwm_emulator.x.h: thread_func()"), ("waking the thread", "src/x/gpio_smbus_motion_tracker.x.h: start(), thread_func()"), ("integration", "src/x/gpio_smbus_motion_tracker.x.h: thread_func()")],
         ["metrics are set only while the tracker is stopped", "threads run one at a time by a generated schedule that switches at locks, clocks, sleeps and system calls; time is virtual", "pulses are exact up to the late wake-ups that the case generates"],
         ["public API of gpio_pwm_emulator and gpio_smbus_motion_tracker", "levels on the line over virtual time", "measurements of the sensor over virtual time", "threads"]),
    prop("C30", "testfw", 300000, 10000000,
         "A test suite runs every test, and reports truthfully and repeatably",
         "run() calls every method of every category exactly once, in order, whatever the methods before have returned or thrown - exceptions of any type -, with a context that tells the names, the log, the process path and the seed; it returns true exactly if all methods have returned true. "
         "The log says PASS or FAIL for each method, each category and the whole, as it was, tells the text of a standard exception, and the seed. "
         "A suite that is given no seed picks one; a suite that is given this seed gives the same random numbers to the same tests. "
         "are_equal() returns whether the values, C strings, or bytes are equal, with or without a log, and logs the verdict with both values - of bytes, all of them, 16 per line.",
         ["inputs", "histories"],
         "all suites, results, exceptions, seeds, compared values, line types and filters",
         "The framework runs the tests; no test fails or throws on purpose, so how failures are reported is never exercised.",
         ["src/test.h"],
         [("running", "src/test.h: test_suite::run()"), ("seed", "src/test.h: test_suite::srand()"), ("comparing", "src/test.h: test_context::are_equal()")],
         ["names and values fit in a line of the log"],
         ["public API of test_suite and test_context", "text that arrives in the log"]),
    prop("C31", "games", 24000, 600000,
         "The sample games: boards obey the rules, engines answer legally, and learn",
         "The boards of samples/tictactoe and samples/connect4 accept exactly the legal moves of the player whose turn it is, tell the turn, the moves, the end and the winner by the rules, and undo the last move; a refused move changes nothing; different positions have different states. "
         "Whenever it's the turn of an engine - the fast one, whatever it has learned so far, or the slow one - it answers with one legal move, until the game is over. "
         "The slow tic-tac-toe engine never loses; the slow connect-four engine plays a best move when it can see the end of the game, wins when it can at once, and doesn't leave an immediate win to the opponent if it can be helped. The fast engine plays a move with the maximal score if it knows one. "
         "When a game ends, a fast engine that plays against a slow one learns from it once: the score of each of its own moves rises after a win or a draw and falls after a loss, within the bounds, nothing else changes, and it's still known after the container has been reopened.",
         ["inputs", "histories", "schedules"],
         "all sequences of moves, knowledge, player types and schedules",
         "No test covers the samples. What an engine does depends on what it has learned from other games.",
         ["samples/tictactoe/game.h", "samples/connect4/game.h"],
         [("board", "samples/*/game.h: board"), ("engines", "samples/*/game.h: player_agent"), ("game", "samples/*/game.h: game::accept_move()")],
         ["threads switch where they synchronise (simulated threads)", "a game is not destroyed while an engine is thinking"],
         ["public API of board, player_agent and game", "items of the state-scores map"]),
    prop("C32", "services", 100000, 5000000,
         "The sample REST services answer every request, and truthfully",
         "Each request to the services of samples/basic/equations.h, samples/tictactoe and samples/connect4 gets exactly one complete response, with a Content-Length that's the length of the body, and with a body that's valid JSON if that's its type; no request, however malformed or long, makes them fail or overrun a buffer. "
         "The status is 404 for an unknown resource, game or player, 405 for a wrong method, 400 for a missing (in the games), repeated or other Content-Type, for a body that's not of the required shape, and for a value out of range, 403 for a player that has already been claimed and for a move that the board or the turn doesn't allow, and 503 while the only game is being played; such a request changes nothing. "
         "The solution of the equations satisfies them; the status tells 0, 1, or infinitely many solutions. "
         "A game starts when both players have been claimed or are engines; an accepted move returns its index, also if an engine has already answered; the moves since an index are the ones that were played, in order; the winner is told once the game is over.",
         ["inputs", "histories", "schedules"],
         "all sequences of requests, bodies, headers, player types and schedules of the engines' threads",
         "No test covers the samples.",
         ["samples/basic/equations.h", "samples/tictactoe/game.h", "samples/connect4/game.h"],
         [("equations", "samples/basic/equations.h: process_rest_request()"), ("games", "samples/*/game.h: game_endpoint"), ("players", "samples/*/game.h: endpoint_game")],
         ["requests are processed one at a time; engines' threads run between them, and switch where they synchronise", "a new game isn't created while an engine is still learning from the last one"],
         ["responses to requests passed to process_rest_request()"]),
    prop("C33", "car", 8000, 300000,
         "The sample car does what requests tell it, and stands after a shutdown",
         "The wheels of the PiCar-4WD service (samples/picar_4wd/car.h) turn in the direction and with the duty cycle that the last accepted power and turn requests ask for, the wheels on the inner side of a turn slower; requests that come at the same time act like some order of them. "
         "The car stops before it changes its direction, and not when it keeps it. Driving forward, it limits its power by the distance to the obstacle ahead, soon after the obstacle has come up, and doesn't when driving backward. "
         "A refused request (a wrong method, content type, shape or value) gets the right status and changes nothing. A servo request makes pulses of the width for the angle, and a measurement reports the obstacle, the grayscale values and the depth as the sensors have them. "
         "A shutdown stops the motors, resets the hat and ends the measurements; nothing drives the car after that, and repeated shutdowns are answered.",
         ["inputs", "histories", "schedules"],
         "all sequences of requests, also at the same time, obstacles, sensor values and schedules",
         "No test covers the samples; the board isn't there when tests run.",
         ["samples/picar_4wd/car.h", "samples/picar_4wd/car.i.h"],
         [("driving", "samples/picar_4wd/car.h: drive_verified()"), ("obstacles", "samples/picar_4wd/car.h: auto_limit_power()"), ("shutdown", "samples/picar_4wd/car.h: process_shutdown()")],
         ["the board does what its registers say (fakedev.h); time is virtual (sim.h)"],
         ["responses to requests passed to process_rest_request()", "traffic on the simulated SMBus and GPIO lines"]),
])

NOT_APPLICABLE = []

EXTRA_PROPERTIES = {}
