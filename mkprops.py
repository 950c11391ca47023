#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("M01", "A growable vector gives back exactly what was appended",
  "Whatever the element size, the initial capacity and the number of growths, reading a vector returns byte for byte and in order exactly the items whose append succeeded, and reading at or past the count returns nothing. "
  "An append that is refused (item larger than the element size, missing vector, out of memory) reports failure and changes neither the count nor any element; an empty or missing item is stored as a zeroed element. "
  "No operation touches memory outside the vector's own storage.",
  ["inputs", "histories", "fault_sequences"], "all element sizes, capacities, item bytes, append histories (including the pointer-append variant) and allocation failures",
  "The tests append a handful of items of one size without an allocation failure; the claim is over every element size, capacity, growth point and history.",
  ["src/vector.c", "include/vector.h"], [("vector_new", "src/vector.c"), ("vector_append", "src/vector.c"), ("vector_append_ptr", "src/vector.c"), ("vector_get", "src/vector.c"), ("vector_free", "src/vector.c")])
p("M02", "Reversing a vector is an exact reversal",
  "After a successful reverse, the element at position i is byte for byte the one that was at position count-1-i, for every count (odd, even, zero) and every element size. Count and capacity are unchanged and nothing outside the stored elements changes.",
  ["inputs"], "all counts, element sizes and contents",
  "The test reverses one short vector of one element size.",
  ["src/vector.c"], [("vector_reverse", "src/vector.c"), ("vector_get", "src/vector.c")])
p("M03", "A sparse array is a bounded map from index to value",
  "Getting an index of a sparse array returns the bytes and length of the last value successfully set at that index, and nothing for an index never set. "
  "Setting one index changes no other index, and setting or getting an index at or past the maximum, or a value larger than the element size, is refused without any effect.",
  ["inputs", "histories"], "all maxima, indices (within and across the internal groups), value sizes up to the element size and histories of sets",
  "The tests set a few consecutive indices; the compaction arithmetic (bit counting, element shifting) depends on every pattern of occupied slots.",
  ["src/simple_sparsehash.c"], [("sparse_array_init", "src/simple_sparsehash.c"), ("sparse_array_set", "src/simple_sparsehash.c"), ("sparse_array_get", "src/simple_sparsehash.c"), ("sparse_array_free", "src/simple_sparsehash.c")])
p("M04", "A dictionary returns the last value stored under each key",
  "After any history of insertions and overwrites, through any number of table growths and hash collisions, looking up a key returns exactly the bytes and length of the last value stored under that same key, and a key never stored is reported absent. "
  "Keys are compared by length and bytes (embedded zero bytes included), and the dictionary keeps its own copies of keys and values.",
  ["inputs", "histories"], "all sets of keys and values, including keys that collide or are prefixes of each other, and insertion counts beyond several growths",
  "The tests store some string keys; colliding probe chains, the growth threshold and binary keys depend on inputs no sample covers.",
  ["src/simple_sparsehash.c"], [("sparse_dict_set", "src/simple_sparsehash.c"), ("sparse_dict_get", "src/simple_sparsehash.c"), ("probe sequence", "src/simple_sparsehash.c:QUADRATIC_PROBE"), ("growth", "src/simple_sparsehash.c:_rehash_and_grow_table"), ("sparse_dict_free", "src/simple_sparsehash.c")])
p("M05", "The public string hash is 64-bit FNV-1a in upper-case hexadecimal",
  "For every byte string of every length the public hash function writes the 64-bit FNV-1a hash of exactly those bytes as upper-case hexadecimal without leading zeroes, terminated, within the 65-byte output buffer.",
  ["inputs"], "all byte strings (all byte values, all lengths including zero and beyond 255)",
  "The tests compare a few literal strings.",
  ["src/utils.c"], [("hash_string_fnv1a", "src/utils.c")])
p("M06", "The request line and header block are parsed exactly",
  "A request is accepted exactly when a space ends the method within the first 1024 bytes, a second space ends the resource within 512 bytes, and a blank line (CR LF CR LF) ends the header block within the received bytes; otherwise it is rejected. "
  "When accepted, the method is the bytes before the first space (cut to 15), the resource is exactly the bytes between the two spaces, and the header block is exactly the received bytes up to and including the first blank line. "
  "Nothing outside the received bytes and the zero byte behind them is read and no field is overrun.",
  ["inputs"], "all received byte sequences whose header block has no zero byte",
  "The tests parse two well-formed requests; overlong methods and resources, blank lines at the edge of the data and missing delimiters are not sampled.",
  ["src/parse.c"], [("m38_parse_request", "src/parse.c"), ("strnstr", "src/utils.c")])
p("M07", "The request body is exactly the received bytes, capped by Content-Length",
  "When a body is taken from the received data it consists of exactly the first min(Content-Length, received) bytes following the header block, whatever byte values they have, and its recorded length says so; one terminating zero byte follows it. "
  "Body bytes that arrive without a positive Content-Length cause the request to be rejected.",
  ["inputs"], "all body bytes, Content-Length values and received lengths",
  "The tests use one textual body whose length equals its Content-Length.",
  ["src/parse.c"], [("m38_parse_body", "src/parse.c")])
p("M08", "Header lookup finds the named header at a line start and nothing else",
  "Looking up a header returns a fresh copy of the value of the first line that starts with exactly that name followed by a colon: the bytes after the colon and any spaces or tabs, up to the line's CR LF, empty values included. "
  "If no line does so the result is nothing; the name occurring inside another name or inside a value is never taken for the header.",
  ["inputs"], "all header blocks and names (names without CR, LF or colon, not empty)",
  "The tests look up one header in one request; names that are suffixes of other names or occur in values, and edges of the block, are not sampled.",
  ["src/parse.c", "src/utils.c"], [("m38_get_header_value_raw", "src/parse.c"), ("m38_get_header_value_request", "src/parse.c"), ("strnstr", "src/utils.c")])
p("M09", "Range headers are read as the numbers they spell",
  "A range of the form 'bytes=A-B' with A<=B is read as offset A and limit B, 'bytes=A-' and ranges with B<A as offset A with no limit (0). Anything that does not start with 'bytes=' or has no '-' after it is read as offset 0 with no limit.",
  ["inputs"], "all strings; numbers are the decimal values that fit a 63-bit integer",
  "The tests use three literal ranges.",
  ["src/parse.c"], [("m38_parse_range_header", "src/parse.c")])
p("M10", "URL decoding is exact and rejects malformed escapes",
  "Decoding turns every '+' into a space and every '%' followed by two hexadecimal digits into the byte they denote, copies every other byte, terminates the output, and returns the number of bytes written including the terminator. "
  "A '%' that two hexadecimal digits do not follow makes it return -1; it never writes more bytes than the input has including its terminator, and never reads past the input's terminator.",
  ["inputs"], "all terminated byte strings",
  "The tests decode one or two strings; escapes at the very end and every hex digit combination are not sampled.",
  ["src/utils.c"], [("m38_url_decode", "src/utils.c")])
p("M11", "Form bodies become a dictionary of decoded values, last one winning",
  "Parsing a form-encoded body splits it at '&' and each part at '=', and for each part with a name and a value stores the URL-decoded value under the name, so that a lookup gives the value of the last such part with a non-malformed value. "
  "Parts without '=' and values with malformed escapes are skipped without affecting the others, and the request's body itself is left as it was received.",
  ["inputs", "histories"], "all bodies (without zero bytes), any number of fields",
  "The tests parse one body with a few fields.",
  ["src/parse.c", "src/utils.c", "src/simple_sparsehash.c"], [("m38_parse_form_encoded_body", "src/parse.c"), ("m38_url_decode", "src/utils.c"), ("sparse_dict_set", "src/simple_sparsehash.c")])
p("M12", "Cookie lookup returns the value of exactly the named cookie",
  "Looking up a cookie returns a fresh copy of the value of the first name=value pair whose name is exactly the requested one, pairs being separated by ';' or spaces; the value reaches from the '=' to the next separator or the end of the string. "
  "A cookie whose name merely contains, starts with or ends with the requested name is never returned, and if there is none the result is nothing.",
  ["inputs"], "all cookie strings, lengths and names",
  "The tests look up one cookie in two strings.",
  ["src/utils.c"], [("m38_get_cookie_value", "src/utils.c")])
p("M13", "Bounded substring search and suffix test are exact",
  "The bounded search returns the first position at which the needle occurs entirely within the first n bytes (and before the terminator) of the text, the text itself for an empty needle, and nothing if there is no such position. "
  "The suffix test is true exactly when the string ends with the suffix. Neither reads outside its strings.",
  ["inputs"], "all strings, needles and bounds",
  "The tests try a few literals; matches at the very end and partial overlapping matches are not covered.",
  ["src/utils.c"], [("strnstr", "src/utils.c"), ("endswith", "src/utils.c")])
p("M14", "A complete response carries the right status, headers, length and body",
  "For every handler outcome with a supported status other than 206, the response is the status line and headers for exactly that status with the response's content type (text/html when none is set) and a Content-Length equal to the body size, then every custom header in insertion order as 'Name: value', then the server header and a blank line, then exactly the body bytes. "
  "The recorded response length is exactly the size of all of that.",
  ["inputs", "histories"], "all status codes in the supported set, body sizes and bytes, content types and sequences of custom headers",
  "The unit tests never build a response, and the few end-to-end requests sample single bodies and no digit-count boundaries of the length.",
  ["src/grengine.c"], [("m38_generate_response", "src/grengine.c"), ("response headers", "src/grengine.c:response_headers"), ("custom headers", "src/grengine.c:_clean_up_extra_headers")])
p("M15", "A range request is answered with exactly the requested slice",
  "When a request has a Range header and its handler answers 200 with a non-empty body, the response is a 206 whose body is exactly the bytes from the range's offset to its limit inclusive, cut to the body's last byte; a missing limit means the last byte and an offset past the end means the first byte. "
  "Content-Length is the number of bytes carried and Content-Range names exactly the first byte, last byte and full size; any other status or an empty body is answered in full as if there were no Range header.",
  ["inputs"], "all body sizes and bytes and all ranges whose effective limit is not below the offset",
  "One end-to-end test reads one range of one file.",
  ["src/grengine.c", "src/parse.c"], [("m38_generate_response", "src/grengine.c"), ("m38_parse_range_header", "src/parse.c")])
p("M16", "Sending delivers every byte once, in order, whatever the socket accepts",
  "Repeated sending of a prepared response passes to the socket exactly the response's bytes, each once and in order, however few bytes each send accepts. "
  "When the last byte is accepted or a send fails, and only then, the handler's cleanup runs once with the status of the response, the connection is closed once and everything the response owns is released.",
  ["inputs", "fault_sequences", "histories"], "all response lengths, sequences of partial sends and failure points",
  "The tests only ever see sends that accept everything on the loopback interface.",
  ["src/grengine.c"], [("m38_send_response", "src/grengine.c"), ("_clean_up_extra_headers", "src/grengine.c")])
p("M17", "The first matching route handles the request, otherwise the 404 handler does",
  "The handler called is that of the first route in registration order whose method equals the request's and whose pattern matches its path, and it gets the captured groups. If no route matches, or a handler answers 404 without a body, the application's own 404 handler if set and otherwise the built-in one produces the response; no other handler runs.",
  ["inputs", "configurations"], "all route tables and requests, for applications that have a 404 handler if they have a 404 cleanup",
  "The end-to-end tests use one fixed route table with few overlaps.",
  ["src/grengine.c", "src/server.c"], [("m38_generate_response", "src/grengine.c"), ("r_404_handler", "src/grengine.c")])
p("M18", "Reading a request keeps every received byte in order",
  "The bytes collected from a socket are exactly those the socket delivered, in order and without gaps, the count says how many, at least one zero byte follows them in the buffer, and the buffer always has room for what each receive asks for. "
  "A failed receive is reported as a failure and never counted as data.",
  ["inputs", "fault_sequences"], "all sequences of receive results, including full reads, short reads, end of stream and errors",
  "The tests send requests that arrive in one short read.",
  ["src/grengine.c"], [("read_max_bytes_from_socket", "src/grengine.c"), ("attempt_reread_from_socket", "src/grengine.c")])
p("M19", "Static files are served whole, with the type their extension implies",
  "Serving a readable non-empty file answers 200 with exactly the file's bytes and size and, unless the handler chose one, the content type for the extension (text/html without an extension, application/octet-stream for an unknown one). "
  "A missing or unreadable file is answered 404 with an error page; the descriptor is always closed and the standard cleanup releases the mapping and bookkeeping exactly once and only for successful statuses.",
  ["inputs", "fault_sequences"], "all paths, extensions, file sizes and failures of the file system calls",
  "The tests fetch one file; path lengths around the extension window and failing system calls are not sampled.",
  ["src/grengine.c"], [("m38_mmap_file", "src/grengine.c:mmap_file_ol"), ("content types", "src/grengine.c:guess_mimetype"), ("m38_mmap_cleanup", "src/grengine.c"), ("m38_heap_cleanup", "src/grengine.c")])
p("M20", "Custom headers are stored as private copies, or not at all",
  "Adding a custom header reports success and appends one entry holding private copies of the first header_len bytes of the name and value_len bytes of the value, keeping all earlier entries; on any failure (missing argument, out of memory) it reports failure, appends nothing and leaks nothing.",
  ["inputs", "fault_sequences"], "all names, values and lengths, and failures of every allocation",
  "The tests add one header and never fail an allocation.",
  ["src/grengine.c", "src/vector.c"], [("m38_insert_custom_header", "src/grengine.c"), ("vector_append_ptr", "src/vector.c")])
p("M21", "Template contexts keep names and values, cut only at the documented limits",
  "A string, number, list or sub-context added to a template context, or a string, number or sub-context added to a list, is found again under its name (names cut to 31 bytes) with exactly the given value (strings cut to 512 bytes), after everything added before it. "
  "Lookup by name returns the first item with exactly that name in the innermost context that has one, parents included, and nothing if none has it.",
  ["inputs", "histories"], "all names, values, orders of addition and chains of parents",
  "The tests add short names and values; the cut-off lengths, prefixes and shadowing are not sampled.",
  ["src/greshunkel.c"], [("gshkl_add_string", "src/greshunkel.c"), ("gshkl_add_int", "src/greshunkel.c"), ("gshkl_add_array", "src/greshunkel.c"), ("gshkl_add_sub_context", "src/greshunkel.c"), ("lookup", "src/greshunkel.c:find_needle")])
p("M22", "Template variables are replaced by their values and nothing else changes",
  "In a rendered line every '@name' and '@name.item' variable tag is replaced by exactly the value of the variable of that name, or of the item of that name in the named sub-context, and all other bytes of the line are kept in place, whatever the number of tags and the lengths of values.",
  ["inputs"], "all lines and contexts that define the variables used, with values that contain no template tags themselves",
  "The tests render a few fixed templates.",
  ["src/greshunkel.c"], [("_interpolate_line", "src/greshunkel.c"), ("_interpolate_line_subcontext", "src/greshunkel.c"), ("splice", "src/greshunkel.c:vishnu"), ("match", "src/greshunkel.c:regexec_2_0_beta")])
p("M23", "Conditional blocks are kept exactly when their variable says so",
  "The body of an 'UNLESS @x' block is rendered exactly when x is absent or falsey, and that of an 'UNLESS NOT @x' block exactly when x is present and truthy; the block's tags never appear in the output and the text after its closest end tag is rendered normally. "
  "A value is falsey exactly when it is an empty string, the string FALSE, or an empty list, and truthy otherwise.",
  ["inputs"], "all templates with such blocks, and all variable values (plain variables)",
  "The tests use a few values; strings beginning with FALSE, empty strings and empty bodies are not sampled.",
  ["src/greshunkel.c"], [("_interpolate_conditionals", "src/greshunkel.c"), ("_is_truthy", "src/greshunkel.c"), ("_is_falsey", "src/greshunkel.c")])
p("M24", "Loop blocks render their body once per list element, in order",
  "A LOOP block is replaced by the renderings of its body with the loop variable bound to each element of the list in order, strings or sub-contexts alike, and by nothing for an empty list; outer variables stay visible inside. "
  "The body ends at the closest end tag, the text after it is rendered normally, and rendering leaves the list usable for further renderings.",
  ["inputs", "histories"], "all templates with (unnested) loops, and all list lengths and contents",
  "The tests render lists of a few elements once.",
  ["src/greshunkel.c"], [("_interpolate_loop", "src/greshunkel.c")])
p("M25", "Rendering keeps all literal text and reports the output's exact size",
  "A rendered template is the concatenation, in order, of its rendered lines and blocks: literal text, including line ends of every kind, appears in the output unchanged, unduplicated and in order. "
  "White space directly in front of a block tag goes with the tag, and a line that starts with an include tag is replaced by the rendering of that file. "
  "The result is terminated and the reported size is the number of rendered bytes without the line end of a last plain line; an empty template renders to an empty string.",
  ["inputs"], "all templates and contexts that define what the template uses",
  "The tests compare a handful of fixed outputs.",
  ["src/greshunkel.c"], [("gshkl_render", "src/greshunkel.c"), ("read_line", "src/greshunkel.c")])
p("M26", "Template filters get exactly their argument and their result replaces the tag",
  "Each filter tag calls the filter registered under that name (innermost context first) once with exactly the text between the filter's name and the closing tag, or no argument if there is none, and the tag is replaced by exactly the returned string. The filter's clean-up, when set, is called exactly once with that result after it has been copied.",
  ["inputs", "histories"], "all lines with filter tags, all registered filters with results that contain no tags",
  "The tests apply a few filters to fixed arguments.",
  ["src/greshunkel.c"], [("_filter_line", "src/greshunkel.c"), ("gshkl_add_filter", "src/greshunkel.c")])
p("M27", "Every accepted connection is answered or closed, and nothing it used leaks",
  "Handling a connection ends in exactly one of two ways: a prepared response that owns the connection, or, when the request cannot be read or parsed, the connection closed once and no response. "
  "In both cases everything allocated for the request (buffers, header block, body, form fields, header values) has been released exactly once, and no released memory is used afterwards.",
  ["inputs", "fault_sequences"], "all received data, including malformed requests and receive errors, and all handler outcomes",
  "Leaks, double releases and use after release are invisible to the tests.",
  ["src/grengine.c", "src/parse.c"], [("m38_generate_response", "src/grengine.c"), ("m38_send_response", "src/grengine.c"), ("m38_parse_form_encoded_body", "src/parse.c")])
p("M28", "Custom 404 handler and cleanup can be set in any order",
  "Setting the 404 handler and the 404 cleanup of an application, in any order and any number of times, leaves the application with the last handler and the last cleanup set; setting one never changes the other, the call reports success and no other part of the application changes.",
  ["inputs", "histories"], "all sequences of the two calls on any application",
  "The test application sets them once in one order.",
  ["src/server.c"], [("m38_set_404_handler", "src/server.c"), ("m38_set_404_cleanup", "src/server.c")])
p("M29", "Template contexts release everything they own exactly once",
  "Freeing a template context releases the context, its variables, its lists and the sub-contexts reachable from them exactly once and nothing else; in particular parents and contexts owned elsewhere stay usable.",
  ["inputs", "histories"], "all trees of contexts, lists and sub-contexts",
  "Leaks and double frees are invisible to the tests.",
  ["src/greshunkel.c"], [("gshkl_free_context", "src/greshunkel.c"), ("_gshkl_free_arr", "src/greshunkel.c")])
p("M30", "Every accepted connection is eventually answered or closed by the threads",
  "While the server runs, every accepted connection is eventually handled by one worker and its response is eventually sent by the responder, whatever the interleaving of the threads and the occupancy of the queues.",
  ["schedules"], "all interleavings of acceptor, workers and responder and all queue occupancies",
  "The tests observe a single schedule under light load.",
  ["src/server.c"], [("acceptor", "src/server.c"), ("handler", "src/server.c"), ("responder", "src/server.c")])
p("M31", "Threads share no unsynchronised mutable data",
  "No two threads of the server access the same memory without synchronisation when one of them writes it; in particular the arguments given to worker threads stay valid for as long as they are used.",
  ["schedules"], "all interleavings of the server's threads",
  "A data race need not show in any test run.",
  ["src/server.c"], [("m38_http_serve", "src/server.c"), ("handler", "src/server.c")])
for x in P: assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
