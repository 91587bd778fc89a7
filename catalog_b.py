# Included by catalog.py: the web APIs (harness-w). V8NOTE, EXPL, JSRULE, FC come from catalog_a.py.
WEB = ["src/runtime/bindings/web_api.rs"]


def web(id, title, statement, over, over_text, why, mechanism, observe, rule, oracle, files=WEB, technique=FC, state=()):
    prop(id, title, statement, over, over_text, why, files, mechanism, observe, "w", rule + "; " + JSRULE,
         EXPL + oracle + " " + V8NOTE, js="web.js", technique=technique, state=state)


web("C20", "Headers is a case-insensitive multimap, and every copy is its own",
    "After any history of append, set and delete, Headers gives for each name, in any case, exactly the values it was given: appended ones combined with ', ', Set-Cookie values kept apart for getSetCookie, set ones alone, deleted ones gone. "
    "All iterations (entries, keys, values, forEach, the object itself) show the same, with names in lower case. "
    "Headers made from another Headers, pairs, a Map or a plain object, or held by a Request or Response, start with the same content and are independent of where they came from, and of arrays they handed out.",
    ["inputs", "histories"], "All valid header names and values, ways to initialise, and histories of changes and copies.",
    "Tests set and get a few names; combinations of appended cookies, copies of copies and names such as __proto__ are not tried.",
    [("values by lower-case name", "setup_headers")], ["get, has, getSetCookie and all iterations of every copy"],
    "Non-trivial: at least two steps and three entries or steps in all", "A model: a list of lower-case names with their values. Iteration order is compared sorted by name.")

web("C21", "URLSearchParams keeps a list of pairs that survives its own text",
    "URLSearchParams holds exactly the pairs of what it was made from (a query string by the form-urlencoded rules, with + and percent sequences, an object, any iterable of pairs, another URLSearchParams), in order, and get, getAll, has, append, set, delete, sort and all iterations act on that list as the URL standard says. "
    "toString gives form-urlencoded text that reads back as the same list, for every Unicode text in names and values.",
    ["inputs", "histories"], "All query strings, malformed ones included, all well-formed Unicode names and values, and histories of changes.",
    "Tests read and write a few simple pairs; malformed percent sequences, '+', duplicate names and non-Latin text are not tried.",
    [("list of pairs, parse and serialise", "setup_url_search_params")], ["the list by every accessor, and the text and what it reads back as"],
    "Non-trivial: at least three pairs or steps", "A model of the list, with a form-urlencoded parser written from the standard.")

web("C22", "URL reads every part of a URL, resolves references, and refuses what is none",
    "new URL gives the parts (protocol, user, password, host, port, path, query, fragment, origin) of the absolute http, https, ws or wss URL that it is given, in normal form (scheme and host in lower case, default port left out, dot segments resolved), and its href is that URL and reads back as the same; so it does for other schemes followed by a host and a path, whose hosts and ports stay as they are. "
    "A reference with a base is resolved as RFC 3986 says. What is no URL is a TypeError. "
    "searchParams shows the query, and every change of it is in href, search and nothing else.",
    ["inputs", "histories"], "All such URLs of the characters RFC 3986 allows, references against all bases, changes by searchParams, and malformed texts.",
    "Tests look at a handful of well-formed URLs and two references.",
    [("regular expressions and resolution", "setup_url")], ["every property of the URL object"],
    "Non-trivial: a URL with a user, port, path, query or fragment, a reference that is not empty, at least two changes, a text of at least two characters (by part)",
    "Node's URL, and an RFC 3986 resolver where node itself deviates; an empty '?' or '#' may be kept or dropped. Assigning to parts is not covered (see the known finding).")

web("C23", "btoa and atob are inverse and exact",
    "btoa gives the standard base64 of the bytes its argument's string stands for, whatever bytes, and an error if a character is beyond U+00FF; atob of it gives the same string back, padding or not, and skips ASCII whitespace. "
    "atob refuses with an error whatever is no base64 (foreign characters, misplaced padding, impossible lengths), and never gives wrong bytes silently. Values that are no strings are taken as their strings.",
    ["inputs"], "All byte strings, strings and malformed encodings.", "Tests encode a word or two.",
    [("table driven encoder and decoder", "setup_base64")], ["the string given, or that there was an error"],
    "Non-trivial: more than two bytes, longer than three characters elsewhere", "Node's Buffer, and the standard's forgiving-base64 rules; base64url characters may be accepted.")

web("C24", "structuredClone gives an equal, wholly separate graph, or refuses",
    "structuredClone of any value made of primitives, boxed primitives, dates, patterns, arrays (with holes and extra properties), plain objects, Maps, Sets, errors, buffers and views gives a graph of the same shape: equal leaves and types, the same sharing and cycles, views of the same bounds on one common buffer. "
    "Nothing mutable is shared with the original. Functions and symbols anywhere in it are a DataCloneError.",
    ["inputs"], "All graphs of those values, cyclic and shared ones included.", "Tests clone a few small trees and one cycle.",
    [("recursive clone with a map of what was seen", "setup_structured_clone")], ["a walk over both graphs side by side"],
    "Non-trivial: a graph of more than two nodes", "The generated graph itself is the oracle: both graphs are walked and described in the same way.")

web("C25", "Blob and File hold exactly the bytes of their parts, for good",
    "A Blob or File holds the bytes of its parts (strings as UTF-8, buffers, exactly the viewed part of any view, other blobs) one after the other, as they were when it was made: later writes to the sources or to anything it handed out do not change it. "
    "size, text, arrayBuffer and stream agree on them, slice gives the part that its arguments name (negative, missing and too large ones clamped), and type, name and lastModified are those given.",
    ["inputs", "histories"], "All lists of parts, nested blobs and slices of slices, slice arguments, and writes in between.",
    "Tests read back a string or two.", [("list of byte parts", "setup_blob")], ["size, type, text, arrayBuffer, stream, name, lastModified of every blob made"],
    "Non-trivial: more than one step", "A model: the bytes and the type.")

web("C26", "FormData keeps its entries, and decodes forms exactly as they were sent",
    "FormData keeps a list of entries, strings or Files: append adds at the end, set replaces the first and drops the others of that name, delete drops all; get, getAll, has and all iterations agree, and nothing handed out lets the list be changed. "
    "Request.formData and Response.formData give exactly the entries of a multipart/form-data or urlencoded body, in order: names, file names, types and contents to the byte, whatever contents look like (boundaries, line ends, binary) and however the body is cut into chunks.",
    ["inputs", "histories"], "All histories of changes, and all forms whose contents do not contain the delimiter, with all chunkings.",
    "Tests decode two small forms; contents that resemble the boundary or begin with line ends are not tried.",
    [("list of entries", "setup_form_data"), ("multipart decoder", "setup_request, setup_response")], ["entries by every accessor; the decoded form"],
    "Non-trivial: more than two steps, a part with content, an entry (by part)", "A model of the list, and an encoder of forms written from RFC 7578.")

web("C27", "Bodies of requests and responses give their bytes once, to each clone",
    "A Request or Response made from text, a buffer, exactly the viewed part of a view, a Blob, URLSearchParams, a stream or nothing gives exactly those bytes, as they were then, through text, json, arrayBuffer or its stream: once; a second read is a TypeError and bodyUsed says so. "
    "A clone, also of a clone, gives the same bytes independently of when and whether the other is read, has its own headers, and is refused once the body was used. "
    "Status, ok, method, url and headers are those given; Response.json, redirect and error are as the Fetch standard says.",
    ["inputs", "histories"], "All kinds of bodies and bytes, and histories of reads, clones, header changes, re-wrapped bodies and writes to the sources.",
    "Tests read each kind of body once; sequences of clones, reads and later writes are not tried.",
    [("body streams", "setup_request, setup_response"), ("tee", "setup_readable_stream")], ["bytes or error of each read, bodyUsed, headers, status, method"],
    "Non-trivial: a body and more than one step (history), every case (fields)", "A model: bytes, used or not, headers.")

web("C28", "An abort signal fires once, for each listener once, with its reason",
    "A signal is aborted by the first abort of its controller, by its timeout, or from the start (AbortSignal.abort), with the reason given, whatever value that is, or an AbortError (TimeoutError) if none; later aborts change nothing. "
    "At that moment every listener that is registered then, function or object, is called exactly once, in the order of registration, with the signal (the object itself) as its this and an abort event of that signal, and onabort once, whether or not it throws; listeners removed, also by an earlier listener, are not called, later ones never, and one that throws stops no other. throwIfAborted throws exactly the reason.",
    ["histories"], "All histories of adding, removing, aborting and looking, with listeners that throw, add, remove or abort.",
    "Tests add one listener and abort.", [("listeners of a signal", "setup_abort_controller")], ["calls and their order, aborted, reason, what throwIfAborted throws"],
    "Non-trivial: an abort and more than three steps", "A model of the signal.", technique="model-based property testing (fast-check)")
