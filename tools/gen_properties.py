#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Incoming native messages are split exactly at their announced boundaries",
 "Each incoming native message is a 32-bit native-endian length followed by that many payload bytes; however the stream is cut into reads, the consumer of a message gets exactly its payload bytes, unchanged and in order, then end of data, and never a byte of the following message. Reading then continues with the next message at its own boundary, also when only insignificant JSON white space at the end of the previous message was left unread; any other unread rest of a message is reported as an error, never taken for the next message.",
 ["inputs","schedules"], "all payloads, payload lengths and orders of messages, all ways the reads are fragmented, all amounts the consumer reads",
 "Tests use four short requests over an in-memory pipe whose writes are never fragmented; lengths where a decoder buffer ends exactly at the end of a JSON value are never hit.",
 ["pkg/webextensions/frame.go","pkg/webextensions/server.go","pkg/webextensions/client.go"],
 [("FrameLimitedReader.ReadHeader","pkg/webextensions/frame.go"),("io.LimitedReader embedding","pkg/webextensions/frame.go")],
 ["bytes delivered by the frame reader","error of the next header read"])

prop("C02", "Outgoing native messages carry their exact length and nothing else",
 "Each message that is sent appears on the output as its 32-bit native-endian length followed by exactly the bytes of that message, in the order the messages were completed, whatever pieces the message was produced in. When sending fails (write error, short write, or a value that cannot be encoded) the error is reported, and bytes of a failed or discarded message never appear inside a later message.",
 ["inputs","fault_sequences","histories"], "all payloads and ways to produce them in pieces, sequences of messages, and write failures at any write",
 "Tests never make the output fail and only send small messages produced in a single write.",
 ["pkg/webextensions/frame.go","pkg/webextensions/server.go","pkg/webextensions/client.go"],
 [("FrameBufferedWriter.WriteFrame","pkg/webextensions/frame.go"),("serverCodec.WriteResponse / clientCodec.WriteRequest","pkg/webextensions/server.go")],
 ["bytes written to the output stream","returned error"])

prop("C03", "Oversized and truncated incoming messages are rejected",
 "A message announcing more than 1 GiB is refused with the documented too-large error before any of its payload is consumed, and every announced length from 0 up to and including 1 GiB is accepted with exactly that length. A stream that ends inside the length or inside the payload yields an end-of-stream error; clean end of input between messages is reported as plain end of file. A failure of reading is reported wherever it happens and never taken for a clean end.",
 ["inputs","crash_points"], "all 2^32 header values, and streams that end or fail at every byte",
 "No test feeds a malformed or truncated stream or a header beyond a few dozen bytes.",
 ["pkg/webextensions/frame.go"],
 [("MaxInSize comparison","pkg/webextensions/frame.go"),("binary.Read of the header","pkg/webextensions/frame.go")],
 ["error of the header read","number of bytes made available"])

prop("C04", "Only the published method names reach the backend",
 "A request reaches a backend method only if its method name is exactly one of the published names, and then it reaches exactly the method published under that name (hello, capture, visit, urlMentions and linkSet under their burl. and linkremark. prefixes, hello and capture also bare). Any other name, including the internal name of an existing method, is answered as an unknown method without running any backend method and without breaking the connection.",
 ["inputs"], "all method names",
 "There is no test of the name mapping or of the backend executable.",
 ["pkg/webextensions/server.go","cmd/burl_backend/burl_backend.go"],
 [("MappedServerCodec.ReadRequestHeader","pkg/webextensions/server.go"),("methodMap","cmd/burl_backend/burl_backend.go")],
 ["service method seen by the RPC server after the header is decoded"])

prop("C05", "Visit opens only configured files, at the requested line",
 "A visit request makes Emacs open a file only if the requested path is identical to the path of one of the configured source files; every other path is refused before any external program runs. The file is opened without waiting, at the requested line when it is positive and without a line otherwise, the path being passed as one final argument; failures of Emacs are reported as errors and success is reported only if Emacs succeeded.",
 ["inputs","configurations","fault_sequences"], "all requested paths and line numbers, all lists of source files, all outcomes of the emacsclient runs",
 "The backend commands have no tests at all; emacsclient is not available to tests.",
 ["cmd/burl_backend/burl_backend.go","pkg/burl_emacs/emacs.go"],
 [("BurlBackend.Visit allow-list","cmd/burl_backend/burl_backend.go"),("VisitFile","pkg/burl_emacs/emacs.go")],
 ["argument vectors of started processes","reply"])

prop("C06", "Capture passes only org-protocol URIs to Emacs",
 "A capture request runs Emacs only when its format is org-protocol, it carries no error and its URL begins with the org-protocol: scheme; then the URL is handed to emacsclient unchanged as the last argument, after org-protocol was confirmed to be loaded and a frame was ensured. A capture that carries an error is answered as a preview without running anything, and success is reported only if every Emacs step succeeded.",
 ["inputs","fault_sequences"], "all formats, URLs and error fields, all outcomes of the emacsclient runs",
 "The capture path has no tests.",
 ["cmd/burl_backend/burl_backend.go","pkg/burl_emacs/emacs.go"],
 [("BurlBackend.Capture","cmd/burl_backend/burl_backend.go"),("OrgProtocol","pkg/burl_emacs/emacs.go")],
 ["argument vectors of started processes","reply"])

prop("C07", "Emacs runs of concurrent requests never mix their arguments",
 "Every emacsclient run gets the user-configured extra arguments, then the built-in ones, then exactly the arguments of its own request, whatever other capture or visit requests are processed at the same time. No request changes the configured arguments.",
 ["schedules","inputs"], "all interleavings of two concurrent Emacs invocations at the granularity of memory accesses (bounded number of preemptions), all argument values, 0 to 4 user arguments",
 "No test runs the Emacs code, and a race between slices sharing spare capacity needs a particular interleaving.",
 ["pkg/burl_emacs/emacs.go","cmd/burl_backend/burl_backend.go"],
 [("execEmacs argument assembly","pkg/burl_emacs/emacs.go")],
 ["argument vectors of started processes"])

prop("C08", "Hello offers exactly what the backend can do",
 "Hello answers with the org-protocol format and the version of the first org-protocol format offered by the extension, and fails if none is offered or that version is empty. It advertises visit and urlMentions if and only if source files are configured, and linkSet if and only if in addition link sets are not disabled; a disabled linkSet request is refused.",
 ["inputs","configurations"], "all lists of offered formats, all configurations",
 "The negotiation has no tests.",
 ["cmd/burl_backend/burl_backend.go"],
 [("BurlBackend.Hello","cmd/burl_backend/burl_backend.go"),("NewBurlBackendPtr","cmd/burl_backend/burl_backend.go")],
 ["reply of hello","reply of linkSet"])

prop("C09", "URL lookup counts and lists exactly the matching links",
 "For every tree of notes the lookup reports at each file, heading and body the number of its links accepted by the query (links to any of the queried URLs or to an equivalent one), keeps a node only if it contains an accepted link, and keeps files, headings, bodies and links in source order with URL, description and line unchanged. When the number of accepted links does not exceed the requested limit, every accepted link is listed, except repetitions of a URL inside one body, of which the first is listed.",
 ["inputs"], "all shapes of note trees and all subsets of matching links within the size bound",
 "There is no test of the counting tree.",
 ["pkg/burl_links/node_count.go","pkg/burl_links/link_tree.go"],
 [("CountDescendants","pkg/burl_links/node_count.go"),("FilterChildrenCount","pkg/burl_links/node_count.go"),("TreeLeafNode.Clone / LimitChildrenCount","pkg/burl_links/link_tree.go")],
 ["tree returned for a lookup"])

prop("C10", "The lookup limit bounds the reply and never breaks it",
 "For every integer limit, also zero, negative or huge, a lookup completes without crashing and lists at most max(0, limit) links; at every node the reported filtered number equals the number of links listed below it and does not exceed the reported total. Every file, heading or body that is kept lists at least one link, and when there are more files or subheadings with matches than places, those with more matches are preferred.",
 ["inputs"], "all 64-bit limits, all trees within the size bound, all match counts",
 "No test calls the limiting code; overflow and negative limits need unusual requests.",
 ["pkg/burl_links/link_tree.go","pkg/burl_links/node_count.go","cmd/burl_backend/burl_backend.go"],
 [("TreeChildrenNode.LimitChildrenCount","pkg/burl_links/link_tree.go"),("FilterChildrenCount","pkg/burl_links/node_count.go")],
 ["tree returned for a lookup"])

prop("C11", "Lookups do not influence each other",
 "The reply to a lookup depends only on the query and on the notes files, not on earlier or concurrent requests: repeating it after any other lookup gives the same reply, and the loaded notes are never altered by a request. The first requests, also when they arrive at the same time, load the notes exactly once and all of them see the completely loaded notes.",
 ["histories","schedules"], "all pairs of successive queries with any limits, all interleavings of two concurrent first queries (bounded preemptions)",
 "Tests never issue lookups, let alone sequences or concurrent ones.",
 ["cmd/burl_backend/burl_backend.go","pkg/burl_links/node_count.go","pkg/burl_links/link_tree.go"],
 [("sync.Once initializer","cmd/burl_backend/burl_backend.go"),("Clone of tree nodes","pkg/burl_links/link_tree.go")],
 ["replies of urlMentions"])

prop("C12", "Every lookup result can be delivered as well-formed JSON",
 "Whatever the headings, nesting (including skipped heading levels) and number of files, the result of a lookup is serialized without a crash to JSON in which every node carries its type, its total and filtered numbers, and its children or links, every heading its text and line, every file its path and every link its URL, line and, if present, description. The group level is left out if exactly one file is reported.",
 ["inputs"], "all trees produced by extraction within the size bound",
 "No test serializes a lookup result.",
 ["pkg/burl_links/node_count.go","pkg/burl_links/link_tree.go"],
 [("LimitCountNode.MarshalJSON / reflectFlatten","pkg/burl_links/node_count.go"),("Link.MarshalJSON","pkg/burl_links/link_tree.go")],
 ["JSON of the reply"])

prop("C13", "linkSet returns exactly the links having a requested prefix",
 "The links returned for a set of prefixes all literally begin with one of the requested prefixes (a prefix without a colon meaning that scheme followed by a colon), each link is returned once, and every bracket, angle or plain Org link, or plain text link, that has such a prefix is returned. Characters of a prefix are never interpreted as a pattern.",
 ["inputs"], "all lines and prefixes within the length bound",
 "Tests cover five fixed lines with alphanumeric prefixes.",
 ["pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go"],
 [("MakeLinkSetBase","pkg/burl_links/extract_org.go"),("OrgLinkSource.ExtractSet / TxtLinkSource.ExtractSet","pkg/burl_links/extract_org.go")],
 ["set of URLs"])

prop("C14", "linkSet refuses malformed requests",
 "A linkSet request is refused with an error and without reading any file's links when it has more than 16 prefixes or when linkSet is disabled, and it is refused when it has no prefix or any prefix is not a URL scheme optionally followed by a colon and further characters on the same line. Every well-formed request of 1 to 16 prefixes is served.",
 ["inputs","configurations"], "all prefix strings within the length bound, all numbers of prefixes",
 "Tests pass only valid prefixes and at most three of them.",
 ["cmd/burl_backend/burl_backend.go","pkg/burl_links/extract_org.go"],
 [("BurlBackend.LinkSet","cmd/burl_backend/burl_backend.go"),("reSetPrefix","pkg/burl_links/extract_org.go")],
 ["error of linkSet","files opened"])

prop("C15", "Org links are attributed to their enclosing headings and lines",
 "Every link extracted from an Org file is reported with the number of the line it is on and under exactly the chain of headings that enclose it: the nearest preceding heading and, going up, each nearest preceding heading of smaller depth, whatever depths are used or skipped. Links before the first heading belong to the file itself, headings without links in their subtree do not appear, and file order is kept.",
 ["inputs"], "all sequences of heading depths and links within the length bound",
 "No test extracts a heading tree.",
 ["pkg/burl_links/extract_org.go","pkg/burl_links/link_tree.go"],
 [("OrgLinkSource.Extract","pkg/burl_links/extract_org.go"),("TreeChildrenNode.AddLink","pkg/burl_links/link_tree.go")],
 ["tree of links of an Org file"])

prop("C16", "Org links are recognized by their configured scheme",
 "From Org text exactly the bracket, angle and plain links whose scheme is one of the configured schemes are extracted, with the complete link target as URL and the bracket description if there is one; a bracket link to anything else, such as a local file or another scheme, is not extracted even if a configured scheme name occurs inside it. This also holds after schemes were added or the default ones were dropped by options, in which case invalid or empty scheme lists are refused and leave the previous configuration in force.",
 ["inputs","configurations"], "all lines within the length bound, default and customized scheme lists",
 "Tests of Org links cover only linkSet; the default extraction pattern and its scheme test are never exercised.",
 ["pkg/burl_links/extract_org.go"],
 [("OrgLinkMatchIsUrl","pkg/burl_links/extract_org.go"),("MakeLinkReStr / reScheme / UpdateRe","pkg/burl_links/extract_org.go")],
 ["links of an Org file"])

prop("C17", "Plain text links are reported with their line and text",
 "Every link extracted from a text file is a literal part of a single word of the line whose number is reported, begins like scheme:, or host.domain, and is neither a bare scheme, a bare word nor a relative path; links appear in file order, and a word that is a complete http or https URL with a dotted host and a path of ordinary characters is extracted unchanged. Extraction terminates for every line content.",
 ["inputs"], "all lines within the length bound",
 "Tests check three fixed strings against the pattern and never the extraction.",
 ["pkg/burl_links/extract_txt.go","pkg/burl_links/urlmatch_txt.go"],
 [("TxtLinkSource.Extract","pkg/burl_links/extract_txt.go"),("MatchIsUrl","pkg/burl_links/urlmatch_txt.go")],
 ["links of a text file"])

prop("C18", "URL equivalence: http/https and redundant tails only",
 "The URLs considered equivalent to a looked-up URL always include the URL itself, and for http: and https: URLs also the same URL with the other of the two schemes; in addition only URLs obtained by cutting from the end any number of the redundant trailing characters (one #, then &s, then one ?, then slashes) are considered, and all of them are. Nothing else is equivalent, and URLs with other schemes keep their scheme.",
 ["inputs"], "all URLs within the length bound",
 "URL equivalence has no tests.",
 ["pkg/burl_url/url.go","cmd/burl_backend/burl_backend.go"],
 [("UrlVariants","pkg/burl_url/url.go"),("RedundantTailVariants","pkg/burl_url/url.go")],
 ["set of variants"])

prop("C19", "Unreadable notes are reported, never silently ignored",
 "If any configured source file cannot be opened or reading it fails at any point, every urlMentions and linkSet request that needs it is answered with an error and never with a partial result; if no files are configured or they contain no link, urlMentions reports that as an error, not as an empty result. Every file that was opened for a request is closed again, except standard input.",
 ["fault_sequences"], "all points at which opening or reading fails, for up to three source files",
 "No test reads files or injects an input failure.",
 ["pkg/burl_links/link_source.go","pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go","cmd/burl_backend/burl_backend.go"],
 [("ExtractLinksFromFileGroup","pkg/burl_links/link_source.go"),("ExtractLinkSetFromFileGroup","pkg/burl_links/link_source.go"),("NewBurlBackendPtr initializer","cmd/burl_backend/burl_backend.go")],
 ["error of the request","open files"])

prop("C20", "Fuzzy distance is the minimal edit distance to any part of the word",
 "The fuzzy distance between a non-empty query and a non-empty word is the minimal number of single-character insertions, deletions, substitutions and swaps of adjacent characters that turn the query into some substring of the word, ignoring letter case (a swapped pair counts as one edit and is not edited further). It is 0 exactly when the word contains the query and never exceeds the query length.",
 ["inputs"], "all pairs of query and word within the length bound",
 "Seven fixed pairs are tested.",
 ["pkg/burl_fuzzy/approsearch.go"],
 [("EditorDistanceRunes","pkg/burl_fuzzy/approsearch.go"),("SearchDistanceDL","pkg/burl_fuzzy/approsearch.go")],
 ["distance"])

prop("C21", "A word matches a query exactly when total distance is within tolerance",
 "A word is accepted for a query of several subqueries if and only if the sum of the fuzzy distances of the subqueries to the word does not exceed the tolerance, and the distance reported for an accepted word is that sum. Acceptance is therefore monotone in the tolerance and does not depend on letter case or on how many bytes a character takes. The subqueries of a search request are separated by white space.",
 ["inputs"], "all queries of up to two words, all words and all tolerances within the bound",
 "Tests never exercise tolerances or multi-word queries.",
 ["pkg/burl_fuzzy/rank.go"],
 [("GetSubqueryDistance","pkg/burl_fuzzy/rank.go"),("QueryDistance","pkg/burl_fuzzy/rank.go")],
 ["acceptance and distance of a word"])

prop("C22", "Search returns the best matches in order",
 "For every stream of candidate URLs the search keeps exactly the best ones up to the limit, ordered by distance, then by length in bytes, then alphabetically (by bytes), and independent of the order in which the candidates arrive; candidates beyond the tolerance never appear. The backend reports them best first and refuses limits outside 1 to 99 and negative tolerances; a limit that is not given is 10 and a tolerance that is not given is 5.",
 ["inputs","histories"], "all sequences of candidates within the bound, all limits",
 "Ranking has no tests.",
 ["pkg/burl_fuzzy/rank.go","cmd/burl_backend/burl_backend.go"],
 [("WeightedStringHeap.Add","pkg/burl_fuzzy/rank.go"),("ProcessUrlSource","pkg/burl_fuzzy/rank.go"),("BurlBackend.Search","cmd/burl_backend/burl_backend.go")],
 ["ranked list"])

prop("C23", "Installing never damages an existing file",
 "Writing a wrapper or manifest either leaves the target path as it was or replaces it in one step with the complete new content and mode; an interruption or failure at any point never leaves a partial target, and after a reported failure no temporary file remains unless its removal failed too. Without force an existing file with different content is never changed; success is reported only if the target then has exactly the requested content and is readable and, when a program was requested, executable for its owner. If no call fails and force is given, or the target does not exist or already has that content, writing succeeds; a target that is a symbolic link does not weaken any of this; the path - means standard output.",
 ["crash_points","fault_sequences","inputs"], "all contents and modes of the existing and the new file, failure of each file system call, interruption between any two calls",
 "No test writes files or makes a file system call fail.",
 ["pkg/burl_fileutil/fileutil.go"],
 [("WriteFile","pkg/burl_fileutil/fileutil.go")],
 ["content and mode of the target path after every file system call","returned error"])

prop("C24", "A generated manifest is valid for the browser",
 "A manifest is only written if its name is not empty and equals the base name of its .json file, the program path in it is absolute, its type is stdio, and exactly one of the lists of allowed Firefox extensions and Chrome origins is not empty; otherwise an error is reported. A requested name is always enforced, and if a directory is given the file is placed in it under the requested or default name.",
 ["inputs","configurations"], "all combinations of names, file paths, existing files or directories and lists of allowed extensions within the bound",
 "Manifest generation has no tests.",
 ["pkg/webextensions/manifest.go","pkg/burl_fileutil/fileutil.go","cmd/burl_backend/install.go"],
 [("Manifest.Init","pkg/webextensions/manifest.go"),("AsAbsFileName","pkg/burl_fileutil/fileutil.go")],
 ["manifest fields","error"])

prop("C25", "The wrapper starts the backend with exactly the requested options",
 "A generated wrapper runs the backend with options that configure it exactly as the options given when the wrapper was generated: log destination, disabled link sets, schemes, Emacs command and arguments, and all source files with their types and order, with file names made absolute. Each option value is passed through the shell quoting exactly once and as a single word, and a quoting failure prevents the wrapper from being written.",
 ["configurations","inputs","fault_sequences"], "all option combinations and values within the bound, failure of any quoting step",
 "Option handling and the wrapper have no tests.",
 ["cmd/burl_backend/args.go","cmd/burl_backend/install.go","pkg/burl_util/multistring_flag.go","pkg/burl_links/flag.go"],
 [("BurlBackendArgs.AsShellCommand","cmd/burl_backend/args.go"),("FixPaths","cmd/burl_backend/args.go"),("processInstallFlags","cmd/burl_backend/install.go")],
 ["content of the generated wrapper"])

prop("C26", "Installation wires manifest, wrapper and backend consistently",
 "A generated manifest names the wrapper if one is requested and otherwise the backend executable, and lists exactly the default and added extension identifiers, Chrome ones in chrome-extension form. Inconsistent requests (several outputs to standard output, a manifest for a wrapper on standard output, custom options without a wrapper, a wrapper overwriting the backend with custom options) are refused before anything is written, and without a wrapper or manifest option nothing is written and the backend starts normally. Success is reported only if everything requested has been written, whatever operation of the system fails. Paths, names and identifiers appear in a manifest unchanged; if they are not UTF-8, so JSON cannot hold them, an error is reported.",
 ["configurations","inputs"], "all combinations of wrapper, Firefox and Chrome manifest destinations with default or custom options",
 "The install flow has no tests.",
 ["cmd/burl_backend/install.go","cmd/burl_backend/args.go"],
 [("processInstallFlags","cmd/burl_backend/install.go"),("writeManifest","cmd/burl_backend/install.go")],
 ["files written","standard output","error"])

prop("C27", "Repeatable options accumulate, reset and round-trip",
 "A repeatable option appends each value to the defaults, an empty value drops the defaults and everything so far, and an empty value after appending to the defaults is refused without changing anything. The list of modifications it reports is empty if it was never used, and giving those modifications to a fresh option with the same defaults always yields the same values.",
 ["histories","inputs"], "all sequences of up to five settings with any values, any defaults",
 "The option type has no tests.",
 ["pkg/burl_util/multistring_flag.go"],
 [("MultiStringFlag.Set","pkg/burl_util/multistring_flag.go"),("ModifiedValues","pkg/burl_util/multistring_flag.go")],
 ["values after parsing"])

prop("C28", "Source files keep their declared type, name and order",
 "Files given with the text and Org options are read as text and as Org respectively whatever their names are, files given as plain arguments are read as Org if and only if their name ends in .org, and the order given on the command line is kept. Making a name absolute never changes the type, and the options are available in the flag set they were added to.",
 ["configurations","inputs"], "all names and sequences of source options within the bound",
 "Option handling has no tests.",
 ["pkg/burl_links/flag.go","pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go"],
 [("AddSourceFlags","pkg/burl_links/flag.go"),("AddSourceArgs","pkg/burl_links/flag.go"),("Clone / Flag","pkg/burl_links/extract_org.go")],
 ["list of sources"])

prop("C29", "The command line lookup tool lists only links to the queried URL",
 "The lookup tool given a URL prints only links equivalent to that URL, with the same counting and limiting as the backend, and given link prefixes it prints exactly the links having one of them, each once. A file that cannot be read and results that cannot be printed are reported on standard error with a failure status.",
 ["inputs"], "all queried URLs and small files within the bound",
 "The tool has no tests.",
 ["cmd/burl_tool/burl_tool.go"],
 [("mainWithGracefulShutdown","cmd/burl_tool/burl_tool.go")],
 ["standard output"])

prop("C30", "Shell quoting of wrapper arguments survives /bin/sh",
 "Every option value, whatever characters it contains, is quoted for the wrapper so that a POSIX /bin/sh passes it on unchanged as a single word, whatever stands before and after it; a value that no program can get (with a zero byte) is refused.",
 ["inputs"], "all option values",
 "No test runs the quoting.",
 ["pkg/burl_fileutil/escape_printf.go"],
 [("EscapeShellArg","pkg/burl_fileutil/escape_printf.go")],
 ["words the shell makes of the quoted text"])

prop("C31", "A wrapper whose backend vanished answers with a valid native message",
 "If the backend executable no longer exists or may not be executed when the wrapper is started, the wrapper script runs nothing and answers the browser with exactly one native message: the announced length is the number of bytes that follow, whatever the length and characters of the path and whether the shell counts bytes or characters, and they are a JSON object whose error names the missing file (quotes, backslashes and control characters may be replaced).",
 ["inputs"], "all paths of the backend: ordinary, special and non-ASCII characters, all lengths around multiples of 256 bytes of the message",
 "No test runs the wrapper.",
 ["cmd/burl_backend/install.go"],
 [("shell template of the wrapper","cmd/burl_backend/install.go")],
 ["output of the wrapper"])

prop("C32", "Standard output carries only native messages",
 "While requests are served, standard output carries the replies and nothing else: diagnostics and the programs that are started never write to it. Diagnostics go to standard error by default and for the destination -, nowhere for an empty destination, and otherwise they are appended to the named file, keeping what it contained; a log created for that is readable only by its owner. If the log cannot be opened, this is reported and nothing is served.",
 ["configurations","histories","fault_sequences"], "all log destinations, sequences of requests that succeed and fail, failures to open the log",
 "No test runs the backend executable.",
 ["cmd/burl_backend/burl_backend.go","pkg/burl_emacs/emacs.go","pkg/webextensions/server.go"],
 [("mainWithGracefulShutdown","cmd/burl_backend/burl_backend.go"),("log.SetOutput","cmd/burl_backend/burl_backend.go")],
 ["bytes on standard output and standard error","content and mode of the log"])

prop("C33", "No request and no notes crash the backend",
 "Whatever the parameters of a request are (missing or empty objects, any strings and numbers) and whatever bytes the notes contain, every request is answered with a result or an error: handling it does not crash or hang the backend, the result can be encoded as JSON, and later requests are answered as if it had not been made.",
 ["inputs","histories"], "all request parameters and notes within the bound, followed by another request",
 "No test sends unusual requests to the backend or gives it unusual notes.",
 ["cmd/burl_backend/burl_backend.go","pkg/burl_links/link_tree.go","pkg/burl_links/node_count.go","pkg/burl_links/extract_org.go","pkg/burl_links/extract_txt.go"],
 [("methods of BurlBackend","cmd/burl_backend/burl_backend.go")],
 ["replies","crashes"])

prop("C34", "Printing help or the version does nothing else",
 "The backend given -h, -help, -v, -V or -version, alone or among any other options that precede or follow it, prints the help or the version on standard output, exits successfully and does nothing else: it reads, writes, starts and serves nothing. An unknown option or an invalid value of such an option is reported on standard error with a failure status and nothing else is done; the lookup tool likewise reads nothing when asked for help or given wrong options or no query.",
 ["configurations","inputs"], "all unknown option names and option values within the bound, all combinations with other options",
 "No test runs the executables.",
 ["cmd/burl_backend/burl_backend.go","cmd/burl_tool/burl_tool.go"],
 [("processGeneralFlags","cmd/burl_backend/burl_backend.go"),("mainWithGracefulShutdown","cmd/burl_tool/burl_tool.go")],
 ["standard output and error","exit status","files and processes"])

prop("C35", "A client frames its requests and closes its connection completely",
 "A client codec sends each request as exactly one native message and reads each response from exactly one message; a request that cannot be encoded is reported and no part of it is sent, not even with later requests. Closing closes both directions exactly once even if one of them fails, reports the first failure (reading side before writing side), and reports and drops an unfinished message. A client made for a command starts it exactly once with the given arguments, reports a missing or failed start, does not let the command write to the standard output, and on close always waits for the command and reports its failure.",
 ["inputs","fault_sequences","histories"], "all message contents within the bound, failures of every write, read, close, start and wait",
 "Tests use the client over in-memory pipes without failures only.",
 ["pkg/webextensions/client.go","pkg/webextensions/frame.go"],
 [("NewClientCodecSplit","pkg/webextensions/client.go"),("NewClientCommand / ClientCommand.Close","pkg/webextensions/client.go"),("SplitFrameReadWriteCloser.Close","pkg/webextensions/frame.go")],
 ["bytes sent","calls of Close","errors"])

prop("C36", "The command line client sends exactly the requested query",
 "The command line client starts exactly the backend command that precedes -- and sends it exactly one request: the linkremark method of the named subcommand (hello, capture, mentions, visit, set) with the URLs, prefixes, URI, file and line, or JSON query given after it. It prints exactly the result as JSON on standard output and succeeds only if the call, printing its result, closing the connection and the backend succeeded. Without a backend command or a subcommand nothing is started, wrong subcommands and parameters are never sent, and every failure is reported on standard error with a failure status and without a result.",
 ["inputs","fault_sequences"], "all command lines, results and failures within the bound",
 "The client has no test.",
 ["tools/burl_client/burl_client.go","pkg/webextensions/client.go"],
 [("mainWithGracefulShutdown","tools/burl_client/burl_client.go"),("callUrlMentions / callVisit / callCapture / callSet / callHello","tools/burl_client/burl_client.go")],
 ["messages sent to the backend","standard output and error","exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
