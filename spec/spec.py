"""Source of properties.jsonl and MANIFEST.json: one entry per property. `python3 spec/gen.py` rewrites both files."""
SRV, NODE, ROUTER, EXT, LIM = 'src/server/server.rs', 'src/server/node.rs', 'src/server/router.rs', 'src/server/extend.rs', 'src/server/limit.rs'
TECH = 'abstract interpretation of MIR (all paths to a fixpoint) with dataflow rules per call site'
TRUST = ('Decides every abstract path of the anchored functions from the compiled source, loops by fixpoint or by one generic iteration; '
         'trusts the models of std/crossbeam/chrono/flate2 calls and rustc\'s MIR. ')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, tech=TECH, level='other'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], observe=observe, note=note, tech=tech, level=level))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=a, where=b) for a, b in mech], observe=[], note=None, tech=None, level=None))
    NA.append((id, reason))


prop('P01', 'A request only reaches routes registered for its own method',
     'Every route registered for one of the twelve HTTP methods, directly or through a group, is looked up only for requests with that same method, and '
     'with the handler and the full pattern (group prefix followed by the given pattern) it was registered with. All groups and copies of a server '
     'share one set of routes.',
     ['programs', 'inputs'], 'every registration call, every method, every group',
     'Tests register a handful of GET and POST routes; a swap between two rarely used methods or a lost prefix in one of 24 registration functions passes them.',
     [NODE, ROUTER, SRV], [('one tree per method', 'server::node::Root::{add,fetch}'), ('registration functions', 'server::router::Router'), ('groups', 'server::server::HttpServer::{router,router_wf}')],
     ['the handler that runs for a request'], TRUST + 'Twelve methods are enumerated from the constants in the tree.')
prop('P02', 'Route lookup is sound, complete and extracts the right parameters',
     'A request path finds a route exactly if some registered pattern has the same number of pieces and each piece is literally equal or a parameter; '
     'candidates are tried in registration order and an inner piece without a handler is not a match. The path parameters are exactly the pattern\'s own parameter '
     'names bound to the request\'s pieces at their positions, and nothing from abandoned candidates.',
     ['inputs', 'programs'], 'every route tree and every request path',
     'The tests look up a few paths in a few small trees; backtracking, inner nodes and paths of unequal length are unbounded.',
     [NODE], [('recursive lookup', 'server::node::Node::fetch')], ['the handler and fields handed to a request'],
     TRUST + 'The lookup is decided by induction: one generic level of the recursion, with the recursive call as hypothesis.')
prop('P03', 'Registering a route never changes another route',
     'Registering a pattern makes that pattern, its handler and its extension reachable together, and leaves all other routes as they were; patterns are stored with '
     'their own parameter names. A pattern that does not start with "/" or whose resource is already taken (parameters count as equal whatever their '
     'name) is refused by a panic that changes nothing.',
     ['programs', 'histories'], 'every sequence of registrations',
     'Tests add a few routes in one order; overwriting needs particular combinations of shared prefixes, parameters and order.',
     [NODE], [('insertion', 'server::node::Node::add'), ('occupancy', 'server::node::Node::exist')], ['the result of later lookups', 'panic at registration'],
     TRUST + 'By induction over the tree, as for lookup.')
prop('P04', 'Route and group extensions are combined, none is dropped',
     'The extension of a route registered in a group has the route\'s filters followed by the group\'s, and the route\'s rate limit and fallback if it has them, else the '
     'group\'s; it has no extension only if neither has one. The extension constructors keep the filters and limit they were given.',
     ['programs'], 'every combination of route and group extension for every registration function',
     'Tests use one or two of the 96 combinations of method, group extension and route extension.',
     [ROUTER, EXT], [('merge', 'server::router::Router'), ('constructors', 'server::extend::Extend')], ['which filters and limits apply to a request'], TRUST)
prop('P05', 'Limit, filters and handler run in order, and stop once answered',
     'For a matched route the rate limit is waited for first, then the filters run in order, then the handler exactly once; as soon as one of them has answered the request none of the '
     'following runs. A failed limiter answers 403 and runs neither filters nor handler, and a rejected request runs none of them and closes the connection.',
     ['inputs', 'programs'], 'every request and every combination of limit, filters and handler',
     'Ordering and short-circuit are only visible with several filters that answer, which no test has; a failing limiter cannot be provoked by a test.',
     [SRV, EXT], [('request pipeline', 'server::server::exec_stream'), ('extension', 'server::extend::Extend::exec')], ['order of handler calls', 'response status'], TRUST)
prop('P06', 'A connection is kept or closed exactly as its requests say',
     'After each request the connection is shut down in both directions if that request is to close it, and otherwise the next request on it is read; requests of one connection are handled '
     'one after the other with the same routes, settings and addresses. A kept connection has exactly one expiry checker, which is told after every request to restart its period, and to stop '
     'when the connection ends.',
     ['histories', 'fault_sequences'], 'every sequence of requests on a connection, every failing clone or spawn',
     'Tests open single connections by hand; leaks of sockets or checkers only show over long histories and failing system calls.',
     [SRV], [('first request', 'server::server::handle_connection'), ('keep-alive loop', 'server::server::loop_exec')], ['socket shutdown', 'checker messages'], TRUST)
prop('P07', 'An idle kept connection is shut down after its keep-alive time, not before',
     'The expiry checker shuts the socket down in both directions once the keep-alive time has passed since the last completed request, and does so at no earlier time unless told to stop. '
     'Every completed request restarts the period from the then current time.',
     ['schedules', 'histories'], 'every timing of requests on a kept connection',
     'Depends on timing over seconds; no test keeps a connection idle.',
     [SRV], [('expiry checker', 'server::server::check_keepalive')], ['socket shutdown'], TRUST + 'Precision of the clock and of the 1-step polling is not bounded.')
prop('P08', 'The server keeps accepting and uses its own settings',
     'An error while accepting or setting up one connection never stops the server, and every other accepted connection is handed to the pool exactly once with the server\'s routes, '
     'keep-alive time, compression setting and its own peer and local address. A failed bind or pool creation is returned to the caller as an error; each setting changes only itself and '
     'is kept by copies of the server.',
     ['fault_sequences', 'configurations', 'inputs'], 'every sequence of accept results and every configuration',
     'Tests cannot make accept fail, and start at most one server with default settings.',
     [SRV], [('accept loop', 'server::server::HttpServer::listener'), ('settings', 'server::server::HttpServer::set_*')], ['connections handled', 'return value of start'], TRUST)
POOL, THR = 'src/utils/concurrent/thread_pool.rs', 'src/utils/concurrent/thread.rs'
prop('P10', 'A submitted task is never lost and never run twice',
     'Every task that the pool accepts is handed to exactly one worker, or waits in the task queue until a worker takes it; a task that is refused (queue full) is reported as an error to the '
     'submitter and never runs. No task stays queued while a worker is idle, whatever the order in which submissions and idle reports arrive, and every idle worker taken from the idle queue gets a task or is put back.',
     ['schedules', 'histories'], 'every interleaving of submitters, workers and the manager, every queue state',
     'Losing a task needs a particular interleaving of a submission with a worker becoming idle; the tests submit a few tasks to an idle pool.',
     [POOL], [('submission', 'utils::concurrent::thread_pool::ThreadPool::execute'), ('manager', 'utils::concurrent::thread_pool::ThreadPool::notify_check')],
     ['which tasks run', 'result of execute'], TRUST + 'Interleavings are covered by a rule on the last queue states each path knows, not by enumerating schedules.')
prop('P11', 'A worker runs its task once and then reports itself idle',
     'A worker runs each task it receives exactly once and afterwards reports itself idle exactly once, under its own number. It ends only when it is told to.',
     ['histories'], 'every worker and every sequence of messages to it',
     'A missing or misnumbered report starves the pool only after many tasks, or runs tasks on the wrong worker.',
     [POOL], [('worker thread', 'utils::concurrent::thread_pool::Builder::create')], ['messages to the manager'], TRUST)
prop('P12', 'A panicking task costs the pool no worker',
     'When a task panics, its worker is counted as no longer active and is replaced exactly once by a new worker with the same number, which is counted as active and becomes available for tasks. The manager and the other workers go on.',
     ['fault_sequences', 'histories'], 'every task that panics, on every worker',
     'Only repeated panics on particular workers exhaust the pool; the tests have one panic at most.',
     [POOL], [('panic guard of a worker', 'utils::concurrent::thread_pool::Sentinel'), ('replacement', 'utils::concurrent::thread_pool::ThreadPool::notify_check')],
     ['number of live workers'], TRUST + 'Panics are followed through the unwind edges of the compiled code.')
prop('P13', 'A pool is made exactly as configured, and its handles share it',
     'Each pool setting changes only itself, a size of 0 is refused, and the pool has as many workers as configured, named with the prefix and their number, with the configured stack size and queue capacities; '
     'a thread that cannot be started is reported as an error. Copies of a pool share its workers and queues, and dropping one copy does not stop the pool for others. The thread helpers start exactly one thread with the given function, name and stack size.',
     ['configurations', 'programs'], 'every configuration, every sequence of copies and drops',
     'Tests use one or two configurations and do not look at names, stack sizes or capacities.',
     [POOL, THR], [('settings', 'utils::concurrent::thread_pool::Builder'), ('creation', 'utils::concurrent::thread_pool::Builder::create'), ('handles', 'utils::concurrent::thread_pool::ThreadPool::{clone,drop}'),
                   ('thread helpers', 'utils::concurrent::thread::Thread')], ['threads started', 'pool size'], TRUST)
prop('P14', 'A rate limit never lets more requests through than it allows',
     'Of the requests under one limit, also when several routes share it, each passes only when more than the configured period lies behind the one that passed as many requests before as the limit allows, and more than the '
     'configured interval behind the one just before it; a request counts from the moment it passes. A request that may not pass yet waits and passes as soon as both conditions hold, and unused permission is never saved up while the server is idle. '
     'The creation of a limit counts as that many requests.',
     ['histories', 'schedules', 'inputs'], 'every period, interval and sequence of clock readings; limits of one to four requests',
     'It depends on when requests arrive relative to each other and to idle times; the only test runs twenty requests one after the other and asserts nothing.',
     ['src/server/limit.rs', 'src/utils/channel.rs'], [('decision', 'server::limit::Limit::run'), ('creation', 'server::limit::Limit::new'), ('waiting', 'server::limit::Limit::recv')],
     ['times at which requests under a limit are answered'], TRUST + 'Each clock reading is an unknown later than those before; the clock is not set back. The list of times is followed element by element for limits of 1 to 4.')
prop('P15', 'Nobody waits for a lock held across application code or a slow peer',
     'No lock of the library is held while a handler, filter, fallback or task runs, while anything is read from or written to a connection, or while waiting for a timer, a thread or another request; only a rate limit holds its own lock while it waits for the next request, '
     'which never needs that lock. A thread never takes a lock it holds, and locks are always taken in the same order, so no schedule can deadlock on them. Every lock is released, also on errors.',
     ['schedules'], 'every call that can be made while a lock guard is alive, over the whole call graph',
     'Whether a lock is held too long shows only when a slow peer or handler coincides with a registration or another request; deadlocks need a particular interleaving.',
     ['src/http/requester.rs', SRV, LIM, 'src/utils/concurrent/thread_pool.rs', 'src/client/client.rs', 'src/utils/log.rs'], [('route lookup', 'http::requester::Requester::parse'), ('rate limit', 'server::limit::Limit::run'), ('pool', 'utils::concurrent::thread_pool::ThreadPool'), ('client pool', 'client::client::HttpClient::obtain')],
     ['time a registration or request takes while another request is slow', 'deadlock'],
     'Locks are told apart by the type they protect. Guards alive at a call are a may-analysis over every path; the effects of a call are those of every function it may run; locks that a destructor takes only in one case (the last owner) are not counted. Trusts the list of library calls that wait.',
     'dataflow of live lock guards over MIR joined with transitive effects over the call graph; lock-order graph')
RQR, URLF, LOC = 'src/http/requester.rs', 'src/http/url/url.rs', 'src/http/url/location.rs'
HDR, VAL, BODY = 'src/http/header/header.rs', 'src/http/values.rs', 'src/http/body.rs'
SEGT = 'abstract interpretation of MIR over a segmented string domain'
SEG = ('Inputs are abstract texts: literal pieces and arbitrary pieces constrained only by the characters they exclude; every path of the parser over them is followed to its outcome. '
       'The layouts (order and number of pieces, places where reads split) are enumerated, the text and length of the pieces are not. Trusts the models of std calls and rustc\'s MIR. ')
prop('P16', 'Nothing a peer sends makes the library panic',
     'Nothing a client sends, in whatever pieces it arrives, makes the code that reads, routes and answers its request or gives its parts to a handler panic or reserve memory for data that has not arrived; what it cannot use is an error. '
     'The same holds for everything a server sends to the client.',
     ['inputs', 'schedules'], 'every byte sequence, every split over reads, every arithmetic operation, index, slice, unwrap and allocation reachable from serving a request or reading a response',
     'Panics hide behind missing pieces, lengths that do not fit and multi-byte characters; the tests send well-formed messages.',
     [SRV, RQR, 'src/http/url/location.rs', 'src/http/header/header.rs', 'src/http/header/cookie.rs', 'src/http/values.rs', NODE, 'src/client/client.rs', 'src/http/responser.rs', 'src/utils/time.rs'],
     [('request reading', 'http::requester::Requester'), ('lookup', 'server::node::Root::fetch'), ('response reading', 'http::responser::Responser')], ['panics of serving threads and of HttpClient::get'],
     TRUST + 'Unproved obligations are violations. Rules about the library: a read returns at most the length of its buffer, splitting gives at least one piece, counts of bytes in memory do not overflow 64 bits; locks are not poisoned; the clock is before 2262; panics of handlers are their own.',
     'abstract interpretation of MIR with proof obligations at every assertion, index, slice and unwrap, discharged by difference bounds')
prop('P20', 'A request that cannot be used is answered once with the right error',
     'A request that is malformed or cannot be read is answered with exactly one complete error response with an empty body, and reaches no handler: 405 for an unknown method, 505 for an unknown version, 400 for a malformed request '
     'line, cookie or Authorization header, for a failing read and for a head that does not end within the limit or that the peer cuts short, 417 without a Host header before the first empty line, 404 without a matching route, and 411 for a Content-Length of POST, PUT or PATCH that '
     'is not a number. A peer that connects and closes without sending anything gets no response.',
     ['inputs', 'fault_sequences'], 'every malformed request line and head of the listed kinds, every failing read',
     'The tests send a few malformed requests; the text around the defect and the point at which the read fails are unbounded.',
     [RQR, HDR], [('reading a request', 'http::requester::Requester::from'), ('error answers', 'http::requester::Requester::response_fail')], ['bytes written to the peer', 'handlers called'], SEG, SEGT)
prop('P21', 'The request line is understood exactly, however it arrives',
     'For every method, both versions and every target, the handler sees the method, version and path that were sent, and every query parameter with its value (the fragment is not part of it). The route is looked '
     'up with this method and path. The result does not depend on how the head of the request is split over reads, nor on whether lines end in CRLF or LF.',
     ['inputs', 'schedules'], 'every target text, every split of the head over reads',
     'Where the network splits a request is not under a test\'s control, and targets are unbounded.',
     [RQR, URLF, LOC], [('request line', 'http::requester::Requester::parse_request_line'), ('target', 'http::url::location::Location::from_bytes')], ['Context accessors', 'route lookup'], SEG, SEGT)
prop('P22', 'Header lines are parsed exactly',
     'Every header line "name: value" at any position gives exactly that name with that value, without the spaces or tabs around the value; a colon in the value is kept, an empty value is kept as empty, a repeated name has its last value, and a '
     'line without a colon is ignored. Content-Type, Accept-Encoding and Host are recognised in any letter case, and client and local address are those of the connection.',
     ['inputs'], 'every header name and value, every order of header lines',
     'Tests use one block of headers in usual form.',
     [RQR, HDR], [('header lines', 'http::requester::Requester::parse_request_header'), ('header collection', 'http::header::header::Header')], ['Context accessors'], SEG, SEGT)
prop('P25', 'The body of a request is exactly what was sent',
     'For POST, PUT and PATCH the body is exactly the Content-Length bytes that follow the head, however they are split over reads and whatever follows them, and no more than these is asked of the connection; with Content-Length 0 or without it the body is empty, and '
     'with -1 it is everything up to the end of the stream. For other methods nothing is read after the head and the body is empty.',
     ['inputs', 'schedules'], 'every body, length and split over reads',
     'Splits of the body over reads depend on the network; tests deliver it in one piece.',
     [RQR, BODY], [('body', 'http::requester::Requester::fill_body')], ['Context body accessors', 'bytes read from the connection'], SEG, SEGT)
prop('P26', 'A url-encoded form gives exactly its keys and values',
     'For a request with content type application/x-www-form-urlencoded, the form accessors give exactly the pairs of the body: each key with its value, which may be empty or contain "=", for a repeated key the last value, '
     'and no value for a key that is not there. All form accessors agree with each other.',
     ['inputs'], 'every key and value, at every position of the body',
     'Tests parse one form; which texts break it depends on the position of empty values and separators.',
     [RQR, VAL], [('form parsing', 'http::requester::Requester::parse_form'), ('values', 'http::values::Values')], ['Context form accessors'], SEG, SEGT)
RSP, CTXF, ENCF = 'src/http/response.rs', 'src/server/context.rs', 'src/http/header/encode_type.rs'
CMP = 'src/utils/compress.rs'
prop('P23', 'Form accessors are consistent and independent of the order of access',
     'Whichever form accessor is used first, all of them give the same answers, and parsing the form takes the body. If the body was taken first, or the request has no content type or one that is not a form, every form accessor '
     'reports that there is nothing.',
     ['histories', 'inputs'], 'every order of calls of the form accessors and the body accessor, every body',
     'The form is parsed lazily by whichever accessor comes first; tests use one accessor in one order.',
     [RQR, CTXF, BODY], [('lazy form', 'http::requester::Requester::{req_form,req_have_form,req_count_form,req_form_file,have_form_files}'), ('body', 'http::body::Body')],
     ['Context form and body accessors'], SEG, SEGT)
prop('P27', 'A multipart form gives exactly its fields and files',
     'For a request with content type multipart/form-data, every text field has exactly its name and its text, of one or several lines with CRLF or LF, and every file exactly its field name, file name, content and size, in any order of the parts; '
     'a repeated name has its last value. A body with a malformed part, or a content type without a boundary, gives an error from the accessor after exactly one 400 response.',
     ['inputs'], 'every name, text and file content, every order of parts',
     'The line-wise parser has many states; tests parse one well-formed body.',
     [RQR, VAL], [('multipart parsing', 'http::requester::Requester::parse_multipart_form'), ('files', 'http::values::{FileHeader,MultiValues}')], ['Context form and file accessors'], SEG, SEGT)
prop('P28', 'A URL is split into exactly its parts',
     'Parsing a URL gives exactly its scheme (http, https or none), user name and password if there are any, host, port (80 or 443 by scheme if not given), path (empty if there is none), query parameters and fragment. '
     'A port that is not a number is refused with an error.',
     ['inputs'], 'every URL of the supported shape',
     'Which part a character belongs to depends on the characters around it; tests parse a few URLs.',
     [URLF, LOC, 'src/http/url/authority/addr.rs', 'src/http/url/authority/userinfo.rs', 'src/http/url/authority/authority.rs', 'src/http/url/scheme.rs'],
     [('url', 'http::url::url::URL::from'), ('location', 'http::url::location::Location'), ('authority', 'http::url::authority')], ['URL parts', 'request sent by the client'], SEG, SEGT)
prop('P30', 'The response on the wire is exactly what the handler set',
     'The response carries the request\'s version, the status set by the handler with its phrase, every header it set, Content-Type and the exact Content-Length of the body, then the body and nothing else, and is flushed. '
     'It says Connection: keep-alive exactly if the request keeps the connection open, and close otherwise.',
     ['inputs', 'histories'], 'every sequence of response calls a handler makes, every value',
     'Tests look at a few responses with a client that forgives missing or wrong headers.',
     [RSP, CTXF], [('serialisation', 'http::response::Response::write'), ('setters', 'server::context::Context::resp_*')], ['bytes written to the connection'], SEG, SEGT)
prop('P31', 'A response is marked as compressed exactly if it is',
     'Content-Encoding names a coding exactly if the body sent is the output of that coding on the handler\'s body, and Content-Length is the length of what is sent. A body is never compressed if compression is off, the client does not accept the '
     'coding or compressing fails; then it is sent unchanged.',
     ['inputs', 'fault_sequences'], 'every body, every Accept-Encoding, success or failure of the compressor',
     'Whether a body gets longer by compression and whether a compressor fails depends on data no test samples.',
     [RSP, CTXF, CMP], [('compression', 'http::response::Response'), ('accepted codings', 'http::header::encode_type::AcceptEncoding')], ['bytes written to the connection'],
     SEG + 'The compressors are opaque functions of the body that may fail.', SEGT)
prop('P33', 'A request is answered at most once',
     'The first call that sends a response sends it, and every further one does nothing, also if the first answer was one to a malformed form. After a write of a response has failed nothing more of it is written, and the function that writes it returns the error.',
     ['histories', 'fault_sequences'], 'every sequence of response calls, every point at which a write fails',
     'A second response needs a handler that answers twice or a write that fails in between; tests do neither.',
     [RSP, CTXF, RQR], [('response state', 'server::context::Context::executed'), ('send', 'server::context::Context::response')], ['bytes written to the connection', 'result of writing a response'], SEG, SEGT)
CKF, UIF = 'src/http/header/cookie.rs', 'src/http/url/authority/userinfo.rs'
prop('P24', 'A websocket handshake is recognised exactly',
     'A request is reported as a websocket handshake exactly if its Connection header lists "upgrade" as one of its comma-separated items and its Upgrade header is "websocket", both in any letter case and wherever they stand in the head.',
     ['inputs'], 'every value and order of the two headers',
     'Browsers and proxies write these headers in many forms; no test has one.',
     [CTXF, HDR], [('detection', 'server::context::Context::req_is_web_socket')], ['Context::req_is_web_socket'], SEG, SEGT)
prop('P29', 'A handler sees the request that was sent',
     'The request accessors of the context return exactly what was sent: headers, path, query parameters, path parameters, client address, cookies, form fields and files. Each kind is looked up only among its own names, counts and existence agree with the values, '
     'and what is not there is reported as absent.',
     ['inputs'], 'every request, every name asked for',
     'Tests call few of the accessors, and with one kind of data at a time.',
     [CTXF, RQR], [('accessors', 'server::context::Context::req_*')], ['Context request accessors'], SEG, SEGT)
prop('P44', 'Cookies are read and set exactly',
     'The cookies of a request are exactly the name=value pairs of its Cookie header, in order, and the one found by name is the first of exactly that name. A cookie set on a response is one Set-Cookie line with its name, value and exactly the attributes it was built with, in the order added, '
     'and reading that line back gives the same cookie.',
     ['inputs'], 'every name and value, every combination of attributes, every number and spacing of cookies',
     'Tests read back three cookies with at most one attribute.',
     [CKF, HDR, RQR], [('parsing', 'http::header::cookie::Cookie::{read_cookies,read_set_cookies}'), ('building', 'http::header::cookie::CookieBuilder'), ('text form', 'http::header::cookie::Cookie::to_string')],
     ['Context::req_cookies', 'Set-Cookie lines on the wire', 'Response::read_set_cookies'], SEG + 'Formatting and parsing of times is opaque.', SEGT)
prop('P46', 'Basic credentials are exactly user and password',
     'For a request with Basic credentials, the user name is the decoded text before the first colon and the password everything behind it, which may be empty or contain colons; without an Authorization header there are none. '
     'The credentials the client sends are the encoding of exactly user:password.',
     ['inputs'], 'every user name and password',
     'Passwords with colons or empty ones are not in any test.',
     [UIF, HDR, RQR], [('decoding', 'http::url::authority::userinfo::Userinfo::from_basic'), ('encoding', 'http::url::authority::userinfo::Userinfo::base64')], ['Context::req_userinfo', 'Authorization header sent'],
     SEG + 'The base64 codec is opaque.', SEGT)
CLI, RESPF, REQF = 'src/client/client.rs', 'src/http/responser.rs', 'src/http/request.rs'
STF, MEF, VEF, SCF, CTF, AEF, ADF = 'src/http/status.rs', 'src/http/method.rs', 'src/http/version.rs', 'src/http/url/scheme.rs', 'src/http/header/content_type.rs', 'src/http/header/encode_type.rs', 'src/http/url/authority/addr.rs'
TAB = 'Each function is evaluated abstractly on every constant and on texts and numbers that are any others. '
prop('P40', 'Every status code has one registered meaning everywhere',
     'Each HTTP status the library names has its registered code and reason phrase, and looking up any 16-bit number gives the status of exactly that code, or an error if there is none. Code, phrase, phrase bytes, debug text and the comparisons with statuses, texts and numbers, '
     'in both directions, agree with that; a ready-made response carries the status it is named after.',
     ['inputs'], 'all 65536 numbers, every status, every text compared with',
     'Tests look at two of the sixty codes; a wrong entry in the table only shows for that status.',
     [STF, RSP], [('table', 'http::status::Status::from_code'), ('comparisons', 'PartialEq impls of http::status::Status')], ['Status constants and lookups'], TAB, SEGT)
prop('P41', 'Methods are named exactly and classified as documented',
     'Each of the twelve methods is parsed from exactly its upper-case name, as text or bytes, and every other non-empty text is refused; its text, debug and display form and all comparisons give that name. '
     'Safe are exactly GET, HEAD, OPTIONS and TRACE, idempotent exactly PUT and DELETE, and cacheable exactly GET, HEAD and POST.',
     ['inputs'], 'every text, every pair of methods',
     'Tests try a few names and leave out LINK, UNLINK and PRI throughout.',
     [MEF], [('parsing', 'http::method::Method::from_bytes'), ('classes', 'http::method::Method::is_*')], ['Method'], TAB, SEGT)
prop('P42', 'Versions and schemes are recognised exactly',
     'HTTP/1.0 and HTTP/1.1 are the only versions and http and https the only schemes that are parsed, from exactly that text or its bytes, and anything else is an error. Text forms, numbers, comparisons and whether a scheme is secure agree with the constant.',
     ['inputs'], 'every text, every pair of constants',
     'Tests try a handful of texts.',
     [VEF, SCF], [('versions', 'http::version::Version'), ('schemes', 'http::url::scheme::Scheme')], ['Version', 'Scheme'], TAB, SEGT)
prop('P43', 'Media types are recognised exactly',
     'Each media type the library names is parsed from exactly its name, "multipart/form-data; boundary=" followed by a non-empty text is a multipart type with exactly that boundary, and any other text is application/octet-stream. '
     'A type\'s text is its name (multipart/form-data for a multipart type, the given text for a custom one), and comparisons agree with that.',
     ['inputs'], 'every text, every pair of types',
     'Tests print two types.',
     [CTF], [('parsing', 'http::header::content_type::ContentType::from_str'), ('text', 'http::header::content_type::Inner::as_str')], ['ContentType'], TAB, SEGT)
prop('P45', 'The best coding the client accepts is chosen',
     'Of the codings in a comma-separated Accept-Encoding list, gzip is chosen if it is listed, else deflate, else zlib, else none, whatever the order of the list and the blanks around its commas. Only exact names count: br, unknown names and names in another case choose nothing.',
     ['inputs'], 'every list of up to three known and unknown codings, every order and spacing, and longer lists in part',
     'No test has a list with more than one coding.',
     [AEF], [('choice', 'http::header::encode_type::AcceptEncoding::best')], ['AcceptEncoding::best'], TAB, SEGT)
prop('P47', 'A request names its address, and finds it in the right family',
     'The method, scheme, user info, address and path of a request are those of the URL it was made for, and its address is shown as host:port. Its IPv4 (IPv6) socket address is the first one of that family that exactly this host:port resolves to, '
     'and an error if there is none or the lookup fails.',
     ['inputs', 'fault_sequences'], 'every URL, every list of addresses, a failing lookup',
     'The test of it depends on the name service of the machine, and fails on some.',
     [ADF, REQF], [('lookup', 'http::url::authority::addr::Addr::{socket_addr_ipv4,socket_addr_ipv6}'), ('accessors', 'http::request::Request')], ['Request accessors', 'names looked up'], SEG, SEGT)
prop('P50', 'The client sends exactly the request its URL asks for',
     'For a URL the client sends exactly one flushed GET request for the path and query of that URL ("/" if it has no path, never the fragment), with Host naming its host and port, an Authorization header with exactly the credentials of the URL if it has any, no body, and nothing else. '
     'It does not ask for the connection to be kept.',
     ['inputs'], 'every URL of the supported shape',
     'There is no test of the client that does not need the internet.',
     [CLI, RESPF, LOC, REQF], [('request', 'client::client::default_request'), ('serialisation', 'http::responser::Responser::request'), ('target', 'http::url::location::Location::target')],
     ['bytes written to the connection'], SEG, SEGT)
prop('P51', 'The client asks the right server and reports every failure',
     'The client looks up exactly the host and port of the URL, and connects exactly once, to the first IPv4 address found. A URL it does not support, a name without an IPv4 address, and a failing lookup, connect, write or read, or an empty answer are all returned as an error.',
     ['inputs', 'fault_sequences'], 'every URL, every set of addresses, a failure at every step',
     'Failures of the network and names with several addresses are not in any test.',
     [CLI, 'src/http/url/authority/addr.rs', RESPF], [('address', 'http::url::authority::addr::Addr::socket_addr_ipv4'), ('connection', 'client::client::stream'), ('send', 'client::client::HttpClient::send')],
     ['names looked up', 'addresses connected to', 'result of HttpClient::get'], SEG + 'The name service and the network are opaque and may fail.', SEGT)
prop('P52', 'The client returns exactly the response that was received',
     'The result has exactly the received version, status, headers (without the spaces or tabs around a value) and body, however the response is split over reads: the body is the Content-Length bytes behind the head, or everything up to the end without that header or with -1. '
     'A response with an unknown version or status, a reason phrase that is not that of the status, or an unreadable Content-Length, or that ends before its head or body is complete, is returned as an error.',
     ['inputs', 'schedules'], 'every response, header, body and split over reads',
     'There is no test that parses a response.',
     [RESPF, RSP], [('parsing', 'http::responser::Responser::{parse,parse_response_line,parse_response_header,fill_body}')], ['result of HttpClient::get'], SEG, SEGT)
UT = 'src/utils/'
TERM = 'abstract interpretation of MIR with symbolic library objects'
prop('P60', 'Compressing and decompressing work on all of the data',
     'Compressing in each of the three codings gives the coding of exactly the data, all of it and once, at the level asked for; decompressing gives everything the data decodes to. If any step of a coder fails the caller gets an error, never a part of the result.',
     ['inputs', 'fault_sequences'], 'any data, also none, any level, a failure of any step',
     'Tests compress one short text; partial writes, empty data and failing coders do not occur in them.',
     [UT + 'compress.rs'], [('codings', 'utils::compress::Compress')], ['results of Compress'],
     'Coders are abstract machines: what was written to them, and what they put out once finished. Trusts flate2 to code and decode what it is given. ', TERM)
prop('P61', 'Text codings cover exactly their input',
     'Each form of hex and Base64 encoding gives the coding of exactly the bytes it is called with, and each form of decoding the bytes of exactly the text; text that does not decode is an error.',
     ['inputs'], 'any bytes, any text',
     'Tests encode and decode one text.',
     [UT + 'cryptos/hex.rs', UT + 'cryptos/base64.rs'], [('hex', 'utils::cryptos::hex::Hex'), ('Base64', 'utils::cryptos::base64::Base64')], ['results of Hex and Base64'],
     'Trusts the hex and openssl crates to encode and decode what they are given. ', TERM)
prop('P62', 'Times are exact',
     'A time is exactly as long after 1970 as it was made of, to the nanosecond; adding, subtracting and counting weeks, days, hours, minutes, seconds and their fractions use the length of that unit. Parsing gives exactly the date read with its fraction, or an error; '
     'formatting shows the second the time lies in, also before 1970, by the pattern given.',
     ['inputs'], 'every time, amount, unit, text and pattern',
     'Tests use a handful of dates in 2021, and no fraction with a date before 1970.',
     [UT + 'time.rs'], [('times', 'utils::time::Time')], ['results of Time'],
     'Times are linear terms over unknowns in nanoseconds. How chrono reads and writes dates is trusted. Amounts beyond the range of a duration are not covered. ', TERM + ' and linear terms')
prop('P63', 'Errors and texts keep what they were made of',
     'An error shows exactly the message it was made with, followed by its cause if there is one. Text made from bytes is exactly those bytes, and bytes that are no text are an error.',
     ['inputs'], 'every message, cause and sequence of bytes',
     'Tests make one text and look at no error.',
     [UT + 'errors/entrances.rs', UT + 'errors/children.rs', UT + 'strings.rs'], [('errors', 'utils::errors::entrances::Errs'), ('texts', 'utils::strings::Strings')], ['Display of errors', 'Strings::from_utf8'], SEG, SEGT)
prop('P64', 'Logs go where they were configured to go',
     'Each log module writes to <dir>/<name>.log at its own level for its own package, is rolled at its size in MB, keeps its number of old files beside it, and is passed on to the main log exactly if asked; a directory, size or number left open (empty or 0) is that of the main module. '
     'A server logs with the level, directory, size and number given to set_log, otherwise to "tmp" with 1024 MB and 7 files; logs of earlier runs are kept.',
     ['inputs', 'configurations'], 'every value of the settings, each left open or not, up to two modules',
     'The test configures one combination and looks at no file.',
     [UT + 'log.rs', SRV], [('configuration', 'utils::log::LogModule::config'), ('files', 'utils::log::rolling_appender'), ('server', 'server::server::HttpServer::set_log')], ['log files'],
     SEG + 'Trusts log4rs to do what its builders are told. Names of modules are taken to differ. ', TERM)
prop('P65', 'The library is memory safe by construction',
     'No input, schedule or misuse of the safe interface can make the library read or write memory it should not, or race on memory between threads: none of its code is unsafe, and it claims nothing about thread safety that the compiler has not checked.',
     ['inputs', 'schedules'], 'every block, function, implementation and static of the crate',
     'Tests that run under no sanitizer see neither races nor invalid accesses.',
     ['src/lib.rs', SRV, CLI], [('crate', 'src/lib.rs')], ['memory errors and data races'],
     'Trusts the compiler, and the libraries used to be sound. ', 'query over the type-checked program (HIR and MIR)')
prop('P66', 'Serving a request touches nothing but that request',
     'Handling a connection reaches no file, process, environment or other network peer, changes no route or setting, and uses no process-wide or per-thread state that can change, so one request cannot affect another except through handlers and rate limits. The client touches nothing but its connections.',
     ['inputs', 'histories'], 'every function reachable from the handling of a connection, the context and the client',
     'A leak from one request to another needs a history no test plays.',
     [SRV, CTXF, RQR, CLI], [('serving', 'server::server::handle_connection'), ('context', 'server::context::Context'), ('client', 'client::client::HttpClient')], ['files, processes, connections', 'what other requests see'],
     'Effects are those of the library functions that can be reached, over the call graph with closures; calls of handlers and of trait objects are the application\'s. Output of the logger is not counted. ', 'effect analysis over the call graph')
prop('P67', 'Named values are kept exactly under their names',
     'Query parameters, form values and the files of a form are kept exactly under the name they were given: setting a name replaces its values, adding appends, deleting removes that name and hands back what was there, and no operation touches another name. Asking for a name gives its first value, all its values in order, or nothing. A file has the name, size, type and content it was given.',
     ['inputs', 'histories'], 'every sequence of up to four changes to two different names and every question after it, for all values; the operations are uniform in names and lengths',
     'Tests set three names once.',
     [VAL], [('values', 'http::values::Values'), ('files', 'http::values::MultipartValues'), ('file', 'http::values::FileHeader')], ['answers to questions about a name'],
     'Names are distinct constants or one unknown text and a longer one; values are unknown texts of any length.', 'abstract interpretation of operation sequences against a dictionary of lists')
na('P70', 'Compressed bodies decode to the original',
   'Decompressing what was compressed gives back the original data, for any data and level.', ['inputs'], 'all data', 'Tests compress one text.',
   [UT + 'compress.rs'], [('codings', 'utils::compress::Compress')],
   'The equality is one of flate2\'s algorithms, outside this repository, over unbounded data; what this repository adds (all data goes in once, the matching coder is used, errors are returned) is P60.')
na('P71', 'A permit is granted as soon as it may be',
   'A waiting request passes the rate limit within a bounded time after both conditions hold, and keep-alive connections are closed within a bounded time after they expire.', ['schedules'], 'all schedules', 'Tests measure no times.',
   [LIM, SRV], [('limit', 'server::limit::Limit::run'), ('keep-alive', 'server::server::check_keepalive')],
   'The bound depends on the scheduler and on wall-clock time, which no static argument on the source can bound; which requests pass, and that the waiting ends in a permit or a close, are decided by P14 and P07.')
na('P72', 'Memory and threads stay bounded under load',
   'Over any history of connections the memory and the number of threads in use stay bounded.', ['histories'], 'all histories', 'No test runs for long.',
   ['src/utils/concurrent/thread_pool.rs', SRV], [('pool', 'utils::concurrent::thread_pool::ThreadPool')],
   'The amount of heap in use quantifies over run-time sizes; a sound static bound would need a resource analysis of the collections, allocator and pending channel contents. What is decided are the number of workers (P13) and that no peer can make the library allocate a size it names (P16).')
