#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept as a script so that statements are edited in one place.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Every request is dispatched to exactly the route the precedence rules select",
"For every set of registered routes and every request, the router picks the registered path that equals the request path or else the nearest registered ancestor of it, looked up once for the request's host (without port) and once for the default host: an exact match beats a non-exact one, and at equal exactness the specific host beats the default host. If nothing matches the answer is 404; if the picked path has no route for the method it is 405; if the method's route does not accept the Content-Type (parameters after ';' ignored, '*' accepts all, ';'-separated lists accept any member) it is 406; if the match was not exact and that route does not allow fallback it is 404. Otherwise that one route's handler is invoked exactly once and no error is reported; in the error cases the error handler is invoked exactly once with that code and no handler runs.",
["inputs","configurations"],"every route table (hosts, paths, methods, content lists, fallback flags) and every request (host, path, method, Content-Type)",
"The router tests run eight fixed requests over one fixed table and assert nothing about the outcome; the precedence depends on combinations of two tables, exactness, method, content and fallback.",
["router/route.go","router/router.go","router/utils.go"],
[("getRoute","router/route.go"),("matchRoute","router/route.go"),("contentAllowed","router/route.go"),("StripHostPort","router/utils.go")],
[("route table","host+path -> methods and middleware","router/router.go")],["handler invoked / error code for a request"])

p("C02","Handlers only ever see canonical request paths",
"For every request path, whatever runs after routing sees a path that starts with '/', contains no empty, '.' or '..' segment, keeps the trailing slash iff the request path had one (and the result is not the root), and denotes the same location as lexically resolving the request path from the root. Canonicalising a canonical path changes nothing, and requests whose paths resolve to the same location (with the same trailing slash) are routed alike.",
["inputs"],"every byte string as request path, up to the bound",
"TestCleanPath samples four strings; '..'/'.'/'//' combinations are never exercised, and path traversal protection rests on this for all strings.",
["router/utils.go","router/router.go"],[("cleanPath","router/utils.go"),("ServeHTTP stores the cleaned path","router/router.go")],(),["URL path seen by middleware and handlers"])

p("C03","Middleware of the matched route, and only it, runs in registration order",
"A request dispatched to a route first passes through every middleware registered for that route's host and path, in the order of registration (the first registered is outermost), each at most once, and then reaches the handler; a middleware that does not call on stops the request, so neither later middleware nor the handler runs. Middleware registered for other hosts or paths, and middleware on requests answered with 404/405/406, never runs. This does not depend on whether middleware was registered before or after its routes, nor on a trailing slash in the registered path.",
["inputs","configurations","histories"],"every registration history of routes and middleware on a few hosts and paths, every subset of blocking middleware, every request",
"TestMiddleware prints its output and asserts nothing, for one registration order and one request.",
["router/middleware.go","router/router.go","router/route.go"],[("UseMiddleware","router/middleware.go"),("middleware chain in ServeHTTP","router/router.go")],
[("middleware list per path","router/route.go","pathRoute")],["order of middleware and handler invocations"])

p("C04","Invalid route registrations are refused and change nothing that is served",
"Registering a route with an empty host, path or method, a nil handler, or a method outside the standard HTTP methods (plus the WebDAV methods only when WebDAV is enabled) never succeeds: it panics or terminates the process. Every registration with a valid method, non-empty parameters and a handler succeeds, and registering the same host, path and method again replaces the earlier route without affecting other methods or paths.",
["inputs","configurations","histories"],"every method string up to the bound, every combination of empty parameters, WebDAV on/off, every pair of registrations",
"One WebDAV registration is run; rejections and replacement are never tested.",
["router/router.go","router/middleware.go"],[("AddRoute validation","router/router.go"),("allowedMethodsHTTP, allowedMethodsHTTPWebDAV","router/router.go")],(),["panic / process exit; subsequent dispatch"])

p("C05","Basic authentication admits exactly the configured user/password pairs",
"For every Authorization header value and every configured set of users, the protected handler runs if and only if the header is 'Basic ' followed by the valid standard base64 of user:password (split at the first colon) where that user is configured with exactly that password; with a custom authentication function and no users, iff that function accepts the pair. In every other case, including a missing header, an unknown user, empty credentials and an empty user set, the handler does not run and the client is answered with 401 and a WWW-Authenticate challenge.",
["inputs","configurations"],"every Authorization header up to the bound and every user table of up to two users with short names and passwords",
"The guard package has no tests; acceptance must be excluded for every other header value, which sampling cannot do.",
["guard/basicauth.go"],[("authenticate","guard/basicauth.go"),("simpleBasicAuthFunc","guard/basicauth.go"),("Authenticate","guard/basicauth.go")],
[("Users","configured credentials","guard/basicauth.go")],["handler invoked / status and challenge header"])

p("C06","The content firewall serves a request iff its rules allow that client and path",
"A client is listed for a path when a rule for that path or any of its ancestor directories names its address (without port) or '*'; a rule for '/' counts for the root path itself, and for deeper paths only when subpath mode is off. In blacklist mode the firewall on served content answers 403 iff the client is listed and otherwise calls the handler; in whitelist mode it calls the handler iff the client is listed and otherwise answers 403. Exactly one of the two happens, once.",
["inputs","configurations"],"every rule table, mode, canonical request path and client address up to the bounds",
"The guard package has no tests; the decision depends on every ancestor of the path and both modes.",
["guard/firewall.go"],[("BlockHTTP","guard/firewall.go")],[("Rules","path -> addresses","guard/firewall.go")],["handler invoked or 403"])

p("C07","The proxy firewall forwards a request iff its rules allow that client and path",
"With the same notion of a listed client as for served content, the firewall on proxied traffic in blacklist mode answers 403 iff the client is listed and otherwise lets the request through, and in whitelist mode lets it through iff the client is listed and otherwise answers 403. Exactly one of the two happens, once, for every rule table, path and client.",
["inputs","configurations"],"every rule table, mode, canonical request path and client address up to the bounds",
"The guard package has no tests.",
["guard/firewall.go"],[("BlockProxy","guard/firewall.go")],[("Rules","path -> addresses","guard/firewall.go")],["handler invoked or 403"])

p("C08","Each client has its own request budget and is refused with 429 beyond it",
"At any one instant, a client that has made no earlier requests gets exactly its configured burst of requests through the rate limiter, and every further request at that instant is answered 429 without reaching the handler; a request is always either handled or answered 429, never both. Clients with a different address (or, unless filtering on address only, a different User-Agent) never consume each other's budget, and requests of one client always share one budget whatever their source port.",
["inputs","histories","configurations"],"every sequence of requests from clients with symbolic addresses, ports and User-Agents, every burst size, within the bounds",
"The guard package has no tests; isolation must hold for every pair of client identities.",
["guard/limiter.go","cache/get.go","cache/set.go"],[("LimitHTTP","guard/limiter.go"),("NewLimiter","guard/limiter.go")],[("limiter cache","client -> token bucket","guard/limiter.go")],["handler invoked or 429"])

p("C09","Concurrent requests of one client cannot exceed the budget",
"For every interleaving of concurrent requests from the same client through the rate limiter at one instant, the number of requests that reach the handler equals the smaller of the number of requests and the configured burst. Requests of other clients running at the same time do not change that number, and no interleaving races on shared memory, panics or deadlocks.",
["schedules","inputs"],"every interleaving (at synchronisation operations, with data-race detection) of 2-3 concurrent requests",
"No test runs two requests concurrently; the failing window is between looking up and storing the client's budget.",
["guard/limiter.go","cache/get.go","cache/set.go"],[("LimitHTTP get-then-set","guard/limiter.go")],[("limiter cache","client -> token bucket","guard/limiter.go")],["number of handler invocations"])

p("C10","The cache returns the latest value stored under a key and never an expired one",
"After any history of Set, Get and Find and any passage of time, Get(key, maxAge) either misses or returns the value of the latest Set for that very key, and it misses whenever the entry was last stored or successfully retrieved longer than maxAge ago. Find returns the latest value regardless of age together with the time since the entry was last stored or successfully retrieved. A key that was never set always misses.",
["histories","inputs"],"every history of up to the stated number of operations on a few keys (same and different shards, before and after the ring buffer wraps), every maxAge and every time step",
"TestCache asserts only that an empty cache misses; ordering, expiry and wrap-around are not asserted.",
["cache/get.go","cache/set.go","cache/find.go","cache/shard.go"],[("Get scan","cache/get.go"),("Find scan","cache/find.go"),("appendKey","cache/set.go")],[("ring of items and cursor","entries in insertion order","cache/shard.go")],["Get/Find results"])

p("C11","A cached entry survives 1017 newer insertions unless it reaches its max age",
"As long as at most 1017 insertions (Set, or successful Get or Find, which re-insert the entry) happened in the cache since an entry was last stored or retrieved, and it is not older than maxAge, Get for its key hits (a shard has 1024 slots; Set may update an entry in place in the 7 most recent ones); Find hits under the same condition irrespective of age. This holds for every position of the ring buffer, including right before and after it wraps, and whatever the age of other entries.",
["histories","inputs"],"every history as for the previous property, with prefills that put the ring cursor at every interesting position",
"No test fills a shard (1024 entries), lets an unrelated entry expire, or asserts that a stored key is found.",
["cache/get.go","cache/set.go","cache/find.go"],[("Get early exit on expiry","cache/get.go"),("cursor arithmetic","cache/set.go")],[("ring of items and cursor","entries in insertion order","cache/shard.go")],["Get/Find hit or miss"])

p("C12","The cache is safe under concurrent use",
"Every interleaving of concurrent Set, Get and Find calls is free of data races, panics and deadlocks, and its results are explained by some sequential order of the calls. In particular a value whose Set has returned is not lost because another key is set for the first time concurrently.",
["schedules"],"every interleaving (at synchronisation operations, with happens-before data-race detection) of two or three concurrent operations on keys of the same and of different shards, from an empty and from a used cache",
"No test uses the cache from two goroutines.",
["cache/set.go","cache/get.go","cache/find.go","cache/shard.go"],[("shard creation","cache/set.go"),("shard lock","cache/shard.go")],[("shard pointers","lazily created shards","cache/cache.go")],["results of the concurrent and of following calls"])

p("C13","No request reads a file outside the serve directory",
"For every request path that arrives at a server configured to serve or offer downloads from a directory, every file-system object examined or sent on behalf of the request lies inside the serve directory configured for the request's host, by lexical resolution of its name; the only exceptions are the configured error pages and templates. This holds with and without a trailing slash in the configured directory.",
["inputs","configurations"],"every request path up to the bound, every host, serve and download mode",
"No test serves a file; containment has to hold for every path.",
["tuna/handleserve.go","tuna/handledownload.go","router/utils.go","tuna/handleerror.go"],[("cleanPath before the handler","router/router.go"),("ServeDir + path","tuna/handleserve.go")],(),["names passed to the file system"])

p("C14","Static serving maps each path to exactly its file, or 404",
"A GET request dispatched to static content is answered with the file whose name is the serve directory plus the canonical request path, with the configured index file name appended when the path ends in '/'; it is answered 404 iff nothing has that name (a name of a directory, or one that ends in /index.html, is redirected instead). The Content-Type sent is the one for that file's name.",
["inputs","configurations"],"every request path up to the bound against every small file tree",
"The tuna package has no tests.",
["tuna/handleserve.go"],[("handleServe","tuna/handleserve.go")],(),["file served, status and Content-Type"])

p("C15","Each virtual host is served from its own configuration only",
"With virtual hosting, a request whose host names a virtual host is answered from that virtual host's own serve directory, index, response headers, MIME types, error pages and proxy rule for that host, and never from another virtual host's or the main ones; a request for a host without a configuration never receives any virtual host's content. Adding or changing one virtual host does not change how requests for another are answered.",
["inputs","configurations"],"every pair of virtual host configurations in the modelled family and every request host, path and port",
"The tuna package has no tests; isolation is a statement about all pairs of hosts.",
["tuna/handleserve.go","tuna/handledownload.go","tuna/handleproxy.go","tuna/handleerror.go","tuna/routes.go"],[("vhost configuration switch in each handler","tuna/handle*.go"),("per-vhost routes","tuna/routes.go")],[("Vhosts","host -> configuration","tuna/server.go")],["response and files used per host"])

p("C16","Every locally produced response carries the strict security headers",
"Every response the server produces itself (static file, download page or file, error page, metrics page) carries X-Frame-Options SAMEORIGIN, X-Content-Type-Options nosniff, X-XSS-Protection '1; mode=block', Referrer-Policy no-referrer, a Content-Security-Policy of default-src 'self', a Feature-Policy and Server MaguroHTTP, unless the host's configured headers override that very header (the metrics page clears only the Content-Security-Policy); every configured header (other than Content-Type, which the file determines) is present with its configured value on served and downloaded content. With TLS enabled every response, proxied ones included, carries Strict-Transport-Security with exactly the configured max-age, includeSubdomains and preload; with TLS disabled the server never adds it.",
["inputs","configurations"],"every combination of TLS/HSTS settings, configured headers and response kind",
"The tuna package has no tests; headers must be present on every response path, including errors raised by the router, the firewall and the limiter.",
["tuna/utils.go","tuna/handleserve.go","tuna/handledownload.go","tuna/handleerror.go","tuna/metrics.go","tuna/handleproxy.go"],[("setHeaders","tuna/utils.go")],(),["response headers as sent"])

p("C17","Errors reach the client with their own status code and page",
"Whenever the server answers a request with an error (404, 405, 406 from routing, 403 from the firewall, 429 from the limiter, 401 from authentication, 502 from the proxy, 500), the status line the client receives is that code, whether or not a custom error page is configured. If a custom page for that code is configured for the request's host and exists, its content is the body; otherwise the built-in page naming that code is sent, declared as HTML.",
["inputs","configurations","fault_sequences"],"every error code, every presence/absence of custom pages in main and virtual host configuration",
"The tuna package has no tests.",
["tuna/handleerror.go"],[("HandleError","tuna/handleerror.go")],(),["status, body of error responses"])

p("C18","The proxy forwards each request unchanged to the upstream",
"For every request to a proxied host, the upstream receives exactly one request with the same method, the same request URI (of valid URI characters) appended to the configured upstream address, the same body bytes and the same header fields (each value of each field, in order), and with the original host name without port. The client's own request headers are not modified by forwarding, and no request is forwarded for a host without a proxy rule.",
["inputs","configurations"],"every method, request URI, header set and body up to the bounds",
"The tuna package has no tests; fidelity is a statement about all requests.",
["tuna/handleproxy.go","tuna/utils.go"],[("handleProxy","tuna/handleproxy.go"),("cloneHeader","tuna/utils.go")],(),["request handed to the transport"])

p("C19","The proxy returns the upstream's response unchanged, and 502 when there is none",
"For every upstream response with a status code of 200 or more, the client receives the same status code, the same body bytes and every header field value of the upstream response (headers configured for the proxy, and Strict-Transport-Security under TLS, override or add to them), and the upstream body is closed. If the request body cannot be read, the request cannot be built or the upstream cannot be reached, the client receives 502 and nothing else.",
["inputs","fault_sequences"],"every upstream status, header set and body up to the bounds, every failure point",
"The tuna package has no tests.",
["tuna/handleproxy.go","tuna/utils.go"],[("handleProxy","tuna/handleproxy.go"),("copyHeader","tuna/utils.go")],(),["response written to the client"])

p("C20","A client cannot steer the proxy to another server",
"Whatever request line and headers a client sends to a proxied host, every request the proxy makes goes to the scheme, host and port of the upstream address configured for that host. A request that cannot be forwarded there is answered with an error and causes no outgoing request.",
["inputs"],"every request URI an HTTP/1.1 server accepts (origin, absolute, opaque and asterisk form), up to the bound",
"The tuna package has no tests; the dangerous request URIs are rare (they exploit URL authority syntax).",
["tuna/handleproxy.go"],[("upstream URL composition","tuna/handleproxy.go")],(),["URL handed to the transport"])

p("C21","Metrics count every response exactly once, under every interleaving",
"While metrics are enabled, after any set of requests, sequential or concurrent, the metrics page shows a total that equals the number of responses recorded since start (plus any loaded total), and for each status code and host+path the number of responses with that code for it (bytes that are no UTF-8 count as U+FFFD); the per-path numbers add up to the total. Concurrent requests, page views and saves never race on the counters, lose counts or block each other forever, also when a client disconnects while the page is being written. While metrics are disabled nothing is counted.",
["schedules","histories","fault_sequences"],"every interleaving of 2-3 concurrent requests/page views, every write failure point of the page, every short sequence of requests with symbolic paths and codes",
"The tuna package has no tests; lost updates and lock leaks need specific interleavings and faults.",
["tuna/metrics.go","tuna/log.go"],[("concat","tuna/metrics.go"),("display","tuna/metrics.go"),("LogNetwork","tuna/log.go")],[("TotalRequests, Paths","counters","tuna/metrics.go")],["metrics page"])

p("C22","Metrics are shown only to authenticated users and carry no injected HTML",
"With metrics enabled, a request for the metrics path yields metrics only with the credentials of a configured metrics user; every other GET request for it is answered 401, and no request without those credentials yields any metrics content. Text that clients chose (hosts and paths of earlier requests) appears on the page only HTML-escaped, so no request history can put markup or script into the page.",
["inputs","histories","configurations"],"every Authorization header and every earlier request path up to the bounds",
"The tuna package has no tests.",
["tuna/routes.go","tuna/metrics.go","guard/basicauth.go"],[("Authenticate middleware on the metrics route","tuna/routes.go"),("display","tuna/metrics.go")],(),["response of the metrics path"])

p("C23","Saved metrics survive crashes and restarts",
"Saving the metrics and starting a new server on the saved file yields the same total and per-path counts. If the process stops at any point while saving, or a file-system operation fails, the metrics file afterwards holds either the previously saved or the newly saved metrics in full, so the next start succeeds and loses at most the unsaved part. Once metrics collection is enabled they are saved periodically and on shutdown, whether or not the file existed at start.",
["crash_points","fault_sequences","histories"],"every crash point between file-system operations (and every partial write) of a save, every operation failing, every small metrics state",
"The tuna package has no tests; the failing state is an empty file left by a crash between truncation and writing.",
["tuna/metrics.go","tuna/serve.go"],[("flushMetrics","tuna/metrics.go"),("metricsDaemon","tuna/metrics.go")],[("metrics file","saved counters","Core.Metrics.Out")],["metrics file content; metrics page after restart"])

p("C24","Every configured route is behind its host's firewall and rate limiter",
"For every configuration (static, download or proxy; with or without virtual hosts), a request reaches a content or proxy handler only after the firewall configured for its host (if enabled) allowed it and the host's rate limiter admitted it, the firewall deciding first. Requests the firewall refuses consume no budget, and each virtual host has its own firewall rules, rate and burst.",
["configurations","inputs"],"every combination of mode, firewall setting and virtual hosts in the modelled family, every request",
"The tuna package has no tests; the guard wiring is repeated in six branches.",
["tuna/routes.go"],[("addRoutesFromConfig","tuna/routes.go")],(),["status of requests, budget consumed"])

p("C25","Unusable or unsafe configurations are refused at start",
"A main configuration is accepted iff the port, log output and file directory are set (the file directory not being '/'), the log level is in the supported range (0 to 3), TLS when enabled has either certificate and key files or automatic certificates with at least one name on port 443, virtual hosting when enabled names at least one virtual host each with a configuration, and otherwise proxying has at least one rule and serving content has a serve directory and known methods (and for downloads an index); a virtual host configuration is accepted iff it does not enable virtual hosting itself and satisfies the last two. A refused configuration terminates the process before anything is served; an accepted one has directories that end in '/' where the server appends names to them.",
["configurations"],"every configuration in the family spanned by the checked fields, with strings up to the bound",
"The tuna package has no tests; there are a dozen interacting conditions.",
["tuna/config.go","tuna/server.go"],[("Validate","tuna/config.go")],(),["process exit vs acceptance, resulting directories"])

p("C26","File names determine the declared content type",
"The Content-Type declared for a file depends only on its name and the configured response types: the extensions known to the server map to their fixed types, any other name uses the type configured for exactly that path, and everything else is application/octet-stream. No file name with another extension is ever declared as HTML, script or another active type unless configured.",
["inputs","configurations"],"every file name up to the bound and every small table of configured types",
"The tuna package has no tests.",
["tuna/utils.go"],[("getMIMEType","tuna/utils.go")],(),["Content-Type of served files"])

p("C27","The download page lists exactly the offered files",
"With downloads enabled, the index page lists each file in the serve directory tree whose extension is configured, once, and no other file or directory; a request for an existing file in the directory is sent as an attachment with its content type, and a path that names nothing is answered 404. File-system errors during listing lead to an error response or a page without the unreadable part, never to a crash.",
["inputs","configurations","fault_sequences"],"every small file tree with names up to the bound, every extension list, every listing failure point",
"The tuna package has no tests.",
["tuna/handledownload.go"],[("handleDownload","tuna/handledownload.go")],(),["page content, status, Content-Disposition"])

p("C28","A server configured for TLS never speaks plaintext",
"When TLS is enabled in the configuration the server either listens with TLS using the configured certificate and key (or certificates restricted to the configured names), with protocol versions 1.2 to 1.3 and only forward-secret AEAD cipher suites, or it does not listen at all; when TLS is disabled it listens without TLS. It listens on the configured address and port with the configured read, header and write timeouts.",
["configurations","fault_sequences"],"every combination of TLS settings and presence of certificate files",
"The tuna package has no tests; the fallback to plaintext appears only when files are missing.",
["tuna/serve.go","tuna/tls.go"],[("Serve","tuna/serve.go"),("httpCheckTLS","tuna/tls.go"),("httpCreateTLSConfig","tuna/tls.go")],(),["listen calls and their TLS configuration"])

p("C29","No request can crash or hang the server",
"For every request an HTTP server can deliver (any method, host, path, headers, body, remote address) and every state of the served directory, handling terminates without panic, without leaving any lock held, and with exactly one response status. Handling never modifies the server's configuration, and a request that fails does not affect how later requests are answered.",
["inputs","configurations","fault_sequences"],"every request with strings up to the bounds in serve, download, proxy and metrics mode, every file-system fault",
"Router tests run eight well-formed requests; robustness is a statement about all requests.",
["router/router.go","router/route.go","tuna/handleserve.go","tuna/handledownload.go","tuna/handleproxy.go","tuna/metrics.go","guard/firewall.go"],[("loops over path ancestors","router/route.go, guard/firewall.go"),("locks in display/concat","tuna/metrics.go")],(),["panic, hang, number of status lines"])

p("C30","Shutdown saves metrics and drains connections",
"On an interrupt or termination signal the server saves its metrics (when enabled), then stops accepting connections and waits a bounded time for requests in flight through the graceful shutdown of its listener, and only then exits. It does so for either signal and does not exit without one.",
["schedules","fault_sequences"],"both signals, metrics on/off, shutdown succeeding or failing",
"No test sends a signal.",
["tuna/serve.go","tuna/metrics.go"],[("signal goroutine","tuna/serve.go")],(),["order of flush, shutdown and exit"])

p("C31","Log messages appear exactly at and above their configured verbosity",
"For every configured log level and every message of a defined level (0 to 4), the message is written to the configured output iff it is not nil and its level is at most the configured level, once, carrying its text. Log levels above the supported range (0 to 3) are refused when the logger is created. From the network level (1) on, every answered request is logged once with its status, method, host, path and client.",
["configurations","inputs"],"every configured level (all integers), every defined message level, nil and non-nil messages, every text up to the bound",
"The debug package has no tests.",
["debug/log.go","debug/logger.go","debug/init.go","tuna/log.go"],[("Log","debug/log.go"),("NewLogger","debug/logger.go")],(),["lines written to the output"])

p("C32","Long-run request rate of a client stays within burst plus rate times time",
"Over every time window, the number of requests of one client that reach the handler is at most the configured burst plus the configured per-minute rate times the length of the window, as long as the client's budget is remembered. A client that stays below the configured rate is never refused.",
["histories","inputs"],"every sequence of request times and every configured rate and burst",
"The guard package has no tests; the statement quantifies over real time and rates.",
["guard/limiter.go"],[("NewLimiter rate conversion","guard/limiter.go"),("LimitHTTP","guard/limiter.go")],(),["admitted requests over time"])

p("C33","The configuration alone decides which requests are served",
"A request for static content is served iff its path is a configured path (apart from a final slash) or lies below the nearest configured path and that one ends in '/', and the entry lists its method and accepts its Content-Type; otherwise it is answered 404, 405 or 406 accordingly, and where both /a and /a/ list a method /a/ decides. Download servers answer GET requests without content only, proxies answer the configured methods with any content for hosts with a rule only, and metrics appear on every host at exactly their path. None of this depends on the order in which the maps of the configuration are iterated, on virtual hosting, or on how many other entries there are.",
["configurations","inputs","schedules"],"every pair of configured paths in every iteration order, every request path and content type up to the bounds",
"The tuna package has no tests, and the iteration order of maps is random: one run of a test sees one order.",
["tuna/routes.go","router/route.go","router/router.go"],[("addRoutesFromConfig","tuna/routes.go"),("getRoute","router/route.go")],(),["status and body of answers"])

p("C34","Settings affect only the host and the feature they belong to",
"The status, header and body of an answer, and the files read and the upstream requests made for it, depend only on the settings of the request's host for the mode that host runs in (files, downloads or proxy) and on the main configuration's TLS, HSTS and metrics settings where these are enabled (HSTS: one header field; metrics: their own page). Settings of modes and guards that are off, of other virtual hosts, of the main configuration's own content when virtual hosting is on, core settings inside a virtual host's configuration, entries for other paths, the log level, addresses, timeouts and certificates change nothing, also when the host itself leaves the corresponding setting out. The order in which virtual hosts are set up and requests to other hosts change nothing either.",
["configurations","inputs","schedules"],"every combination of the unrelated settings (symbolic flags and numbers), every mode, every order of the virtual hosts, a set of requests and every short path",
"The tuna package has no tests; the statement relates two configurations and quantifies over all combinations of unrelated settings.",
["tuna/routes.go","tuna/handleserve.go","tuna/handledownload.go","tuna/handleproxy.go","tuna/utils.go","tuna/server.go"],[("addRoutesFromConfig","tuna/routes.go"),("switch to the virtual host's configuration","tuna/handleserve.go, tuna/handledownload.go, tuna/handleproxy.go"),("setHeaders","tuna/utils.go")],(),["answers of two servers that differ in unrelated settings"])

p("C35","Every request is answered as if it were the only one",
"The status, header and body of an answer, the files read and the upstream requests made for it do not depend on which requests were answered before it or are being answered at the same time (apart from the rate limiter's budget and the metrics page). Every request is answered as by a server that was just started, from the files and upstream responses as they are at that time, also after requests that broke off.",
["inputs","histories","schedules","fault_sequences"],"every ordered pair of a set of requests, every short path before, many requests before, every fault in the request before, every interleaving of two requests",
"The tuna package has no tests; the statement relates answers across histories and schedules.",
["tuna/handleserve.go","tuna/handledownload.go","tuna/handleproxy.go","tuna/handleerror.go","tuna/utils.go","router/router.go"],[("handlers","tuna/handleserve.go, tuna/handledownload.go, tuna/handleproxy.go"),("error pages","tuna/handleerror.go"),("ServeHTTP","router/router.go")],(),["answers of a server with a history and of a fresh one"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print("long",x["id"],n)
print(len(P))
