PROPS = [
 dict(id="C01", title="A federated answer equals the answer of a single server with all the data",
  statement="For every composed supergraph and every valid query, when all subgraphs answer correctly, the `data` the router returns equals what one GraphQL server owning all of the data would return for the public API schema, with no errors. This holds through entity keys (also composite, nested and multiple ones), @requires, @provides, @override, @shareable, interface objects, abstract types, aliases, fragments, @skip/@include and variables.",
  over=["inputs", "programs", "configurations"],
  quant="all composed supergraphs (2-4 subgraphs), all data sets, all valid queries and variables over them",
  why="The e2e and planner tests use a handful of fixed supergraphs with snapshot plans; they never compare answers with an independent execution, and the space of supergraph x query shapes is unbounded.",
  files=["bin/router/src/query_planner", "bin/router/src/executor"],
  mech=[("query graph walk and fetch graph", "bin/router/src/query_planner/planner"), ("fetch optimisation and batching", "bin/router/src/query_planner/planner/fetch/optimize"), ("entity resolution and response merging", "bin/router/src/executor/execution"), ("response projection", "bin/router/src/executor/projection")],
  observe=["HTTP response body of POST /graphql"],
  technique="property-based testing: generated federated worlds and operations, differential against a reference executor",
  note="Generated worlds (composed by apollo-federation) and operations are sent over HTTP to the real router in front of mock subgraphs; the oracle is an independent GraphQL executor over the API schema and the ground truth data. Trusts apollo-compiler for schema/operation validity and apollo-federation for composition."),
 dict(id="C02", title="Every request to a subgraph is valid for it and honours its contract",
  statement="Every GraphQL request the router sends to a subgraph is a valid operation of that subgraph's schema with declared, coercible variables. It only asks for fields that subgraph resolves (not external, overridden or unknown ones), every entity representation carries __typename, satisfies one of the resolvable @key field sets of that type in that subgraph with the entity's true values, and carries all inputs of the @requires fields asked for.",
  over=["inputs", "programs", "configurations"],
  quant="all composed supergraphs, data sets, valid operations and variables",
  why="Tests snapshot a few plans and mock subgraphs that accept anything; the validity of what is sent depends on the combination of schema, query shape, directives and data.",
  files=["bin/router/src/query_planner/planner", "bin/router/src/executor/projection/request.rs", "bin/router/src/executor/execution/plan.rs"],
  mech=[("fetch graph to subgraph operation", "bin/router/src/query_planner/planner/fetch"), ("representation projection", "bin/router/src/executor/projection/request.rs"), ("operation minification", "bin/router/src/query_planner/ast/minification")],
  observe=["HTTP requests received by the subgraphs"],
  technique="property-based testing: generated federated worlds and operations, every subgraph request judged by a contract monitor",
  note="Mock subgraphs validate each received operation with apollo-compiler against the subgraph's own schema and judge representations against the generated ground truth. An empty representation list is tolerated for one alias of a batched entity request as long as the request asks for something."),
 dict(id="C03", title="A failing subgraph or field costs only its part of the answer, always reported",
  statement="When subgraphs fail (transport errors, HTTP error statuses, malformed answers) or return GraphQL errors, null or missing values for some fields, the router answers with the data that does not depend on the failure, null exactly where the GraphQL specification propagates it, and for every loss an error entry; an error of a subgraph field carries the path of that field in the client's response. Parts which do not depend on the failure keep their value, and no error is invented.",
  over=["inputs", "fault_sequences", "configurations"],
  quant="all supergraphs, data sets, operations, and all sets of failing fields and failing subgraph requests",
  why="Tests inject a few failures at fixed places; where null propagates and which path an error gets depends on the plan, on entity batching and on list positions.",
  files=["bin/router/src/executor"],
  mech=[("null propagation and projection", "bin/router/src/executor/projection/response.rs"), ("error path rewriting for entities", "bin/router/src/executor/execution"), ("subgraph response handling", "bin/router/src/executor/response")],
  observe=["HTTP response body of POST /graphql"],
  technique="property-based testing with fault injection: generated worlds, failing fields and failing requests, differential against a reference executor",
  note="Part 'fields' breaks random field values in the ground truth (error, null, wrong null) and compares data and error paths with the reference executor; part 'subgraphs' breaks whole requests and demands equality outside the lost parts."),
 dict(id="C05", title="An operation is executed if and only if the specification says it is valid",
  statement="Every operation which is valid by the GraphQL specification against the public API schema passes validation; every other one is answered with errors, without data, and no subgraph is asked.",
  over=["inputs"],
  quant="all syntactically correct documents",
  why="Each rule has example tests; combinations (literals nested in lists and objects, fragments within fragments, meta fields, variables in any position) are not sampled by them.",
  files=["lib/graphql-tools/src/validation", "lib/graphql-tools/src/ast", "bin/router/src/pipeline/validation"],
  mech=[("validation rules", "lib/graphql-tools/src/validation/rules"), ("visitor with type information", "lib/graphql-tools/src/ast/operation_visitor.rs"), ("validation phase and cache", "bin/router/src/pipeline/validation/mod.rs")],
  observe=["HTTP response of POST /graphql", "requests received by the subgraphs"],
  technique="property-based testing: generated operations with token-level mutations, differential against apollo-compiler's validator",
  note="Documents which do not parse are not judged here, nor those where apollo-compiler is known to be lenient (objects for custom scalars, variables inside object literals) or too strict (variables inside custom scalar literals)."),
 dict(id="C06", title="Variables are coerced by the specification before anything runs",
  statement="For every set of variable definitions and every JSON variables value the router accepts the request exactly if the specification's variable coercion accepts it. Subgraphs receive the coerced values (defaults applied, unknown variables dropped) as if the client had written them as literals; a refused request is answered with errors, without data, and no subgraph is asked.",
  over=["inputs"],
  quant="all variable definitions over the schema's input types, all JSON values for them",
  why="The unit tests list some scalars; nesting of lists, input objects, nullability, defaults and number representations is not sampled.",
  files=["bin/router/src/executor/variables"],
  mech=[("variable coercion", "bin/router/src/executor/variables/mod.rs")],
  observe=["HTTP response of POST /graphql", "requests received by the subgraph"],
  technique="property-based testing: generated variable definitions and JSON values, differential against a model of the specification's coercion",
  note="Values are echoed by a mock subgraph, so that what it received is part of the compared answer. Lenient points of the specification (coercing 1.0 to Int, custom scalars) are not judged."),
 dict(id="C07", title="A document means what was written: parsing, printing, minifying, caching keep it",
  statement="The parser accepts exactly the syntactically valid documents and never panics. Printing and minifying a parsed document give a document with the same meaning. A literal in any lexical form (escapes, block strings, numbers, lists, objects) reaches the subgraph with exactly the value the specification gives it, also when other operations have been planned and cached before.",
  over=["inputs"],
  quant="all texts; all literals in all positions",
  why="Snapshot tests cover a fixed set of documents; escapes, block string indentation, unicode, numbers at the limits and hash collisions in the plan cache are combinations they do not reach.",
  files=["lib/graphql-tools/src/parser", "bin/router/src/query_planner/ast"],
  mech=[("tokenizer and parser", "lib/graphql-tools/src/parser"), ("minifier", "lib/graphql-tools/src/parser/query/minify.rs"), ("values and hashing in the planner", "bin/router/src/query_planner/ast")],
  observe=["return values of parse/print/minify", "requests received by the subgraph"],
  technique="property-based testing and structure-aware fuzzing: generated and mutated documents, round trip and differential against apollo-compiler's parser",
  note="Texts which only the library rejects are judged when unmutated only (apollo-compiler is lenient about broken texts); integral floats may be printed as integers; numbers beyond 2^53 are compared as doubles in documents."),
 dict(id="C18", title="An answer depends only on its own request, not on others before or beside it",
  statement="Caches (parse, validation, normalization, plans) and the deduplication of client and subgraph requests are invisible: whatever was asked before or is asked at the same time, every request is answered as by a fresh router which serves only that request. In particular no client is answered with the answer to a different operation, other variables, or another user's headers which take part in the deduplication key or are propagated.",
  over=["histories", "schedules", "inputs", "configurations"],
  quant="all histories and concurrent bursts of operations, variables and headers",
  why="Unit tests compare a few fingerprints; a collision or a shared answer needs two particular neighbouring operations or headers in one history.",
  files=["bin/router/src/pipeline", "bin/router/src/cache_state.rs", "bin/router/src/query_planner/ast/hash.rs", "bin/router/src/executor/executors/dedupe.rs"],
  mech=[("operation hash and plan cache", "bin/router/src/query_planner/ast/hash.rs"), ("request fingerprint", "bin/router/src/pipeline/mod.rs"), ("subgraph request deduplication", "bin/router/src/executor/executors/dedupe.rs")],
  observe=["HTTP responses of POST /graphql in concurrent bursts"],
  technique="stateful property-based testing: generated histories of neighbouring operations in concurrent bursts, differential against a reference executor and a fresh router",
  note="A difference from the reference counts only if a fresh router answers the same request differently. Sharing between requests that differ only in headers excluded from the key and not propagated is intended."),
dict(id="C08", title="Fields forbidden by @authenticated/@requiresScopes are never disclosed",
  statement="For every operation and user, with authorization enabled: a field whose own, parent type's or output type's rule (as composed into the supergraph) the user does not satisfy is null in the answer (absent under a forbidden fragment), is not asked of any subgraph (except as a key or input of an allowed field), and is reported with UNAUTHORIZED_FIELD_OR_TYPE and its path; nulls bubble through non-null positions of the operation; everything else equals the answer without rules and nothing allowed is reported. In reject mode the request is refused as a whole and no subgraph is asked.",
  over=["inputs", "configurations"],
  quant="all placements of the directives, operations, variables, users and modes",
  why="Tests sample one schema; rules meet fragments, abstract types, aliases, conditions, merging of selections and non-null bubbling in combinations they do not reach.",
  files=["bin/router/src/pipeline/authorization", "bin/router/src/executor/operation_filter.rs", "bin/router/src/pipeline/nullify", "bin/router/src/jwt/context.rs"],
  mech=[("authorization of an operation", "bin/router/src/pipeline/authorization/mod.rs"), ("rules of the schema", "bin/router/src/pipeline/authorization/user_auth_context.rs"), ("operation filter", "bin/router/src/executor/operation_filter.rs"), ("rebuilding of operation and projection", "bin/router/src/pipeline/nullify/rebuilder.rs")],
  observe=["HTTP responses of POST /graphql for different users", "requests received by the subgraphs"],
  technique="property-based testing: generated rules, operations and users; model of the rules as oracle, and the answer of a privileged user as the baseline",
  note="Where normalization may legally move a selection to a narrower or wider type with a different rule, either outcome is accepted, and so is withholding an object of a forbidden type, or a parent of which nothing is left."),
dict(id="C04", title="Mutations run one after another, exactly once, and excluded ones never",
  statement="For every mutation operation the router executes each root field that @skip/@include do not exclude exactly once per client request, in the order of the document. No mutation request starts before everything belonging to earlier root fields (other mutation requests and the entity fetches completing their selections) has ended, unless consecutive fields of one subgraph travel in a single request. Mutations are never retried after a failure, never shared between identical concurrent requests and never run for a GET request.",
  over=["inputs", "schedules", "fault_sequences"],
  quant="all mutation operations over all supergraphs, subgraph latencies, failures, and concurrent identical requests",
  why="The tests check plans of a handful of leaf-only mutations; order and multiplicity depend on aliases, repeated and conditional root fields and on which selections need entity fetches.",
  files=["bin/router/src/query_planner/planner", "bin/router/src/query_planner/ast/normalization", "bin/router/src/pipeline"],
  mech=[("mutation sequencing", "bin/router/src/query_planner/planner/fetch/optimize/turn_mutations_into_sequence.rs"), ("root field order in normalization", "bin/router/src/query_planner/ast/normalization/mod.rs"), ("deduplication and GET handling", "bin/router/src/pipeline/mod.rs")],
  observe=["HTTP requests received by the subgraphs with start and end times", "HTTP response body"],
  technique="property-based testing: generated mutations over recording subgraphs, invariant over the request log and differential against a reference executor",
  note="Every mutation returns entities numbered in execution order, so a late entity read is visible. The value read by an entity fetch is not compared when fields were merged in one request."),
dict(id="C09", title="A request is authenticated if and only if it carries a valid token",
  statement="With JWT authentication enabled: a token is accepted (its claims, exactly, are what subgraphs and expressions see) if and only if it is found where the configuration says, is signed by one of the currently configured keys with an allowed algorithm, lies within exp and nbf (60 s leeway), and its issuer and audience are configured ones. Otherwise the request is refused without any subgraph request, or, when authentication is not required, treated as anonymous. The caching of validated tokens and the polling of key sets never prolong a token's life beyond the documented bounds nor refuse a valid token.",
  over=["inputs", "histories", "configurations", "schedules"],
  quant="all configurations, key sets, tokens (well-formed, forged, tampered) and histories of requests and key rotations",
  why="Tests try a handful of tokens against one provider; forged headers, several providers, expiry while cached and rotation under load are a product they do not cover.",
  files=["bin/router/src/jwt", "bin/router/src/config/jwt_auth.rs"],
  mech=[("token validation and key selection", "bin/router/src/jwt/mod.rs"), ("key set polling", "bin/router/src/jwt/jwks_manager.rs")],
  observe=["HTTP status and body", "claims in the extensions of subgraph requests"],
  technique="property-based testing: tokens generated valid or invalid by construction with real RSA/EC/Ed25519/HMAC keys, and timed histories around expiry and rotation",
  note="Not judged: aud arrays that are only partly configured. With require_authentication: false an invalid token means anonymous (documented)."),
 dict(id="C10", title="Introspection shows exactly the public schema; @inaccessible never leaks",
  statement="For every supergraph, introspection answers describe exactly the public (API) schema: every type, field, argument, default value, description, deprecation and implementation, for every introspection operation (aliases, fragments, conditions, variables) and without asking a subgraph; nothing marked @inaccessible and nothing of the federation machinery appears in it. Values of inaccessible enum members and objects of inaccessible types returned by subgraphs do not reach the client. When introspection is disabled (by configuration or by an expression over the request) every operation with __schema or __type at any place is refused and all others are served.",
  over=["inputs", "configurations"],
  quant="all supergraphs, introspection operations and policies",
  why="Tests run the standard introspection query on one or two schemas.",
  files=["bin/router/src/executor/introspection", "bin/router/src/query_planner/consumer_schema", "bin/router/src/executor/projection"],
  mech=[("introspection resolver", "bin/router/src/executor/introspection/resolve.rs"), ("public schema", "bin/router/src/query_planner/consumer_schema"), ("policy", "bin/router/src/config/introspection_policy.rs")],
  observe=["HTTP responses of POST /graphql", "requests received by the mock subgraphs"],
  technique="property-based testing: generated supergraphs and introspection operations, differential against apollo-compiler's introspection of the API schema",
  note="The order of lists, the directives list and the descriptions of the introspection types themselves are not compared. Without includeDeprecated, args and inputFields also list deprecated values (existing tests demand it)."),
 dict(id="C12", title="Limits are enforced exactly",
  statement="With limits on depth, aliases, directives, tokens, body size and header size configured: an operation or request is refused, with the code of the limit and without any subgraph request, if and only if its measure is greater than the limit; the measures are independent of how the operation is written down (fragments, white space, how the body is split into chunks or declared).",
  over=["inputs", "configurations"],
  quant="all limits, operations and request framings",
  why="Off-by-one and counting errors show only for operations right at a limit, with the syntax that is counted wrongly.",
  files=["bin/router/src/pipeline/validation", "bin/router/src/config/limits.rs", "lib/graphql-tools/src/parser/tokenizer.rs", "bin/router/src/http_utils/body.rs"],
  mech=[("operation limits", "bin/router/src/pipeline/validation"), ("token limit", "lib/graphql-tools/src/parser/tokenizer.rs"), ("body limit", "bin/router/src/http_utils/body.rs")],
  observe=["HTTP status and error codes", "requests received by the mock subgraphs"],
  technique="property-based testing: operations measured by an independent lexer and tree walk, limits drawn around the measures; raw HTTP requests around the size limits",
  note="Without flatten_fragments an inline fragment adds one level and a spread two: an existing unit test demands it. If the token limit is reached between two definitions the refusal has the code of a syntax error."),
 dict(id="C14", title="Header rules are applied exactly; merged cache-control is never laxer",
  statement="Every subgraph request carries exactly the headers which the configured rules (propagate, insert, remove; for all or for one subgraph; with rename, default and expressions) derive from the client's headers, and the client's response exactly those derived from the subgraphs' responses (first, last, append; Set-Cookie never joined; defaults only when no subgraph provided the header); hop-by-hop headers never cross. The merged Cache-Control allows no more than any contributing subgraph allows and forbids storing for mutations and answers with errors.",
  over=["inputs", "configurations", "schedules"],
  quant="all rule lists, header sets (repeated, non-ASCII, hop-by-hop) and combinations of answering subgraphs",
  why="Unit tests apply single rules to single headers; repeated lines, rule order, renames and several subgraphs combine.",
  files=["bin/router/src/executor/headers", "bin/router/src/config/headers.rs"],
  mech=[("request rules", "bin/router/src/executor/headers/request.rs"), ("response rules", "bin/router/src/executor/headers/response.rs"), ("cache-control", "bin/router/src/executor/headers/cache_control.rs")],
  observe=["headers received by the mock subgraphs", "headers of the HTTP responses"],
  technique="property-based testing: generated rule lists and header sets against a reference interpreter of the rules",
  note="The order among concurrently answering subgraphs is not judged."),
dict(id="C16", title="CORS grants exactly the configured access; CSRF guards simple requests",
  statement="The CORS headers of every answer are exactly those of the first policy whose origins or patterns match the request's Origin (with the global values where the policy has none); so a browser lets a page read answers, with or without credentials, if and only if the page's origin is allowed, never because of a default, an opaque origin or a look-alike. With CSRF prevention on, a request which a browser would send without a preflight executes nothing, unless it has a required header.",
  over=["inputs", "configurations"],
  quant="all CORS and CSRF configurations, origins, methods, content types and headers",
  why="Unit tests check single headers for single origins; who may read an answer follows from the browser's algorithm over all the headers.",
  files=["bin/router/src/pipeline/cors.rs", "bin/router/src/pipeline/csrf_prevention.rs"],
  mech=[("CORS policies", "bin/router/src/pipeline/cors.rs"), ("CSRF prevention", "bin/router/src/pipeline/csrf_prevention.rs")],
  observe=["headers and status of HTTP responses", "requests received by the mock subgraphs"],
  technique="property-based testing: generated configurations and requests against a reference of the policy and of the browser's CORS algorithm",
  note="For an origin no policy matches the header value `null` is accepted (existing unit tests demand it), except for an opaque origin."),
dict(id="C13", title="Demand control charges the cost of exactly what will be fetched",
  statement="With demand control, the estimated cost of an operation is the sum of the costs of the subgraph operations its plan fetches, by the schema's @cost and @listSize (with the request's variables, conditions, override labels and default list sizes); an operation whose estimate exceeds the limit, or whose slicing arguments violate @listSize, is refused before any subgraph request is made, a cheaper one is executed unchanged, and a subgraph's own budget withholds requests from exactly that subgraph.",
  over=["inputs", "configurations", "histories"],
  quant="all cost-annotated schemas, operations, variables, list sizes, limits and request histories",
  why="Costs combine directives, variables, fragments, plans and caches of formulas; unit tests check single estimates on fresh state.",
  files=["bin/router/src/pipeline/demand_control", "bin/router/src/config/demand_control.rs"],
  mech=[("formula", "bin/router/src/pipeline/demand_control/formula"), ("evaluation", "bin/router/src/pipeline/demand_control/runtime")],
  observe=["the exposed estimate", "HTTP answers", "requests received by the mock subgraphs", "the exposed query plan"],
  technique="property-based testing: generated cost directives, operations and limits against a reference estimate over the plan's documents",
  note="The actual cost (measured after execution) is not judged. Whether the missing size of a list that costs nothing is refused is left open."),
dict(id="C19", title="Persisted documents: the identified document runs, and nothing else",
  statement="With persisted documents, a request runs exactly the document stored under the id that the first matching selector (body field, path segment, query parameter, or the defaults) finds in it; an unknown id, or a request without an id where one is required, is refused with no subgraph request. Reloading the manifest replaces the documents at once, a broken manifest keeps the old ones; from the CDN each id is fetched at most as configured, also unknown ones, under the client's own app and version. A document of several operations runs the named one only, and a GET request never runs a mutation.",
  over=["inputs", "configurations", "histories"],
  quant="all selector lists, manifests, CDN answers, requests and reload histories",
  why="Tests cover one selector and one document at a time; the choice depends on all parts of a request and on earlier ones (caches, reloads).",
  files=["bin/router/src/pipeline/persisted_documents", "bin/router/src/config/persisted_documents.rs", "bin/router/src/pipeline/normalize.rs"],
  mech=[("id extraction and storage", "bin/router/src/pipeline/persisted_documents"), ("choice of the operation", "bin/router/src/pipeline/normalize.rs")],
  observe=["HTTP answers", "requests received by the mock subgraphs", "requests received by the mock CDN"],
  technique="stateful property-based testing: generated selectors, manifests, reloads and requests against a reference model",
  note="Percent-encoded ids in URL paths and CDN failures other than 404 are not judged."),
dict(id="C20", title="An overridden field is asked of exactly the subgraph its labels name",
  statement="A field moved by @override (unconditionally, with a label, or with a percentage) is fetched from exactly the subgraph which the labels active for that request name - static, from an expression over the request, or by chance with the configured probability - consistently within one request, whatever was requested (and cached) before, and the answer is the same as without the override.",
  over=["inputs", "configurations", "histories"],
  quant="all sets of overridden fields, label configurations, requests and request histories",
  why="The plan cache and per-request label evaluation interact over a history; percentages are statements about distributions.",
  files=["bin/router/src/pipeline/progressive_override.rs", "bin/router/src/query_planner"],
  mech=[("labels of a request", "bin/router/src/pipeline/progressive_override.rs"), ("plans under overrides", "bin/router/src/query_planner/planner")],
  observe=["requests received by the mock subgraphs", "HTTP answers"],
  technique="property-based testing: generated overrides, label expressions and request histories against a reference; a Hoeffding bound (1e-10) on fractions",
  note="Percentages are judged by a bound that a correct router exceeds with probability below 1e-10."),
dict(id="C26", title="Error masking hides exactly what is configured, judged by the real origin",
  statement="Of a subgraph's errors a client sees exactly the message and the extensions which the masking configuration (global, for all, or for that subgraph) leaves, whatever the errors claim about themselves and however the subgraph fails; masked text occurs nowhere in the answer, the router's own errors stay readable, and data beside errors is not lost.",
  over=["inputs", "configurations", "fault_sequences"],
  quant="all masking configurations, subgraph errors with extensions of any JSON type, and failures",
  why="A leak is a statement about every error shape; unit tests mask single well-formed errors.",
  files=["bin/router/src/executor/execution/error_masking.rs", "bin/router/src/executor/response/graphql_error.rs", "bin/router/src/config/error_masking.rs"],
  mech=[("masking", "bin/router/src/executor/execution/error_masking.rs"), ("errors of a subgraph response", "bin/router/src/executor/response/graphql_error.rs")],
  observe=["HTTP answers"],
  technique="property-based testing with injected faults: generated errors carrying unique secrets, against a reference of the masking rules",
  note="The value of affectedPath is not compared."),
dict(id="C21", title="A supergraph update takes effect whole, soon, and never breaks a request",
  statement="While the supergraph is replaced, in a polled file (in place, renamed over, with any modification time, removed and restored) or at a CDN (ETags, fallback endpoint, failing and broken-off answers), every request is answered wholly by one supergraph that was current during it, the newest valid one is in use within the poll interval, and a missing, truncated or syntactically broken one changes nothing; caches never serve anything of an older supergraph.",
  over=["histories", "schedules", "fault_sequences"],
  quant="all histories of supergraph versions, sources, failures and concurrent requests",
  why="Stale caches, lost updates and half-switched requests only appear in histories with particular timing and failures.",
  files=["bin/router/src/supergraph", "bin/router/src/schema_state.rs", "lib/hive-console-sdk/src/supergraph_fetcher"],
  mech=[("loading and polling", "bin/router/src/supergraph"), ("switching", "bin/router/src/schema_state.rs"), ("CDN client", "lib/hive-console-sdk/src/supergraph_fetcher")],
  observe=["HTTP answers", "requests received by the mock subgraphs", "requests received by the mock CDN"],
  technique="stateful property-based testing with injected faults: generated update histories with requests in flight, against a model of the current version",
  note="Text that parses as GraphQL but is no supergraph, and the Uplink and storage sources, are not judged."),
dict(id="C22", title="Timeouts and circuit breakers act exactly where they are configured",
  statement="A subgraph request that takes longer than the timeout configured for it (for all, for the subgraph, by an expression) - before the answer's head, after it, or within its body - is given up on at that time with SUBGRAPH_REQUEST_TIMEOUT while the rest of the answer is kept; a request longer than the router's timeout is answered 504; nothing is given up on earlier. A circuit breaker rejects requests to a subgraph exactly when its recent answers reached the configured failure rate, and lets it recover as configured, without affecting other subgraphs.",
  over=["configurations", "schedules", "fault_sequences", "histories"],
  quant="all timeout and breaker configurations, lag patterns and failure histories",
  why="Where a stall happens and the order of failures are schedules and histories a unit test samples once.",
  files=["bin/router/src/executor/executors", "bin/router/src/config/traffic_shaping.rs", "bin/router/src/pipeline/timeout.rs"],
  mech=[("subgraph transport", "bin/router/src/executor/executors/http.rs"), ("per-subgraph settings and breakers", "bin/router/src/executor/executors/map.rs"), ("router timeout", "bin/router/src/pipeline/timeout.rs")],
  observe=["HTTP answers and when they come", "requests received by the mock subgraphs"],
  technique="property-based testing with injected delays and faults against a model of due times and of the breaker's state",
  note="Due times are judged with 3.5 s of slack above and 0.1 s below."),
dict(id="C25", title="Values pass through the router unchanged",
  statement="Every value a subgraph answers - strings with any escapes, numbers of any size and precision, custom scalars of any JSON, at any depth, under aliases, in lists and entities, and in the representations sent to other subgraphs for @key and @requires - reaches its receiver as the same JSON value; every argument value given as a variable, a literal or a default reaches the subgraph with the value GraphQL defines.",
  over=["inputs"],
  quant="all JSON values in all positions of responses, representations and arguments",
  why="Parsing, projection and rewriting handle each shape of text separately; tests use small plain values.",
  files=["bin/router/src/executor/response", "bin/router/src/executor/projection", "bin/router/src/executor/json_writer.rs", "bin/router/src/executor/variables"],
  mech=[("reading", "bin/router/src/executor/response"), ("writing", "bin/router/src/executor/projection")],
  observe=["HTTP answers, as text", "requests received by the mock subgraphs, as text"],
  technique="property-based testing: generated JSON texts, round trip compared exactly",
  note="Argument numbers are judged to 12 digits; number literals above 9e15 are not generated."),
dict(id="C27", title="Response extensions are merged exactly as configured",
  statement="The extensions of an answer are exactly those which the configured propagation of subgraph response extensions yields (allowed keys, first, last, append and default rules by key), whatever the subgraphs send; no subgraph can overwrite the router's own extensions, and no extensions value makes data be lost.",
  over=["inputs", "configurations"],
  quant="all rule sets and extensions of any JSON value, over sequential and parallel plans",
  why="The result depends on the order and shape of several subgraphs' extensions together with the rules.",
  files=["bin/router/src/executor/extensions", "bin/router/src/config/response_extensions.rs", "bin/router/src/executor/response/subgraph_response.rs"],
  mech=[("rules", "bin/router/src/executor/extensions/compile.rs"), ("merging", "bin/router/src/executor/extensions/aggregator.rs")],
  observe=["HTTP answers"],
  technique="property-based testing: generated rules and extensions against a reference merge",
  note="Where subgraphs answer in parallel any of their orders is accepted; extensions of 5xx answers may or may not count."),
dict(id="C23", title="Subscriptions deliver every event, once, in order, and end as they should",
         statement="Over every client transport (SSE, incremental multipart, Apollo multipart, graphql-transport-ws with several operations on a connection) and every subgraph transport (SSE, multipart, WebSocket, HTTP callback), a subscription's client receives, well-formed for its protocol, exactly one payload per upstream event, in the order of the events, each equal to what a single server would answer for that event (fields of other subgraphs resolved, nulls propagated, error messages masked as configured), and then the protocol's end; a failure of the upstream is reported and ends only that subscription; no content of an event (line breaks, boundaries, escapes) corrupts the framing. When clients leave - by complete, by closing or by vanishing, even while the operation is starting - the others miss and repeat nothing, nothing more is sent for a completed operation, and an upstream without clients is closed. Identical subscriptions share one upstream when deduplication is on, and a schema reload ends every open subscription with SUBSCRIPTION_SCHEMA_RELOAD, after which nothing follows.",
         over=["inputs", "schedules", "histories", "fault_sequences", "configurations"],
         quant="every operation, event sequence, transport pair, chunking and history of clients generated within the stated bounds",
         why="Tests show a handful of fixed events on whole chunks; framing, entity resolution per event, errors between events, and clients that leave at awkward moments depend on contents and schedules no fixed example covers.",
         files=["bin/router/src/pipeline/sse.rs", "bin/router/src/pipeline/multipart_subscribe.rs", "bin/router/src/pipeline/http_callback.rs", "bin/router/src/pipeline/active_subscriptions.rs", "bin/router/src/pipeline/websocket_server.rs", "bin/router/src/pipeline/mod.rs", "bin/router/src/executor/executors/sse.rs", "bin/router/src/executor/executors/multipart_subscribe.rs", "bin/router/src/executor/executors/http_callback.rs", "bin/router/src/executor/executors/subscription_buffer.rs", "bin/router/src/executor/executors/websocket_client.rs", "bin/router/src/executor/execution/plan.rs"],
         mech=[("serve subscriptions over SSE", "bin/router/src/pipeline/sse.rs"), ("serve them over WebSocket", "bin/router/src/pipeline/websocket_server.rs"), ("fan events out and end the upstream", "bin/router/src/pipeline/active_subscriptions.rs"), ("resolve an event's other fields", "bin/router/src/executor/execution/plan.rs"), ("read a subgraph's multipart stream", "bin/router/src/executor/executors/multipart_subscribe.rs")],
         observe=["the clients' streams, strictly parsed", "the number of upstream streams open at the mock subgraph"],
         technique="property-based testing: generated operations, event scripts, framings and client histories through the running router, against the reference executor and a model of the streams",
         note="Bounds: 2-6 operations of one root field, 0-12 events each (below the broadcast capacity, whose overflow is documented to drop events); in lifecycle 1-9 clients on 1-2 topics. Timing limits are 12 s for what takes milliseconds."),
]
NOT_APPLICABLE = []
