import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],state=state or [],hook_needed=None)))
L="src/reactpy/core/layout.py"; H="src/reactpy/core/hooks.py"; LC="src/reactpy/core/_life_cycle_hook.py"; V="src/reactpy/core/vdom.py"
p("C01","A client that applies every update converges to the rendered view",
 "Applying the layout's update messages in the order they are emitted, starting from an empty document, always succeeds and - once the server is idle - yields exactly the tree that the live components describe for their current state, props and context. This holds in both rendering modes, for any interleaving of state changes, events, effect-driven changes and slow consumption of updates, and no update that is older than one already emitted may overwrite newer content.",
 ["programs","histories","schedules","configurations"],"every component tree, every sequence and interleaving of state changes / deliveries / update pulls, both REACTPY_ASYNC_RENDERING modes, REACTPY_DEBUG on and off",
 "Tests replay a handful of fixed component trees with one update pulled right after each change; the guarantee is about all trees, all interleavings and slow consumers.",
 [L,"src/reactpy/core/serve.py","src/reactpy/types.py"],[("one update per component render with a JSON-pointer path",L+":Layout._create_layout_update"),("parallel / serial scheduling of renders",L+":Layout._parallel_render, _serial_render, _schedule_render_task")],
 ["Layout.render() messages"])
p("C02","Component state survives re-renders exactly when identity is kept",
 "When an ancestor re-renders, a component at the same place among its siblings - identified by its key, or by its position when it has no key - and of the same component type keeps its state, refs and effects, whatever reordering, insertion, removal or prop change happened around it. If its key, the key of any element or component enclosing it, its component type, or the kind of node at that place changes, or it disappears, the old instance is unmounted exactly once and a fresh instance starts from its initial state. Two siblings with the same key are reported as an error rather than sharing or mixing state.",
 ["programs","histories"],"every sequence of tree shapes (keyed / unkeyed / mixed children, elements, components, text, None) rendered one after another",
 "Tests check a few hand-picked transitions (a reorder, a type switch); identity has to be right for every pair of consecutive trees and every history of them.",
 [L],[("children matched by key or index",L+":_get_children_info, Layout._render_model_children"),("type switch unmounts",L+":Layout._render_component, _render_model"),("unmount walk",L+":Layout._unmount_model_states")],["iid/state echoed in Layout.render() models","effect cleanups"])
p("C03","Effects start after render and are cleaned up exactly once",
 "Each effect runs after the render that requested it, runs again only when its dependencies changed (always when there are none, once for an empty list), and before it runs again the cleanup returned by its previous run has been executed. For every effect run that produced a cleanup, that cleanup is executed exactly once, at the latest when its component is unmounted or the layout is closed, and after that no effect of the component is active; an async effect is cancelled at that point unless shielded, in which case it is awaited. Overlapping runs of one async effect never happen and no cleanup is lost, also when re-renders arrive while earlier runs are still in progress, or when the task that serves the layout is cancelled, even while the layout is closing.",
 ["histories","schedules","programs"],"every mix of sync, async and shielded effects with any dependency sequence, any timing of effect completion relative to re-renders, unmounts and layout exit",
 "Tests use one effect, one timing. Lost or doubled cleanups appear only for particular overlaps of pending effects with re-renders and unmounts.",
 [H,LC,L],[("effect tasks and stop events",LC+":LifeCycleHook.affect_layout_did_render, affect_component_will_unmount"),("cleanup ref and pending task",H+":use_effect, use_async_effect")],["effect/cleanup log"])
p("C04","Events reach exactly the handler that is currently shown, in order",
 "Every event target in the view a client holds identifies exactly one handler: delivering an event to it runs, once, the handler of the most recent render of that very element (keyed siblings keep their targets when reordered) with the event's data unchanged. Events delivered to one target run one at a time in delivery order while a slow handler does not block other targets, and a handler that raises does not stop later events or affect other components. An event for an element that no longer exists is ignored without disturbing the rest of the view.",
 ["histories","schedules","programs"],"every tree of elements with handlers (any keys and event names), any sequence of renders and deliveries, sync / async / failing / slow handlers",
 "Tests deliver one or two events to a known target; collisions between targets, stale handlers and ordering under load need arbitrary trees and histories.",
 [L,"src/reactpy/core/events.py"],[("targets derived from the key path",L+":Layout._render_model_attributes"),("one queue and task per target",L+":Layout.deliver, _process_event_queue")],["handler invocation log"])
p("C05","A failing component is contained and can recover",
 "If a component raises while rendering (or produces an invalid tree), only its own place in the view shows an error node - carrying the message in debug mode and none otherwise - while siblings, ancestors and later updates keep working and the layout keeps accepting events. When a later render of that component succeeds the view is again exactly what the components describe, with no handlers, effects or updates left over from the content that the failure removed.",
 ["programs","histories","fault_sequences"],"every tree and every subset of renders that raise, at any depth, before or after children were rendered, repeatedly",
 "Tests raise once in one fixed child. Leaks and mis-directed updates only show up after failure / recovery sequences in nested trees.",
 [L],[("try/except around rendering",L+":Layout._render_component")],["Layout.render() messages","effect log"])
p("C06","State updates are never lost and redundant ones cause no render",
 "The value a component sees in a render is the result of applying, in call order, every state update issued before that render began; functional updates and reducers always receive the latest value, and updates to one component never alter the state of another. Several updates issued before a component re-renders are batched into one render, setting a value equal to the current one schedules no render, and each real change is eventually rendered. Setting state of an unmounted component never disturbs the layout.",
 ["histories","schedules"],"every sequence of direct, functional, reducer, toggle/linked-state updates from handlers, effects and outside code, interleaved with renders",
 "Tests issue one or two updates; lost-update and missed-render bugs depend on when updates fall relative to a render in progress.",
 [H,LC,L],[("dispatch compares and schedules",H+":_CurrentState.dispatch, use_reducer"),("scheduled flag",LC+":LifeCycleHook.schedule_render")],["values seen by renders, render counts"])
p("C07","Memoised values, callbacks and refs change exactly with their dependencies",
 "A memoised value or callback is recomputed on the first render, whenever the number of dependencies changes or any dependency differs (by type or by value) from the one of the last computation, on every render if dependencies are absent, and on no other render; inferred dependencies are the variables the function closes over. References and constant initial values are created once per component instance and the same object is returned on every later render. Each hook call of a component keeps its own slot, independent of all others.",
 ["histories","inputs"],"every sequence of dependency lists over mixed value types and lengths, every combination of several hooks in one component",
 "Tests use integer dependencies that change once; comparison across types, lengths, special values and long histories is not sampled.",
 [H],[("dependency comparison",H+":use_memo, strictly_equal, _try_to_infer_closure_values"),("slot order",LC+":LifeCycleHook.use_state")],["memo recomputation log"])
p("C08","Context consumers see the nearest enclosing provider's current value",
 "A component reading a context gets the value of the nearest enclosing provider of that context as of that provider's latest render, or the context's default when no provider encloses it, independently for each context. After a provider's value changes or providers are added, removed, nested or moved, every consumer shows the right value once the layout is idle, including consumers that re-render on their own. Providers add no node of their own content and never leak to components outside their subtree.",
 ["programs","histories"],"every nesting of several contexts, providers and consumers, with value changes and structural changes between renders",
 "Tests use one or two providers in a fixed shape; nesting, shadowing, removal of a provider above a surviving consumer are not enumerated.",
 [LC,H,"src/reactpy/types.py"],[("providers inherited through the hook stack",LC+":LifeCycleHook.set_current, get_context_provider"),("provider component",  "src/reactpy/types.py:ContextProvider")],["values seen by consumers"])
p("C09","Everything sent to the client is valid, self-contained JSON",
 "Each update message serialises to JSON and back without change, its model conforms to the published VDOM JSON schema, and its path locates an existing node of the document built from the earlier messages. Text children appear as strings and None children are absent; attributes, inline scripts, import sources and event-handler flags (target, preventDefault, stopPropagation, debounce, throttle) reach the client exactly as declared. Input elements carry the highest event sequence number received so far for their handlers, never a lower one.",
 ["programs","histories","configurations"],"every tree of supported node kinds and attribute values, debug checks on and off, any sequence of sequence-numbered events",
 "Tests compare a few literal messages; schema conformance and fidelity for all node kinds and histories is not sampled.",
 [L,V,"src/reactpy/types.py"],[("model construction",L+":Layout._render_model, _render_model_attributes, _serialize_event_handler, _inject_event_ack_seq"),("schema",V+":VDOM_JSON_SCHEMA, validate_vdom_json")],["Layout.render() messages"])
p("C10","Element constructors normalise their arguments without loss",
 "Building an element from an optional leading attribute mapping and any nesting of children yields exactly those attributes and the children flattened in order, nothing dropped, duplicated or mutated; callables and event handlers become event handlers, string 'on...' values and inline scripts become inline scripts, and everything else stays an attribute. Tags that cannot have children reject them, script and style contents stay text, fragments keep only their children and key, and the caller's own arguments are never modified. Building from equal arguments twice gives equal, independent results.",
 ["inputs"],"every tag, attribute mapping and nested children structure (lists, tuples, generators, text, numbers, None, components)",
 "Tests construct a dozen literal elements; argument shapes are an unbounded product.",
 [V,"src/reactpy/_html.py","src/reactpy/types.py"],[("argument separation and flattening",V+":separate_attributes_and_children, separate_attributes_handlers_and_inline_javascript, _flatten_children"),("special tags","src/reactpy/_html.py")],["VdomDict contents"])
p("C11","HTML text is converted to VDOM faithfully",
 "Converting well-formed HTML text to VDOM preserves the element structure, text and attribute values in document order: class, for, data-*, aria-*, style and other attribute names map to their documented VDOM names, inline event attributes become inline scripts, and a multi-rooted fragment keeps all roots. Form defaults (input value/checked, textarea text, selected options) become the corresponding default props so the rendered form starts in the same state, and no well-formed form markup makes the conversion fail. Transforms are applied in order to every node, and malformed markup such as a stray closing tag is rejected only in strict mode.",
 ["inputs"],"every well-formed HTML fragment over the HTML element set with arbitrary attributes, nesting, entities and form controls",
 "Tests convert a dozen literal snippets.",
 ["src/reactpy/utils.py","src/reactpy/transforms.py"],[("parsing","src/reactpy/utils.py:string_to_reactpy"),("required transforms","src/reactpy/transforms.py:RequiredTransforms")],["VDOM produced by string_to_reactpy"])
p("C12","VDOM is rendered to well-formed HTML with all data escaped",
 "Rendering a VDOM tree to an HTML string and parsing it back yields the same elements, in the same order, with the same attribute values and text - including every character that is special in HTML - so data can never break out of its attribute or text position. VDOM attribute names become their documented HTML names, style mappings become CSS declarations, event handlers do not appear, attributes without a value are left out, components and fragments contribute just their content, and None children contribute nothing.",
 ["inputs"],"every VDOM tree of standard elements with arbitrary text and attribute values, nested components and fragments",
 "Tests render a few literal trees with harmless text.",
 ["src/reactpy/utils.py"],[("serialisation","src/reactpy/utils.py:reactpy_to_string, _add_vdom_to_etree, _generate_child, _vdom_attr_to_html_str")],["string returned by reactpy_to_string"])
p("C13","Handlers declare to the browser exactly the flags their code requests",
 "For any handler function or coroutine, preventDefault and stopPropagation are reported if and only if they were requested explicitly or the handler calls them on its event argument, and a debounce assigned on the event argument is reported when it is one unambiguous constant, default or captured integer (an explicit value stands otherwise). Wrapped handlers receive the event data they declare, sync and async alike, and any callable is accepted. Merging handlers runs each of them exactly once with the same data and refuses differing options.",
 ["programs","inputs"],"every handler body over the supported forms (plain, coroutine, partial, method, lambda, decorated; calls and assignments nested in any control flow)",
 "Tests inspect about a dozen literal functions; detection is over program text and must hold for every body.",
 ["src/reactpy/core/_event_inspect.py","src/reactpy/core/events.py"],[("bytecode inspection","src/reactpy/core/_event_inspect.py:inspect_event_handler"),("wrapping and merging","src/reactpy/core/events.py:EventHandler, to_event_handler_function, merge_event_handlers")],["EventHandler attributes"])
p("C14","Configuration options follow one consistent value model",
 "An option's value is, in order of precedence, the value last set on it, the value of its environment variable when it was created, its parent's value when it was created, or its default (for a child, that of its parent); every value that enters from the environment or by setting is validated and converted, and an invalid one is rejected leaving the option unchanged. A change of a parent sets its children, every change is reported to each subscriber exactly once with the new value, unsetting falls back to the default, reloading takes the environment's value or the default, set-default changes only an unset option and returns the current value, and immutable options never change.",
 ["histories","configurations"],"every sequence of set / unset / set-default / reload / subscribe operations on trees of options with any environment",
 "Tests exercise each operation once; precedence and propagation depend on the history.",
 ["src/reactpy/_option.py","src/reactpy/config.py"],[("option model","src/reactpy/_option.py:Option")],["Option.current, is_set, subscriber calls"])
p("C15","Requests reach only what was exposed",
 "Websockets addressed to a component and requests for static or module files under the ReactPy prefix are answered by ReactPy and all others are passed to the wrapped application (or, standalone, to the route that matches the whole path) unchanged, for any configured prefix. A websocket can only start a root component that was registered (any other name is refused without importing anything), served static and module files come only from their configured directories - no request path can read a file outside them - and unknown files give 404. The location and scope that components observe equal what the client's connection supplied.",
 ["inputs","configurations"],"every request path (including encoded, dotted and absolute path segments), prefix configuration and component name",
 "Tests request one valid and one invalid file; containment and routing quantify over all paths.",
 ["src/reactpy/executors/asgi/middleware.py","src/reactpy/executors/asgi/standalone.py","src/reactpy/executors/utils.py"],[("dispatch by pattern","src/reactpy/executors/asgi/middleware.py:ReactPyMiddleware"),("static/web-module apps","src/reactpy/executors/asgi/middleware.py:StaticFileApp, WebModuleApp")],["ASGI messages"])
p("C16","The standalone page is a correct, cacheable HTTP response",
 "The standalone index page contains the configured language, head content and mount point, and every client setting in the mount script is exactly the configured value. Its content-length header equals the number of body bytes, HEAD returns the same headers as GET with no body, and a conditional request carrying the current etag gets 304 with no body while any other gets the full page; the etag identifies the content and is stable for one application. Extra headers are sent as given and user-registered routes, websockets and lifespan handlers are served by their own apps, the first registered route whose pattern fits serving the request.",
 ["inputs","configurations"],"every configuration of language, head elements (any text), headers and settings, and every method / conditional header",
 "Tests make one HEAD and one conditional request with ASCII content.",
 ["src/reactpy/executors/asgi/standalone.py","src/reactpy/executors/utils.py"],[("index rendering and etag","src/reactpy/executors/asgi/standalone.py:ReactPyApp"),("mount script","src/reactpy/executors/utils.py:asgi_component_html, vdom_head_to_html")],["HTTP response"])
p("C17","Each connection is an isolated session that ends cleanly",
 "Every websocket connection gets its own layout: state, events and updates of one connection never show up in another, each connection's updates arrive in the order they were rendered, and events sent by its client reach only its own handlers in order. However a connection ends - client disconnect, malformed message, component or transport failure, at any moment - all effects of that session are cleaned up, its background work stops and other sessions and later connections are unaffected.",
 ["histories","schedules","fault_sequences"],"every number of concurrent connections, interleaving of their messages, and point and kind of termination",
 "Tests use one browser connection at a time and one disconnect.",
 ["src/reactpy/executors/asgi/middleware.py","src/reactpy/core/serve.py",L],[("per-connection dispatcher","src/reactpy/executors/asgi/middleware.py:ReactPyWebsocket, ComponentDispatchApp"),("serve loop","src/reactpy/core/serve.py:serve_layout")],["websocket frames","effect log"])
p("C18","JavaScript modules resolve to the right source, exports and URLs",
 "A component created from a JavaScript file, string, URL or package refers to the source it was created from: the served module holds that content, its fallback and update options are those given for it, a URL is passed through unchanged and requested names are checked against exactly the names the module exports, directly or by re-export. Export discovery finds every exported name of the export statement forms of the language and no other name: the word export inside code, strings or comments is not taken for a statement, layout does not matter. It resolves re-exports relative to the module that contains them. Concurrent or repeated creation yields the same usable module. The import map that import_reactjs gives maps react, react-dom, react-dom/client and react/jsx-runtime to exactly the chosen framework and version or to ReactPy's own copy.",
 ["inputs","histories"],"every module text over the supported export grammar, every relative / absolute import specifier, any order of module registrations",
 "Tests parse a few fixture files.",
 ["src/reactpy/reactjs/module.py","src/reactpy/reactjs/utils.py","src/reactpy/reactjs/__init__.py"],[("module creation","src/reactpy/reactjs/module.py"),("export regexes and URL normalisation","src/reactpy/reactjs/utils.py")],["constructor VDOM, files in web module dir, resolver results"])
p("C19","The codemods change only what they claim to change",
 "Running a source-rewriting tool on any valid Python file either leaves it untouched or produces a valid Python file whose program differs from the original only by the documented rewrite of element attributes / keys; comments, formatting and code outside the rewritten calls stay byte-for-byte the same. Every rewritable call is rewritten, keys of standard elements that had to be left are announced with their line, running the tool again changes nothing, and only Python files below the given paths are visited.",
 ["programs"],"every Python program containing element-constructor calls in any syntactic context, layout and formatting",
 "Tests use about twenty literal snippets.",
 ["src/reactpy/_console/ast_utils.py","src/reactpy/_console/rewrite_keys.py","src/reactpy/_console/rewrite_props.py"],[("AST search + text splice","src/reactpy/_console/ast_utils.py:rewrite_changed_nodes, find_element_constructor_usages"),("key rewrite","src/reactpy/_console/rewrite_keys.py"),("prop rewrite","src/reactpy/_console/rewrite_props.py")],["rewritten source"])
p("C20","PyScript pages carry the given program and settings unaltered",
 "The Python code embedded in a PyScript page behaves exactly as the component source files the author supplied - joining several files and minifying them changes no string, no value and no control flow (docstrings and line numbers excepted) - and, once the browser decodes the page, the configuration is valid JSON containing every requested package, option and JavaScript module with the user's top-level entries overriding defaults. Nothing the author passed in is modified. The named root is the component that is started and initial markup is included as given.",
 ["programs","inputs"],"every Python source (any string literals, comments, indentation), dependency list, config mapping and initial content",
 "Tests check the page for a couple of substrings.",
 ["src/reactpy/executors/pyscript/utils.py","src/reactpy/executors/pyscript/components.py","src/reactpy/executors/asgi/pyscript.py"],[("executor / config rendering","src/reactpy/executors/pyscript/utils.py")],["rendered HTML, decoded script"])
p("C21","The browser client shows exactly the model the server sent",
 "Applying server updates to the client's document replaces exactly the addressed node - including the root, where nothing of the previous root may remain - and leaves all other nodes unchanged. The client creates for each model node the element, text, error, fragment, script or input the model describes with its attributes and handlers; each declared handler sends exactly one message with its own target and the serialised event, honouring preventDefault and stopPropagation, and handlers are never invoked for other elements. Invoking inline scripts happens with the element as this and the event available.",
 ["histories","inputs"],"every sequence of valid updates and every model tree",
 "Browser tests (unavailable offline) check a few pages.",
 ["src/js/packages/@reactpy/client/src/components.tsx","src/js/packages/@reactpy/client/src/vdom.tsx"],[("update application","src/js/packages/@reactpy/client/src/components.tsx:Layout"),("element and handler creation","src/js/packages/@reactpy/client/src/vdom.tsx")],["client model, created elements, sent messages"])
p("C22","The browser connection delivers every message and reconnects as configured",
 "Messages a client sends are transmitted exactly once and in order, those issued while the socket is not open being kept until it is. After a lost connection the client retries with delays that follow the configured interval and multiplier, never exceed the configured maximum, stop after the configured number of retries, and start over after a successful connection; only one connection is active at a time. Every received message reaches all handlers registered for its type.",
 ["histories","schedules","fault_sequences","configurations"],"every sequence of open / close / error / send / receive events and every reconnect configuration",
 "No test covers the reconnect or queueing logic with generated histories.",
 ["src/js/packages/@reactpy/client/src/websocket.ts","src/js/packages/@reactpy/client/src/client.ts"],[("reconnecting socket","src/js/packages/@reactpy/client/src/websocket.ts"),("message queue","src/js/packages/@reactpy/client/src/client.ts")],["frames sent, timers set"])
p("C23","DOM events are serialised to bounded, acyclic, faithful JSON",
 "Serialising any DOM event terminates and gives a finite JSON value for any object graph - cyclic, deep, with throwing getters or hostile members - in which no branch is deeper than the depth limit. Every primitive property within the limit keeps its value, list-like values stay lists with their elements in order, and functions, windows, nodes' internals and private members are left out; the target's value, checked state, files, form elements and selection are reported as they are.",
 ["inputs"],"every object graph reachable from an event and every depth limit",
 "The few tests build fixed DOM events.",
 ["src/js/packages/event-to-object/src/index.ts"],[("recursive conversion","src/js/packages/event-to-object/src/index.ts")],["converted object"])
p("C24","User input is never overwritten by stale server values",
 "While the server has not acknowledged the latest event of an input element's current handlers - including an event whose throttled or debounced message is still to be sent - the value and checked state that the server sends do not replace what the user entered; when an update acknowledges them (or the handlers or the element that received them are gone), the server's value is shown, and later server values always win again. A throttled handler sends at most one message per interval, the first event immediately and at the end of each interval the latest one; a debounced handler of an input element sends one message, with the latest event, once no event occurred for its window; both keep their windows and the order of events across renderings in between, and every other handler sends each event immediately. Events that are held back are still subject to the handler's preventDefault and stopPropagation, and are sent complete. Sequence numbers increase with every message an input element's handlers send.",
 ["histories","schedules"],"every interleaving of keystrokes, server updates, acknowledgements and timer expiries",
 "Browser tests type a few fixed strings.",
 ["src/js/packages/@reactpy/client/src/components.tsx","src/js/packages/@reactpy/client/src/vdom.tsx"],[("user input element","src/js/packages/@reactpy/client/src/components.tsx:UserInputElement"),("throttle","src/js/packages/@reactpy/client/src/vdom.tsx")],["displayed value, messages sent"])
p("C25","Imported JavaScript components are bound once, kept current and unmounted",
 "Each component imported from a JavaScript module is bound once its module has loaded, shows the given fallback (or nothing) until then, and from then on always shows the latest model - attributes, handlers and children, including children imported from the same or another module, errors and text - without losing its state when it stays where it is. It is unmounted exactly once when it is removed or comes from another source and never rendered after that, at most one binding is active in one place, and with unmountBeforeUpdate it is unmounted before every update. A module that cannot be loaded, lacks the component or gives an unusable binding affects nothing else. A handler passed to an imported component sends exactly one message per call, with the arguments it was called with. A module can send and receive messages through the context it is bound with, and its binding may be an object whose methods use `this`.",
 ["histories","schedules","fault_sequences"],"every sequence of updates, load delays and failures, every nesting of imported components and every way of calling their handlers",
 "Browser tests (unavailable offline) load a few fixture modules that never fail late or change.",
 ["src/js/packages/@reactpy/client/src/components.tsx","src/js/packages/@reactpy/client/src/vdom.tsx","src/js/packages/@reactpy/client/src/bind.tsx"],[("import source effects","src/js/packages/@reactpy/client/src/components.tsx:useImportSource"),("nested imports","src/js/packages/@reactpy/client/src/vdom.tsx:ReactPyChild, createImportSourceElement")],["bindings: bind / render / unmount calls, created elements, sent messages"])
p("C26","PyScript components show their state, stay apart and stop when removed",
 "A PyScript component is run by the Python code that the page carries. After each of its renders its container in the document shows exactly what the component renders now - text, elements, fragments, styles and attributes, those that are None or False being absent - and an event at an element reaches exactly the handler that is given for it now, once, also if the element was there before; the handler's options to prevent the default action or to stop the propagation are honoured. Components on one page share no state and no names, even if their files define the same ones. When another component starts, those that are no longer on the page are stopped: their effects are cleaned up and their code is deleted, while all others go on undisturbed.",
 ["histories","programs"],"every sequence of mounting, using and removing components, every tree they render and every change between two renders",
 "The tests need a browser and the network, and render a counter and a fixed component.",
 ["src/reactpy/executors/pyscript/layout_handler.py","src/reactpy/executors/pyscript/component_template.py","src/reactpy/executors/pyscript/utils.py"],[("rendering and events","src/reactpy/executors/pyscript/layout_handler.py:ReactPyLayoutHandler"),("workspaces","src/reactpy/executors/pyscript/component_template.py")],["document, effect log"])
p("C27","Linked inputs stay in step and images carry exactly their data",
 "use_linked_inputs returns one input for each given set of attributes, in order, with these attributes and handlers, and leaves the given ones as they are. All inputs of a group show the text that was last typed into any of them (the initial one before), also after the number or the attributes of the inputs changed. on_change is called once for each text, with the cast text and as of the current render - unless the text is empty and empty texts are ignored, which they are by default, or it cannot be cast; a failing cast or on_change does not keep the inputs from following. An image's source is a data URL that decodes to exactly the given bytes or text (UTF-8), of the given format ('svg' is image/svg+xml); all its attributes, its key and its event handlers work as for any other element, and attributes given take precedence.",
 ["inputs","histories"],"every sequence of typed texts, every set of inputs and every change of them; every content, format and set of attributes of an image",
 "The tests type one word into two inputs (in a browser, unavailable offline) and compare one image.",
 ["src/reactpy/widgets.py"],[("linked inputs","src/reactpy/widgets.py:use_linked_inputs"),("images","src/reactpy/widgets.py:image")],["updates sent to the client, calls of on_change"])
p("C28","Testing utilities report what really happened, and nothing else",
 "assert_reactpy_did_log fails exactly if no record logged to ReactPy's loggers in its own body fits the message pattern, exception type and error pattern together, at any level; assert_reactpy_did_not_log fails exactly if one does; errors of the body - failed assertions included - are raised unchanged. Records of an enclosing capture are not those of the inner one, those of an inner one are gone afterwards, and the logger's level and handlers are restored. list_logged_exceptions returns each fitting exception, in order, and deletes exactly their records (or none). poll evaluates its function - plain, asynchronous, or returning an awaitable - once per delay with the given arguments until the condition holds, and raises TimeoutError with the last value only when a value obtained after the timeout does not satisfy it. A BackendFixture serves from when it is entered (or restarted) until it is left, then has stopped its server, and raises LogAssertionError if an exception was logged that was not listed; one that fails to start leaves nothing behind. A HookCatcher gives the hook of the last render (and of the last one per keyword), and a StaticEventHandler keeps its target while the function of the last render is called.",
 ["histories","schedules","fault_sequences"],"every nesting of captures and assertions with any records and errors, every sequence of polled values and delays, every history of a fixture",
 "The tests use each utility in one or two ways; they would pass unnoticed if the utilities stopped noticing.",
 ["src/reactpy/testing/logs.py","src/reactpy/testing/common.py","src/reactpy/testing/backend.py"],[("logs","src/reactpy/testing/logs.py:capture_reactpy_logs"),("poll","src/reactpy/testing/common.py:poll"),("fixture","src/reactpy/testing/backend.py:BackendFixture")],["outcome of each assertion, records, times of calls, state of the server"])
p("C29","The wheel that PyScript pages load matches the code",
 "Unless the configuration names a reactpy package itself, every PyScript configuration names a wheel by a URL under the path prefix, and that wheel exists, is of the current version, and - when a page that is started afterwards loads it - contains exactly the sources that a checkout had when one of them was last added or changed, or exactly the files of the installed distribution, with correct metadata and hashes. A wheel that is current is reused and not built again; after a source was added or changed and after a change of version a new one is built, and other reactpy wheels are removed, while files that are none stay. If no wheel can be made, RuntimeError is raised. At no time - not after a crash at any point, and not while any number of processes do the same - does a wheel of the current name hold half of its contents, and none of these processes fails because of another one. The environment of the process is the same afterwards.",
 ["histories","crash_points","schedules"],"every history of edits, versions, builds and existing wheels, every crash point and every interleaving of processes",
 "The tests replace the whole build by stubs and check one path after the other.",
 ["src/reactpy/executors/pyscript/utils.py"],[("the wheel","src/reactpy/executors/pyscript/utils.py:_ensure_local_reactpy_wheel"),("rebuilding an installed distribution","src/reactpy/executors/pyscript/utils.py:_rebuild_installed_reactpy_wheel")],["the URL in the configuration, the wheel's contents, files in the static directory"])
p("C30","Long-lived sessions release what is no longer shown",
 "What removed components, replaced values and handlers, ended effects, handled, unknown or late events, closed layouts and ended connections and requests referred to is released while the layout, the other connections and the application go on: nothing that the author's code created for a component that is not shown any more stays referenced, whatever hooks, events, failures and wrappers it used. A history that ends in the view it began with may be repeated for as long as one likes without leaving more behind each time, and of a closed layout or connection nothing is left.",
 ["histories","schedules"],"every history of adding, removing, moving, updating and failing components, of events, and of connections and requests that come and go",
 "Tests check single references after one removal at most.",
 ["src/reactpy/core/layout.py","src/reactpy/core/_life_cycle_hook.py","src/reactpy/core/hooks.py","src/reactpy/executors/asgi/middleware.py"],[("unmounting","src/reactpy/core/layout.py:Layout._unmount_model_states"),("event queues","src/reactpy/core/layout.py:Layout.deliver"),("effects","src/reactpy/core/_life_cycle_hook.py:LifeCycleHook"),("connections","src/reactpy/executors/asgi/middleware.py:ReactPyWebsocket")],["weak references to the author's objects, number of objects and of container elements"])
p("C31","States may be set in any thread, and layouts in different threads stay apart",
 "Setting the state of a component in another thread than the one of its layout's event loop - a worker thread or a thread with an event loop of its own - has the effect that setting it in the loop has, in both rendering modes and at whatever point of a render or of another update the threads meet: the setter returns without an error (also while the layout is closed), nothing is logged as one as long as no layout is closed, and the layout's own loop, in its own thread, renders the component until the client shows the value that was set last. Layouts that run in different threads at the same time never see each other's states, contexts or hooks, and each goes on rendering.",
 ["histories","schedules"],"every history of states set by workers, by other layouts' loops and by the own one, and every point at which two threads change places",
 "No test sets a state in another thread or runs two layouts in two threads.",
 ["src/reactpy/core/layout.py","src/reactpy/core/_life_cycle_hook.py","src/reactpy/core/hooks.py"],[("scheduling renders","src/reactpy/core/layout.py:Layout._schedule_render_task"),("queue for serial rendering","src/reactpy/core/layout.py:_ThreadSafeQueue"),("pending renders","src/reactpy/core/_life_cycle_hook.py:LifeCycleHook.schedule_render"),("hook stack","src/reactpy/core/_life_cycle_hook.py:_HookStack")],["updates sent to the client, thread and loop of each render, log"])
json.dump(P,open('/tmp/props.json','w'))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
