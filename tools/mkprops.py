#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None}})
ENG = "collagraph/collagraph.py"
COMP = "collagraph/component.py"

prop("C01", "A settled tree is exactly the tree the current description describes",
 "After any sequence of state changes, and once pending work has been done, the rendered tree has exactly the element types, sibling order, attributes and text that the current description gives: the same tree as a fresh render of the current state. This holds for plain elements, text, templates (which add no element of their own), function components and class components, nested in any way and with any mix of keyed, unkeyed, inserted, removed, replaced and reordered children.",
 ["inputs", "histories"], "All descriptions built from elements, text, templates, function and class components with or without keys, and all sequences of mutations of the state they read.",
 "The tests check some thirty fixed trees with one or two changes each; the order of insertions, moves and removals depends on the whole previous tree and on where element-less nodes sit in it.",
 [ENG, "collagraph/renderers/dict_renderer.py"],
 [("reconcile_children / create_ops: matching by key and computing moves", ENG), ("commit_root / commit_work / commit_deletion", ENG)], ["the container passed to render()"])

prop("C02", "Elements and component instances keep their identity across updates",
 "Across an update, a child that keeps its key (unique among its siblings) and its type keeps the very same element and, for a class component, the same instance with its local state; children without a key are paired in order with the previous children without a key. A child whose type changed, or whose key was not there before, always gets a new element or instance, and never one that showed another item.",
 ["histories"], "All sequences of reorderings, insertions, removals and type changes over lists of keyed and unkeyed children of elements, templates and components.",
 "Tests check identity for a few fixed permutations and compare trees by value, so handing an item another item's element or component state is invisible to them.",
 [ENG], [("compare(): pairing by key, reuse of the old fiber's dom and component", ENG)], ["element identity in the container", "component instances' state"])

prop("C03", "Renderers only ever see well-formed instructions",
 "Whatever the history, a renderer is asked to insert only elements that it created and that are not attached anywhere, before an anchor that currently is a child of the same parent; to remove only current children of the given parent; and to remove only attributes and listeners that are currently set on that element, with the value they were set to. Elements that were removed for good are never touched again.",
 ["histories", "inputs"], "All descriptions and all histories of state changes and re-renders, for any renderer that implements the documented interface, including renderers whose elements compare equal, are unhashable or are falsy.",
 "The tests only use the built-in renderers on a few histories; a wrong anchor, double removal or stale listener passes unnoticed with forgiving containers.",
 [ENG, "collagraph/renderers/__init__.py"], [("commit_work, commit_deletion, update_dom_or_component", ENG)], ["calls on the Renderer interface"])

prop("C04", "Updates touch only what changed",
 "When the state changes, only elements whose own attributes, text, listeners or place relative to their siblings differ between the previous and the current description are touched; every other element gets no renderer call at all, and an attribute is set only when its value differs from the previous one. A re-render that yields the same description makes no renderer call.",
 ["histories"], "All histories of state changes and repeated renders, including those in which inline event handlers are created anew with the same code and captured values.",
 "The tests assert the final tree only, so needless removal and re-creation, re-insertion or re-setting goes unseen.",
 [ENG, "collagraph/compare.py"], [("is_new / attrs_to_update / equivalent handlers / create_ops", ENG)], ["calls on the Renderer interface"])

prop("C05", "An event reaches exactly the handlers of the current description",
 "At any settled moment, firing an event on an element, or a component emitting an event, calls exactly once the handler (at most one per event) that the current description gives for that event, with the passed arguments, and calls nothing if the current description gives none. Handlers of earlier descriptions are never called again and no handler stays registered twice.",
 ["histories"], "All histories in which handlers (plain functions, lambdas with captured values, bound methods, partials) appear, change, are recreated equivalently and disappear, on elements and on components.",
 "Tests replace a handler once on a single element; stale handlers arise from sequences such as equivalent, then changed, then removed.",
 [ENG, COMP, "collagraph/compare.py"], [("events_to_add / events_to_remove and is_equivalent_event_handler", ENG), ("Component.emit / add_event_handler / remove_event_handler", COMP)], ["handler invocations"])

prop("C06", "Only handlers that behave the same are treated as interchangeable",
 "Two callables are judged equivalent only if calling either with the same positional arguments has the same effect (as long as captured variables are not rebound): the same code, constants, defaults, captured values, globals, and receiver for bound methods, and the same parts for partials. Callables created by evaluating the same expression again with the same captured values are judged equivalent, and judging never raises, also for recursive or self-referring closures.",
 ["inputs", "programs"], "All pairs of Python callables: functions and lambdas with defaults and keyword defaults, closures over values and over functions, bound methods, partials, builtins and callable objects.",
 "The tests try about ten pairs; a false 'equivalent' silently keeps a stale handler and shows only with the particular pair.",
 ["collagraph/compare.py"], [("equivalent_functions / equivalent_code / equivalent_closure_values", "collagraph/compare.py")], ["equivalent_functions(a, b)"])

prop("C07", "Life-cycle hooks run once, at the right moment and in the right order",
 "Every class component instance gets exactly one mounted call, after its elements are in place and after those of its descendants, and exactly one before_unmount call, before its elements are removed; no hook is called before mounted or after before_unmount. updated is called, at most once per update and children before parents, on every mounted component whose own elements or props changed in that update and on no component for which nothing changed; the element attribute always refers to the component's current root element.",
 ["histories"], "All histories that mount, update, move, replace and unmount trees of nested components, also when a hook itself changes state.",
 "Tests use one or two fixed component trees; ordering and exactly-once behaviour depend on the shape of the tree and on which branches a given update touches.",
 [ENG, COMP], [("commit_root's component hook walk; commit_deletion's before_unmount traversal", ENG)], ["mounted / updated / before_unmount calls", "Component.element"])

prop("C08", "A component sees exactly its current props and keeps its state to itself",
 "After any update, a component's props are exactly the attributes (other than event handlers) its parent's current description gives it, including later changes inside nested reactive values, and are read-only for the component. Every instance has its own local state; no render or re-order ever changes a data object that the user passed as props, nor another instance's state or props.",
 ["histories"], "All histories of props appearing, changing (replaced or mutated in place, at any depth) and disappearing for any number of instances of the same component class, moving among their siblings.",
 "Tests change one or two scalar props once; aliasing between instances and detached nested values show up only after particular sequences.",
 [ENG, COMP], [("update_dom_or_component for components; Component.__init__ readonly props", ENG)], ["Component.props, Component.state, the rendered tree"])

prop("C09", "Sliced and interleaved work loses no update and shows no half-done tree",
 "With an event loop, work that takes longer than a time slice is cut into slices, at any point, and state may change between any two slices: the rendered tree changes only in one go when an update is complete, and once the loop is idle the tree shows the latest state. The callback passed to render is called only when the tree is settled, and after every update that changed it, and a state change made while an update is being applied is not lost either.",
 ["schedules", "histories"], "All interleavings of work slices of any length with state changes and render calls, including state changes made from life-cycle hooks and from the completion callback.",
 "Tests run the loop with a fixed clock and one change at a time; the outcome depends on which units of work were already done when the state changed.",
 [ENG], [("work_loop / state_updated / prepare_next_iteration_of_work / _dirty", ENG)], ["the container between slices", "the render callback"])

prop("C10", "Every change that matters triggers an update, and no other change does",
 "Any change to reactive data (to an unequal value) that the last render read (in a component's render method or function, in props of an element given as reactive data, in slot content, in nested objects) leads to an update that shows it. A change to data that nothing in the currently shown tree reads, including data only read by removed components, runs no render function and makes no renderer call.",
 ["histories"], "All sequences of changes to reactive data with dependencies that appear, change branch and disappear over time.",
 "Tests make a few fixed dependency changes; whether a dependency is dropped or kept depends on the history of branches taken.",
 [ENG], [("watch() and the watchers held per fiber", ENG)], ["render function invocations", "the rendered tree"])

prop("C11", "Provide/inject and parent follow the component tree",
 "A component's parent is the nearest class component around it in the rendered tree (across elements, templates, function components and slots), or None for the outermost. inject(key) returns the value provided for that key by the nearest ancestor that provides it, never by the component itself, a sibling or a descendant, and otherwise the given default. Values that are reactive are followed.",
 ["inputs", "histories"], "All nestings of class components with other nodes in between, all placements of provided keys (including falsy values and shadowing), and histories that add and replace components.",
 "Tests use a chain of three components and one key.",
 [COMP, ENG], [("Component.inject / Component.parent", COMP), ("search for the parent component in update_class_component", ENG)], ["inject() results", "Component.parent"])

prop("C12", "Slots render the parent's content in the child's place",
 "Each slot of a component renders exactly the content its parent gives for that slot name, in the place where the slot stands among its siblings; in component files the slot's fallback content is shown if and only if the parent gives none; content given for names that have no slot is not rendered. Content is evaluated in the parent's scope, receives the slot props that render functions pass, keeps up with the state of both, and is passed on correctly when components nest.",
 ["inputs", "histories"], "All combinations of default and named slots, fallback content, dynamic and looped content, with and without render-function syntax, nested to any depth, over histories of state changes of parent and child.",
 "Tests use about eight fixed templates with at most two slots and no state changes.",
 [ENG, COMP, "collagraph/cgx/cgx.py"], [("render_slot / create_element with a dict of slots", ENG), ("call_render_slot, slots in convert_node_to_args", "collagraph/cgx/cgx.py")], ["the rendered tree"])

prop("C13", "A compiled template renders what its directives say",
 "A component loaded from a template renders, for every state and after every change, the tree its template describes: elements in document order, plain and bound attributes (bulk-bound ones merged in order of appearance), exactly one branch per if/else-if/else group, one copy per iteration of a for directive with the loop variables in scope for everything inside it, text with its moustache expressions substituted, and event directives as handlers. This holds for every combination of these, with any mix of siblings and nesting.",
 ["programs", "histories"], "All templates in the supported syntax (directives, nested loops, conditions, text, comments, components, expressions with lambdas and comprehensions) and all histories of the state they read.",
 "Tests use some twenty fixed templates; the compiler's output depends on the combination of neighbouring directives and on the names bound in expressions.",
 ["collagraph/cgx/cgx.py"], [("convert_node_to_args / create_control_flow_ast / args_for_text_element / RewriteName", "collagraph/cgx/cgx.py")], ["the rendered tree"])

prop("C14", "Names in templates resolve as documented, per component instance",
 "A name in a template expression denotes, in this order, a variable bound by the expression or an enclosing loop, a Python builtin or imported name, a prop, a state key, an attribute of the component and a module-level name of its script; otherwise NameError is raised when it is evaluated. Resolution follows what each instance currently has, whatever other instances of the class or earlier renders resolved the name to.",
 ["programs", "histories"], "All assignments of a set of names to these scopes, for several instances of the same component class with different props and state, in any order of rendering.",
 "Tests look up each kind of name once in a single instance, so caching across instances or changes is never exercised.",
 [COMP, "collagraph/cgx/cgx.py"], [("Component._lookup", COMP), ("RewriteName, ImportsCollector", "collagraph/cgx/cgx.py")], ["values shown in the rendered tree"])

prop("C15", "Component files are read faithfully",
 "Every well-formed component file is accepted: tag casing, dotted tags, self-closing tags, attribute values with any characters, text content and multi-line scripts mean what is written (character references as in HTML, comments and white-space between tags are left out), in either section order. The script runs exactly as written (same definitions, and tracebacks and code positions that point at the script's own lines in the file), the last class is the component, and malformed files (no single root element, last class not a component) are rejected with an error. Files are read as UTF-8, whatever the locale.",
 ["programs", "inputs"], "All component files made of a template and a script section in any order, with any text, attribute values, comments and Python code in the script.",
 "Tests load some thirty fixed files and check line numbers for none of them with code that raises.",
 ["collagraph/cgx/cgx.py"], [("CGXParser, get_script_ast, construct_ast, load_from_string", "collagraph/cgx/cgx.py")], ["cgx.load / load_from_string results", "tracebacks"])

prop("C16", "Component files import like Python modules",
 "Importing a module name for which a component file exists on the path gives a module with the namespace of the file's script, usable in every import form, in packages and from other component files, and cached like any module. Regular Python modules and packages keep precedence and are imported as if collagraph were not there, and a missing module still raises ModuleNotFoundError.",
 ["inputs", "configurations"], "All layouts of directories, packages, Python modules and component files on the search path and all sequences of imports over them.",
 "Tests import a handful of files from one flat directory.",
 ["collagraph/cgx/importer.py", "collagraph/cgx/cgx.py"], [("CGXImporter.find_spec / exec_module", "collagraph/cgx/importer.py")], ["imported modules, sys.modules"])

prop("C17", "Qt containers show their children in the described order",
 "For each kind of Qt container that accepts several children (widgets with box layouts, splitters, tab widgets, menus, menu bars, toolbars, tree items and tree widgets, item models and standard items, form rows, stacked widgets, scroll areas, docks and windows) the Qt children are, after any history, exactly those described, in the described order (in grids: in the described cells; docks and tool bars in the described area, buttons of button boxes in the described role; dialogs as windows of their own). Removed children are no longer in the container and those that stayed are still the same objects. This holds for what is rendered at the top as well, into any widget or into the application, in which elements are windows of their own that are visible (with autoshow) as long as they are described.",
 ["histories"], "All histories of insertions, removals, moves and replacements of children in each supported container, including containers added, moved and removed themselves.",
 "Tests build each container once and change at most one child.",
 ["collagraph/renderers/pyside_renderer.py", "collagraph/renderers/pyside/objects/layouts.py", "collagraph/renderers/pyside/objects/menu.py", "collagraph/renderers/pyside/objects/menubar.py", "collagraph/renderers/pyside/objects/toolbar.py", "collagraph/renderers/pyside/objects/tab.py", "collagraph/renderers/pyside/objects/treewidgetitem.py", "collagraph/renderers/pyside/objects/itemmodel.py", "collagraph/renderers/pyside/objects/standarditem.py"],
 [("registered insert/remove functions with anchors", "collagraph/renderers/pyside/objects")], ["Qt object trees read through Qt's own API"])

prop("C18", "Qt properties and signals follow the description",
 "After any history every Qt property (with a setter of that name that takes its default as well, independent of other described properties) named by the current description has the described value, and a property of a widget or action that is no longer described is back at the value a fresh object of that type has. Signals and Qt events call exactly the handlers of the current description, once each, for signals with and without arguments, whatever the kind of callable.",
 ["histories"], "All histories of attributes and handlers appearing, changing and disappearing on each supported widget type.",
 "Tests set a property and remove it again on one or two widget types; they disconnect one kind of handler only.",
 ["collagraph/renderers/pyside_renderer.py", "collagraph/renderers/pyside/__init__.py", "collagraph/renderers/pyside/objects"],
 [("set_attribute / remove_attribute with DEFAULT_VALUES", "collagraph/renderers/pyside_renderer.py"), ("add_event_listener / remove_event_listener", "collagraph/renderers/pyside_renderer.py")], ["Qt properties", "handler invocations"])

prop("C19", "The 3D renderer keeps scene objects in step with the description",
 "With the pygfx renderer every element becomes the pygfx object its type names, children are the scene children in the described order, dotted attributes set the nested property they name, and removing an attribute (that no other attribute influences) gives back what the object had before the attribute was first set (and removes an attribute that it did not have). Event handlers attached are exactly the described ones.",
 ["histories"], "All histories of scene graphs with attributes, nested attributes, custom attributes and handlers appearing, changing and disappearing.",
 "Tests render two or three fixed scenes and remove one attribute once.",
 ["collagraph/renderers/pygfx_renderer.py"], [("create_element / set_attribute / remove_attribute and the default cache", "collagraph/renderers/pygfx_renderer.py")], ["pygfx object tree"])

prop("C20", "The browser renderer drives the DOM to the described document",
 "With the browser renderer the document, after any history, has exactly the described elements, text nodes, attributes and listeners in the described order, using only DOM calls that a browser accepts (an anchor is always a child of the parent it is used with, a removed node is a child of its parent, a listener is removed with the very object it was added with).",
 ["histories"], "All histories of described documents.",
 "No test exercises this renderer, as it needs a browser.",
 ["collagraph/renderers/dom_renderer.py", ENG], [("DomRenderer methods", "collagraph/renderers/dom_renderer.py")], ["the document"])

prop("C21", "The command line starts exactly the component and state it was given",
 "The command line runs the component of the named file with exactly the props given as state, whether given as JSON text of any size or as the name of a JSON file, using the chosen renderer; invalid JSON, a JSON value that is not an object, or a file that is missing or is not a component file is reported as an error instead of running something else.",
 ["inputs"], "All state arguments (JSON texts of any content and length, file names) and component files.",
 "No test exercises the command line.",
 ["collagraph/__main__.py"], [("init_collagraph, run, argument parsing", "collagraph/__main__.py")], ["the props of the component that is run"])

prop("C22", "What is removed from the tree is let go of",
 "Once an element, component instance or item is no longer described, collagraph and its renderers (also those for Qt and pygfx) keep no reference to it beyond the update after its removal: it becomes collectable, its handlers are released and its render functions never run again. Repeating any cycle of changes that returns to the same description does not let the number of live elements, instances and watchers grow.",
 ["histories"], "All histories of adding and removing parts of a tree, repeated any number of times.",
 "Tests check deletion of one reference in one scenario; leaks show only in object counts over repetitions.",
 [ENG, COMP, "collagraph/renderers/pyside_renderer.py", "collagraph/renderers/pyside/objects/toolbar.py", "collagraph/renderers/pyside/objects/menubar.py", "collagraph/renderers/pyside/objects/menu.py", "collagraph/renderers/pyside/objects/standarditem.py", "collagraph/renderers/pygfx_renderer.py"], [("double-buffered fibers, commit_deletion", ENG), ("remove, and the remove functions of the objects", "collagraph/renderers/pyside_renderer.py"), ("DEFAULT_ATTR_CACHE", "collagraph/renderers/pygfx_renderer.py")], ["weak references", "live object counts"])

prop("C23", "Freezing takes along what component files import",
 "When an application is frozen with PyInstaller, every absolute import that the component files of a package using collagraph make, in whatever form and anywhere in their scripts, is added to the frozen imports under its full name (the module, and names imported from it, which may be modules), nothing that is not imported is added, and every component file in the package is added as data in its own folder.",
 ["programs", "configurations"], "All layouts of packages with component files, all forms and places of import statements, next to text that only looks like imports.",
 "No test exercises the PyInstaller hook.",
 ["collagraph/__pyinstaller/hook-collagraph.py", "collagraph/__pyinstaller/__init__.py"],
 [("collect_hidden_imports / ImportsCollector", "collagraph/__pyinstaller/hook-collagraph.py")], ["add_imports and add_datas of the hook API"])

prop("C24", "Qt element types and their behaviour are looked up as registered",
 "An element type of the Qt renderer names the Qt class, or the class registered for it, whatever the casing (and for registered and short names: dashes and underscores); likewise for layouts. Inserting into, removing from and setting an attribute on an element calls the function registered for the nearest class in its inheritance, whatever the order of the registrations, and a registered custom attribute takes precedence on every element. Classes that are no widgets or layouts are refused, and unknown names raise TypeError.",
 ["configurations", "inputs"], "All hierarchies of classes and sets of registrations in any order and form (made before the first element of the type is created, each once), all spellings of names.",
 "Tests register one widget and one layout.",
 ["collagraph/renderers/pyside_renderer.py", "collagraph/renderers/pyside/objects/layouts.py"],
 [("register_* / create_object / name_to_type / class_hierarchy", "collagraph/renderers/pyside_renderer.py")], ["calls of registered functions, types of elements and layouts"])

prop("C25", "Applications run side by side, on whichever event loop they use",
 "Any number of applications in one process, each with its own renderer and event loop type (given, else the one its renderer prefers, else the asyncio default), keep showing their own latest description and call their own handlers, also when they share reactive state or component classes and whenever they were created. On a real asyncio loop, or that of Qt for its renderer, all work gets done by the loop itself and nothing is shown outside of it; with the synchronous type an application that is on its own is up to date right after the change. The callback passed to render is called.",
 ["histories", "configurations", "schedules"], "All numbers and mixtures of applications, event loop types and renderers, moments of creation, and histories of changes made outside of the loop, in callbacks and in coroutines.",
 "Tests run one application at a time.",
 [ENG, "collagraph/renderers/pyside_renderer.py", "collagraph/renderers/__init__.py"],
 [("Collagraph.__init__: choice of event loop type and scheduler registration; request_idle_work", ENG), ("register_asyncio", "collagraph/renderers/pyside_renderer.py")],
 ["containers of all applications", "calls of handlers and of the callback"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
