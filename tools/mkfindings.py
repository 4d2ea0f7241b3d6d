"""Writes known_findings.json: the open findings (OPEN) and the repaired ones (from /repo's fix: commits)."""
import json
import os
import subprocess

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix -> property which it violated and what failed
FIXED = {
    "render to Qt widgets that aren't created by the renderer": ("C17", "AttributeError when a plain QWidget was the container"),
    "let the pygfx renderer start from the command line": ("C21", "AttributeError for --renderer pygfx: camera and controller were used as in former versions of pygfx"),
    "don't render the shorthand for v-slot as attribute": ("C12", "an element with the shorthand for v-slot (#name) got an attribute '#name'"),
    "handlers that capture a shallow and a deep proxy are not equivalent": ("C06", "a handler with a shallow proxy was taken for the same with a deep proxy of the same data"),
    "removing an element with many siblings in it exceeded the recursion limit": ("C07", "RecursionError when an element (or component) with about a thousand children was removed"),
    "remove all elements of a removed template or component": ("C01", "only the first element of a removed template/component with several elements was removed"),
    "insert and move elements at the position given by the description": ("C01", "order of children after moves and insertions next to templates and components"),
    "don't lose state changes that are made while work is in progress": ("C09", "a state change during a slice was dropped"),
    "don't reuse stale fibers after rendering another root element": ("C01", "rendering another root element showed parts of the previous one"),
    "let DictRenderer find elements by identity": ("C02", "DictRenderer removed an equal element instead of the given one"),
    "support renderers with elements that are falsy": ("C03", "elements that are falsy were treated as not existing"),
    "only treat functions as equivalent when they behave the same": ("C06", "defaults, receivers, globals, 1 / 1.0 / True, partial keywords were not compared; recursive closures overflowed the stack"),
    "keep track of the event handler that is actually attached": ("C05", "a handler that replaced an equivalent one was removed instead of the attached one"),
    "keep props of components in sync without changing the passed objects": ("C08", "the user's props object was changed by an update of the component"),
    "keep component instances when work in progress is abandoned": ("C09", "component instances got lost when work was started over"),
    "stop watching the state that is used by removed elements": ("C10", "removed parts still triggered updates"),
    "let 'element' of components refer to the current root element": ("C07", "Component.element referred to a previous element"),
    "call 'updated' for every change in the elements of a component": ("C07", "updated was not called for removals and moves"),
    "resolve names in templates for each component instance separately": ("C14", "lookup cache shared by all instances of a class"),
    "watch props that are initially empty": ("C10", "an initially empty reactive dict as props was never watched"),
    "take snapshot of props at the moment they are rendered": ("C09", "props that changed between render and commit were lost"),
    "follow changes of event handlers in reactive props of components": ("C05", "handlers in reactive props of components were not replaced"),
    "ignore changes of props that are no longer passed to a component": ("C08", "props came back after having been dropped"),
    "handle attributes and event handlers that are None consistently": ("C03", "None handlers/attributes were removed without having been set"),
    "don't keep all previous root fibers alive": ("C22", "chain of alternates grew with every render"),
    "keep v-if in document order with text and v-for": ("C13", "v-if next to text or v-for was rendered out of order"),
    "pass text and v-for within component tags to the default slot": ("C12", "text and loops in component tags failed or were left out"),
    "support names that are bound within template expressions": ("C13", "names bound by lambdas, comprehensions and walrus were looked up in the component"),
    "give every iteration of v-for its own scope": ("C13", "handlers and slot content in loops used the last iteration's variables"),
    "report syntax errors in the script at the line in the CGX file": ("C15", "syntax errors in scripts were reported at the wrong line and without file name"),
    "know the name that is defined by the import of a submodule in CGX files": ("C14", "'import a.b' was not known as import of the name 'a', which let props and state take precedence"),
    "support the walrus operator in all of the expressions in templates": ("C13", "templates with a walrus operator anywhere but in the root element were a SyntaxError"),
    "allow whitespace around expressions in templates": ("C13", "expressions with surrounding whitespace were syntax errors"),
    "don't split text that contains special characters": ("C15", "text with entities was split"),
    "support dotted tags that start with a capital": ("C15", "dotted tags were lower-cased"),
    "allow colons in the names of bound attributes and events": ("C15", "names were cut at the colon"),
    "render slot content for slots that are root or have directives": ("C12", "content was not rendered"),
    "don't shadow imports with a variable of the render function": ("C14", "imported names that equal internal variables were shadowed"),
    "support names such as 'str' for variables in v-for": ("C13", "loop variables named str/zip broke generated code"),
    "only regard imports on module level as imported names": ("C14", "imports in functions hid props and state"),
    "let line numbers of the script match the lines in the file": ("C15", "line numbers off by one"),
    "execute component files in the namespace of their module": ("C16", "__name__ and relative imports were wrong"),
    "read component files as utf-8": ("C15", "files were read with the locale's encoding"),
    "define __name__ and __file__ for component files that are run directly": ("C15", "classes got builtins as module"),
    "don't let the importer get in the way of other modules": ("C16", "directories named *.cgx, non-str path entries and reloads"),
    "accept long json and report json that is not an object": ("C21", "OSError for JSON text that is too long for a file name; lists as state"),
    "support text as content of a slot": ("C12", "text given to slots in render functions failed"),
    "disconnect bound methods and other callables from Qt signals": ("C18", "bound methods were never disconnected or failed with arguments"),
    "support menus as anchor and keep the contents of menus that move": ("C17", "inserting before a menu raised; moving a menu emptied it"),
    "support anchors, moves and removal of widgets in toolbars": ("C17", "inserting before a widget raised; removed widgets left their action behind"),
    "respect anchors in tab widgets and release removed pages": ("C17", "pages were always appended; removed pages kept their parent"),
    "keep dialogs that move and support dialogs as anchor": ("C17", "a moved dialog was deleted; siblings inserted before a dialog were appended"),
    "respect anchors in form layouts and keep widgets that move": ("C17", "moving a row deleted its widget"),
    "keep tree widget items expanded and selected as described": ("C17", "expanded/selected of top level items never changed"),
    "replace items of comboboxes and buttons of dialog button boxes": ("C18", "items and buttons were added to the previous ones"),
    "restore the actual default values of removed Qt properties": ("C18", "default was read from an element influenced by other attributes or by its parent"),
    "pass arguments for area of toolbars in the right order": ("C17", "a toolbar with an area raised"),
    "restore the original attribute values of each pygfx object": ("C19", "defaults were shared by all objects with the same type name"),
    "don't stumble over relative imports in component files when freezing": ("C23", "TypeError for `from . import x`"),
    "show group boxes as the content of dock widgets": ("C17", "a group box in a dock widget was taken for its title bar"),
    "let go of widgets that are removed from a scroll area": ("C17", "removed widgets stayed in the scroll area"),
    "removing a selection model from a view crashes": ("C17", "segmentation fault when the selection model of a view was removed"),
    "a view loses its selection model when the item model is replaced": ("C17", "the described selection model was dropped by the view as soon as another item model was inserted"),
    "don't delete the actions of menus that move": ("C17", "moving a menu deleted its action: crash"),
    "hand over the ownership of inserted standard items": ("C17", "rows inserted before others inside rows were deleted twice: crash"),
    "connect methods of objects without weak references just once": ("C18", "bound methods of objects without weak references were called twice or not at all"),
    "find layouts registered with dashes or underscores": ("C24", "RuntimeError for a layout registered as 'flow-layout' and used by that name"),
    "let go of the actions of toolbars that are removed": ("C22", "the actions of removed tool bars stayed alive as children of the window"),
    "let go of menus that are removed": ("C22", "menus that were removed stayed alive (PySide's addMenu)"),
    "let go of widgets that are removed from toolbars": ("C22", "widgets that were removed from a tool bar stayed alive with it"),
    "let go of standard items that are removed from other items": ("C22", "standard items that were removed from an item stayed alive with it"),
    "let go of the actions of menus that are removed with their menu bar": ("C22", "Qt's actions of menus in a removed menu bar stayed alive as children of the window"),
}
OPEN = []


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    fixed = []
    for line in log.splitlines():
        commit, _, subject = line.partition(" ")
        if subject.startswith("fix: "):
            prop, what = FIXED[subject[5:]]
            fixed.append(f"fixed: property={prop} {commit} {what}")
    with open(os.path.join(here, "known_findings.json"), "w") as fh:
        json.dump({"findings": OPEN, "fixed": fixed}, fh, indent=1)
        fh.write("\n")
    print(len(fixed), "fixed", len(OPEN), "open")


main()
