import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
IN=["inputs"];HI=["histories"];CF=["configurations"]
p("C01","Typed slots only ever hold conforming values; rejected writes change nothing",
 "A checked slot (declared with a type, a check, or as required) never holds a value that is not an instance of its declared type (after coercion) or that fails its check, whether the value arrived by construction, by assignment or from a default. A write that is rejected raises the documented error for its cause (coercion failure, failed check, missing required value) and leaves the slot and every other slot of the record exactly as they were; a value already of the right type is stored as is, without calling the coerce function.",
 HI+IN+CF,"every combination of isa/coerce/check/required/default, and every history of construct, assign, delete and read with conforming, coercible, swallowed and hopeless values",
 "tests assign a few literals to a few hand-written properties; the guarantee is over declaration options crossed with operation histories (e.g. a failed assignment after a successful one)",
 ["normalize/property/__init__.py","normalize/record/__init__.py"],[("type_safe_value","normalize/property/__init__.py"),("SafeProperty.__set__","normalize/property/__init__.py"),("Record.__init__","normalize/record/__init__.py")],
 [("slot value","unset, or the stored value of one property of one record","instance")],["constructor","attribute get/set/delete"])
p("C02","Read-only slots never change after construction",
 "Once a record is constructed, no assignment or deletion changes or removes the value of a read-only property: each attempt raises the read-only error and leaves the record as it was. This holds for every way the property is declared, including read-only combined with lazy, JSON, collection, typed, required or falsy-default options, whatever the order in which such combinations were first declared in the process.",
 HI+CF,"every combination of property options containing read-only, every declaration order, and every history of assign/delete/read attempts",
 "tests try one assignment on a couple of read-only declarations; which setter wins depends on how the option combination is composed, so one combination says nothing about another",
 ["normalize/property/__init__.py","normalize/property/meta.py"],[("ROProperty.__set__/__delete__","normalize/property/__init__.py"),("create_property_type_from_traits","normalize/property/meta.py")],None,["attribute set/delete"])
p("C03","Lazy defaults are computed on demand, once, and type-checked",
 "A lazy property's default function is not called at construction; it is called at the first read of the unset slot, its result is coerced and checked like an assignment and then stored, so later reads return the same value without calling it again, even if what it depends on has changed. A computed value that fails type or check raises the documented error and is not stored; an explicitly given value means the function is never called.",
 HI+CF,"every lazy declaration (with and without type, check, coerce, read-only) and every history of construct, read, assign, delete and change of the slots the default depends on",
 "tests read one lazy slot twice; the guarantee is about call counts along arbitrary histories including failing computations and deletes",
 ["normalize/property/__init__.py"],[("LazyProperty.__get__","normalize/property/__init__.py"),("LazySafeProperty.__get__","normalize/property/__init__.py"),("ROLazyProperty.__get__","normalize/property/__init__.py")],[("evaluation count","how often the default function ran","user function")],["attribute get"])
p("C04","Construction, defaults and unset slots follow the declaration",
 "A constructed record has exactly the slots that were passed (by keyword or as one positional dictionary, with the same result) plus those with an eager default; a missing required value, an unknown name, or both argument forms at once is an error, and no default leaks between instances. Reading an unset slot raises AttributeError unless the property declares a falsy default or v1_none, in which case that value is returned and assigning it (or None) to a typed slot clears the slot; deleting a required slot is refused, and deleting an unset slot is an AttributeError, not a different failure.",
 HI+IN+CF,"every declaration (required, default constant/function/method/falsy/v1_none, unsafe), every subset of supplied arguments in both forms, and every later history of get, set, delete and has-attribute",
 "tests cover single declarations with single constructor calls; combinations of falsy defaults, types and histories of clear/delete are unbounded",
 ["normalize/property/__init__.py","normalize/record/__init__.py","normalize/property/meta.py"],[("Record.__init__","normalize/record/__init__.py"),("init_prop/get_default","normalize/property/__init__.py"),("V1Property","normalize/property/__init__.py")],None,["constructor","attribute get/set/delete"])
p("C05","Property option mix-ins compose the same way in any order",
 "Declaring a property with any compatible combination of options (type, JSON name, lazy, read-only, v1_none, compare_as, list_of/dict_of, typed convenience classes, explicit traits) either succeeds or fails independently of which other properties were declared earlier in the process, and a successful declaration has all the behaviours of every requested option. Passing options through traits=, through keyword arguments or through a pre-made property class gives the same behaviour.",
 CF+HI,"every set of options up to a size bound and every order of declaring such sets in one process",
 "each test process declares its properties in one fixed order; the composed type is cached process-wide so other orders are never exercised",
 ["normalize/property/meta.py","normalize/property/__init__.py"],[("has","normalize/property/meta.py"),("create_property_type_from_traits","normalize/property/meta.py"),("PROPERTY_TYPES","normalize/property/meta.py")],[("registry","property types composed so far","PROPERTY_TYPES")],["Property()"])
p("C06","List collections behave like a Python list of one item type",
 "After any sequence of list operations (append, extend, insert, item and slice get/set/delete, pop, remove, reverse, sort, index, count, in, +, ==, iteration, len), a list collection returns and contains what a Python list would, with every inserted item coerced to the item type, so that every member is always an instance of it. An operation that fails (bad index, absent value, uncoercible item) raises the list error or the coercion error and leaves the members that were there unchanged; building from a list, tuple, generator, mapping (values in key order) or another collection gives its items in order, and strings are refused.",
 HI+IN,"all operation histories over small lists exhaustively, long random histories, for collections of scalars and of records, stand-alone and as a property value, generic and subclassed, JSON and plain",
 "tests run a few operations on fixed lists; index/slice arithmetic with negative and out-of-range bounds and coercion failure in the middle of histories is not reachable by samples",
 ["normalize/coll.py","normalize/property/coll.py"],[("ListCollection","normalize/coll.py"),("coerce_value","normalize/coll.py"),("coll_to_tuples/tuples_to_coll","normalize/coll.py")],[("members","ordered sequence of items","collection")],["public list API"])
p("C07","Dict collections behave like a Python dict with one value type",
 "After any sequence of dict operations (item get/set/delete, update from mapping, pairs or keywords, pop, popitem, clear, in, keys/values/items and their iterator forms, len, iteration, ==), a dict collection returns and contains what a Python dict would, with every value coerced to the item type. A failing operation raises KeyError or the coercion error and does not disturb other entries; building from a mapping, a sequence (index keys), an iterator of pairs or another dict collection keeps every entry, and strings are refused.",
 HI+IN,"all operation histories over a few keys exhaustively, long random histories, for scalar and record values, stand-alone and as a property value, generic and subclassed, JSON and plain",
 "the class is documented as largely untested; tests touch a handful of calls",
 ["normalize/coll.py","normalize/property/coll.py"],[("DictCollection","normalize/coll.py"),("KeyedCollection","normalize/coll.py")],[("entries","ordered mapping key to value","collection")],["public dict API"])
p("C08","Equality is an equivalence on non-extraneous content; equal implies same hash",
 "Two records are equal exactly when they have the same type and every non-extraneous slot is equal or unset in both (recursively through records and collections); == is reflexive, symmetric and transitive, != is its negation, and extraneous slots never matter. Equal records have equal hashes and can stand in for each other in sets and dicts; collections compare by item type and contents (dict collections regardless of insertion order), also against the plain list or dict with the same contents.",
 IN+CF,"all pairs and triples of values over small schemas with optional, extraneous, nested, list, dict and primary-key properties",
 "laws over pairs and triples cannot be sampled by example; tests compare a few literals and never check hash against == for nested collections",
 ["normalize/record/__init__.py","normalize/identity.py","normalize/coll.py"],[("Record.__eq__/__hash__","normalize/record/__init__.py"),("record_id","normalize/identity.py"),("Collection.__eq__","normalize/coll.py")],None,["==","!=","hash()","set/dict membership"])
p("C09","Copies, pickles and repr reproduce the record; deep copies are independent",
 "pickle (every protocol), copy.deepcopy and evaluating repr() each give a record of the same type, equal to the original and with the same slots set (extraneous, read-only, lazy and unknown-JSON-key slots and extra collection attributes included), without re-running validation, required checks or lazy defaults for pickle and deepcopy. After a deep copy or pickle round trip no later change to one graph is visible in the other, and sharing inside the graph is preserved; a shallow copy has its own slots but shares the child objects.",
 HI+IN,"all small object graphs (nested records, lists, dicts, shared children) and all histories interleaving copy operations with mutations of either side",
 "tests round-trip a few records once and never mutate afterwards; aliasing errors need copy-then-mutate histories",
 ["normalize/record/__init__.py","normalize/coll.py","normalize/record/json.py","normalize/selector.py"],[("__getnewargs__/__getstate__/__setstate__","normalize/record/__init__.py"),("_Generic.__reduce__","normalize/coll.py"),("__repr__","normalize/record/__init__.py")],[("heap","object graph with aliasing","instances")],["copy","pickle","repr"])
p("C10","JSON marshalling out and back in reproduces the record",
 "For any record whose values have a JSON form, converting to JSON data and back with the same type gives an equal record, whether read as parsed data, str or bytes, for JSON and plain record types nested in any way through record, list and dict properties. On output each set slot appears once, under its json_name (never, if that is None), converted by json_out if given; unset slots are absent, extraneous slots appear only when asked for, and integers beyond 2**50 are written as strings; on input json_in is applied to each key that is present, before type coercion.",
 IN+CF,"all small values of schemas mixing JSON/plain records, json_name renames and suppression, json_in/json_out, nested lists and dicts, and all JSON input forms",
 "tests marshal a few fixed documents; which of several code paths handles a nested type depends on the combination of container and item type",
 ["normalize/record/json.py","normalize/property/json.py"],[("to_json","normalize/record/json.py"),("from_json/json_to_initkwargs","normalize/record/json.py"),("JsonProperty","normalize/property/json.py")],None,["to_json","from_json","json_data","JsonRecord()"])
p("C11","Unknown JSON keys survive, known ones win, and inputs are never modified",
 "Keys of a JSON document that no property of a JSON record type claims are kept with the record and written back unchanged exactly when extraneous output is asked for (or the type makes them non-extraneous), and never override a declared property's key. Reading a document never modifies it, and later changes to either the document or the record's unknown keys do not affect the other; a plain (non-JSON) record type rejects unknown keys.",
 IN+HI,"all small documents mixing known, renamed, suppressed and unknown keys at several nesting levels, and mutations of document or record after reading",
 "tests check one unknown key; interference between renamed/suppressed names and unknown keys, and aliasing, need the combinations",
 ["normalize/record/json.py"],[("json_to_initkwargs","normalize/record/json.py"),("JsonRecord.json_data","normalize/record/json.py")],None,["JsonRecord()","json_data"])
p("C12","JSON input errors name the exact location of the offending value",
 "When a JSON document cannot be converted, the raised conversion error carries the path, in JSON key names and list indices from the outermost document, of the sub-document whose conversion failed, together with the underlying error; and no conforming document raises. The same holds through any nesting of JSON records, lists and dicts.",
 IN,"documents over nested schemas with one bad value placed at every possible location and every nesting depth in bounds",
 "tests look at one or two messages; the path is rebuilt at every nesting level by the unwinding error",
 ["normalize/record/json.py"],[("_box_ingress_error","normalize/record/json.py"),("json_to_initkwargs","normalize/record/json.py")],None,["JsonRecord()","from_json"])
p("C13","Field selectors read, write and delete exactly the location they name",
 "get returns what the corresponding chain of attribute, index and key accesses returns (for the wildcard, the list over all members with None where a member lacks the field, failing only if all fail), and get_or_none gives None where get fails. put and delete change that location, or all wildcard-matched locations, and nothing else; put followed by get returns the value, and a path that does not exist raises a field selector error (never another lookup error) and changes nothing.",
 HI+IN,"all selectors up to a length bound (names, in- and out-of-range and negative indices, present and absent keys, wildcards) against all small object graphs of records, lists and dicts, and histories of put/delete",
 "tests use a few selectors on one object; frame conditions (nothing else changed) are never asserted",
 ["normalize/selector.py"],[("FieldSelector.get/put/delete","normalize/selector.py"),("_try_index","normalize/selector.py")],[("document","tree of records, lists, dicts","user object")],["FieldSelector.get/put/delete/get_or_none"])
p("C14","Auto-vivifying writes create just the missing containers",
 "post behaves like put where the path exists; where it does not, it creates exactly the missing records, collections and next list items along the path with the declared types, after which get of the same path returns the value and everything that existed before is untouched. It returns the number of places written, refuses to leave gaps in a list, and posting the values of a record in field-selector order to an empty record of the same type rebuilds it.",
 HI+IN,"all selectors in bounds against partially filled object graphs, including required single-field items, dict keys, wildcards and repeated posts",
 "tests post a few paths to one type; partial existence of the path gives many branch combinations",
 ["normalize/selector.py"],[("FieldSelector.post","normalize/selector.py")],None,["FieldSelector.post"])
p("C15","Field selector text, order, slicing and pickling are faithful",
 "from_path(fs.path) gives a selector equal to fs for every selector of names, integers, arbitrary string keys and wildcards, and distinct selectors have distinct paths; repr, copying and pickling also give back an equal selector. Comparison of comparable selectors is a strict total order, shorter-prefix-first and numeric on indices; concatenation, slicing, startswith, len and indexing agree with the same operations on the tuple of components and do not modify their operands.",
 IN,"all selectors over an alphabet containing quotes, backslashes, brackets, dots, stars, whitespace, non-ASCII, empty strings and negative numbers",
 "escaping errors live in specific character combinations; tests use friendly names",
 ["normalize/selector.py"],[("_fmt_selector_path","normalize/selector.py"),("_scan_selector_path","normalize/selector.py"),("FieldSelector.__lt__/__eq__/__add__","normalize/selector.py")],None,["path","from_path","comparison operators"])
p("C16","A multi field selector denotes exactly the union of its selectors",
 "Built from any field selectors or other multi selectors, in any order and with repetition, a multi field selector enumerates a selector set denoting the same locations (a selector covers everything beneath it); membership, subscripting and truth agree with that set: a path is in it exactly if it is covered, subscripting gives the sub-selector beneath a path, None when nothing matches and the complete selector when everything does. Its path text and repr parse back to a selector with the same meaning.",
 IN+CF,"all sets of selectors up to size and length bounds and all probe paths, including prefix-overlapping selectors and wildcards",
 "overlap of prefixes and wildcards is combinatorial; tests use two or three shapes",
 ["normalize/selector.py"],[("MultiFieldSelector.__init__/__iter__","normalize/selector.py"),("__getitem__/__contains__","normalize/selector.py"),("_scan_mfs_path","normalize/selector.py")],None,["MultiFieldSelector"])
p("C17","Filter, patch and delete by multi selector touch exactly the selected fields",
 "Filtering an object by a multi field selector gives a new object holding precisely the selected fields with equal values, sharing nothing mutable with the original, which is unchanged. Patching makes the selected fields of the target equal to the source's (removed where the source lacks them) and leaves all others alone, never changing the source; deleting removes precisely the selected existing fields and items, and without force makes no change at all if some selected field is missing.",
 IN+HI,"all small multi selectors against all small graphs of records, lists and dicts, pairwise for patch",
 "frame conditions and several deletions in one list interact; tests check single cases",
 ["normalize/selector.py"],[("MultiFieldSelector.get","normalize/selector.py"),("MultiFieldSelector.patch/delete","normalize/selector.py")],None,["MultiFieldSelector.get/patch/delete"])
p("C18","A diff is empty for equal records and reports every real difference",
 "Comparing a record with itself or with an equal record reports no difference, and with text normalisation off any two unequal records of the same type yield at least one difference (moves included when asked for). Every reported difference is true: its base/other selectors resolve to the values concerned in the respective record, an added/removed field or item is present on one side only, a modified one differs, and with unchanged=True every compared non-extraneous leaf is reported exactly once as changed or unchanged.",
 IN,"all pairs of small records over schemas with scalars, nested records, record lists, scalar lists, dicts, optional and extraneous slots",
 "a missed difference only shows for the specific pair; tests have a few dozen fixed pairs",
 ["normalize/diff.py","normalize/identity.py"],[("compare_record_iter","normalize/diff.py"),("compare_collection_iter","normalize/diff.py"),("compare_list_iter/compare_dict_iter","normalize/diff.py")],None,["diff","diff_iter"])
p("C19","Swapping the two sides of a diff mirrors it",
 "For any two records and options, the differences of (B, A) are those of (A, B) with added and removed exchanged, base and other selectors exchanged, and modified, moved and unchanged kept, as a set (whenever item matching is unambiguous).",
 IN+CF,"all pairs in bounds under every combination of diff options",
 "symmetry is a relation between two runs; no test runs both directions systematically",
 ["normalize/diff.py"],[("diff_iter","normalize/diff.py"),("compare_* functions","normalize/diff.py")],None,["diff"])
p("C20","Diff options suppress exactly the differences they describe",
 "Whitespace, case and Unicode-form options hide precisely the text differences that vanish under that normalisation (runs of whitespace collapse and ends are trimmed, but words are not joined); empty-slot and empty-item options treat None/'' slots and all-empty items as absent; extraneous slots are compared only on request; compare_as functions are applied to both sides. A compare_filter restricts the result to the differences at selected locations and reports all of those.",
 IN+CF,"all pairs in bounds times all option combinations, checked against the difference of the explicitly normalised or restricted values",
 "options interact pairwise; tests exercise them one at a time",
 ["normalize/diff.py","normalize/identity.py"],[("DiffOptions.normalize_*","normalize/diff.py"),("is_filtered/id_args","normalize/diff.py")],None,["diff"])
p("C21","Collection diffs account for every item exactly once, by identity",
 "When two collections of records are compared, every item of either side is accounted for exactly once: items with the same primary key (or equal content, where there is none) are paired, each with its own multiplicity, and compared in depth, never reported as added or removed; the remaining items are reported removed or added, or paired by partial similarity and reported through their differing fields. Reordering alone is no difference unless moves are requested, in which case each moved item is reported once with both positions.",
 IN,"all pairs of collections in bounds with duplicate, reordered, partially equal and keyed items, lists and dicts, with and without fuzzy matching",
 "multiplicities and ties need adversarial collections",
 ["normalize/diff.py","normalize/identity.py"],[("compare_collection_iter","normalize/diff.py"),("_fuzzy_match","normalize/diff.py"),("record_id","normalize/identity.py")],None,["diff"])
p("C22","Visiting a record and casting the result back reproduces the record",
 "For any record built from nested records, lists and dicts with values the pattern passes through, cast(type, visit(record)) equals the record; visit calls the apply hook exactly once for each set, unfiltered, non-extraneous leaf slot or scalar item, with the correct location, and neither operation modifies its input.",
 IN+CF,"all small values over nested schemas and visitor options",
 "tests visit two fixed object graphs",
 ["normalize/visitor.py"],[("VisitorPattern.map/map_record/map_collection","normalize/visitor.py"),("unpack/grok/produce","normalize/visitor.py")],None,["VisitorPattern.visit/cast"])
p("C23","Visitor filters and reflection cover exactly the selected structure",
 "A visit or cast with a filter, extraneous, ignore_none, ignore_empty_string or apply_empty_slots option includes exactly the slots that option selects, so visiting with a filter gives the same data as filtering the full visit. Reflecting a type lists every reachable, selected property once with its declared name and type, without needing an instance.",
 CF+IN,"all filters and option combinations in bounds over nested schemas",
 "filters descend through collections along the visitor's location stack; tests use one filter",
 ["normalize/visitor.py","normalize/selector.py"],[("Visitor.is_filtered","normalize/visitor.py"),("VisitorPattern.reflect","normalize/visitor.py")],None,["VisitorPattern.visit/cast/reflect"])
p("C24","Record classes inherit, override and key their properties consistently",
 "A record class has exactly the properties of its bases plus its own, its own declarations overriding inherited ones of the same name (for class access, construction, defaults, equality and diff alike), and declaring a class never changes its bases; inheriting the same property name from two bases, using reserved names or a primary key naming a foreign property is refused at declaration. A declared primary key, given by name or property object, determines record identity: its order and values are what hashing and collection matching use.",
 CF+["programs"],"all small class hierarchies (single and multiple bases, overrides, mixed options, primary keys)",
 "tests declare a few fixed hierarchies",
 ["normalize/record/meta.py","normalize/identity.py"],[("RecordMeta.__new__","normalize/record/meta.py"),("Property.bind","normalize/property/__init__.py")],None,["class statement","Record.properties"])
p("C25","Auto JSON records give attribute access to any document without losing data",
 "An auto JSON record exposes every key of its document as an attribute (camelCase converted, nested objects and lists of objects upgraded), supports reading, assigning, deleting and hasattr on them like ordinary attributes, and reports missing ones with AttributeError. Writing it out gives back the document with all assignments and deletions applied, with keys in their original spelling for camelCase documents.",
 HI+IN,"all small documents and histories of attribute get, set, delete and output",
 "tests read a few attributes of one document; assignment and deletion are not exercised",
 ["normalize/record/json.py"],[("AutoJsonRecord","normalize/record/json.py"),("convert_json_key_in/out","normalize/record/json.py")],None,["AutoJsonRecord"])
p("C26","Empty placeholders never hide set values and are falsy all the way down",
 "The 'attribute0' form of a property returns the slot's value when it is set and otherwise a falsy placeholder on which any attribute, item, slice or call that the declared types (or their bases) allow gives again a falsy placeholder (with a typo or impossible access reported as an error), which gives no items when iterated over and to which nothing can be assigned. The form itself is read-only. Chains through placeholders give the real value exactly when every step of the path is set.",
 IN+CF,"all access chains in bounds through partially set nested records and collections, with typed, untyped and union declarations",
 "chains combine set and unset levels with type inference; tests follow three chains",
 ["normalize/empty.py","normalize/property/__init__.py"],[("EmptyVal","normalize/empty.py"),("EmptyAuxProp","normalize/property/__init__.py")],None,["x0 attributes","empty.placeholder"])
p("C27","Subtypes and typed properties accept and convert exactly their domain",
 "A value is an instance of a subtype exactly when it is an instance of the base type and satisfies the condition (recursively for subtypes of subtypes); constructing a subtype returns such a value unchanged, otherwise the coerced value if that conforms, and otherwise fails. The supplied integer, number, string, date and datetime properties store values of their kind only: conforming values unchanged, convertible ones converted to the equivalent value (a datetime assigned to a date property becomes its date), anything else refused, and dates and datetimes survive JSON output and input.",
 IN+CF,"all values of a mixed domain against all subtype stacks and supplied property types",
 "boundary values of each kind (bool, float, datetime vs date, numeric strings) crossed with each type",
 ["normalize/subtype.py","normalize/property/types.py"],[("subtype.__instancecheck__/__new__","normalize/subtype.py"),("coerce_* functions","normalize/property/types.py")],None,["isinstance","property assignment"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
