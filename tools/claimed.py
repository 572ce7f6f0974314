CLAIMED = {
    "C01": ("TLA+ state machine (Slot.tla), TLC, transition replay", "replay"),
    "C02": ("TLA+ state machine (Slot.tla), TLC, transition replay", "replay"),
    "C03": ("TLA+ state machine (Slot.tla), TLC, transition replay", "replay"),
    "C04": ("TLA+ state machine (Slot.tla), TLC, transition replay", "replay"),

    "C06": ("TLA+ state machine (ListColl.tla), TLC, transition replay and trace validation", "both"),
    "C07": ("TLA+ state machine (DictColl.tla), TLC, transition replay and trace validation", "both"),
    "C13": ("TLA+ document/selector model (Selector.tla), TLC, transition replay and trace validation", "both"),
    "C14": ("TLA+ document/selector model (Selector.tla), TLC, transition replay and trace validation", "both"),
    "C15": ("TLA+ selector value model with its text grammar and order (Path.tla), TLC, transition replay and trace validation", "both"),
    "C16": ("TLA+ location-set model (Mfs.tla), TLC, transition replay and trace validation", "both"),
    "C17": ("TLA+ document/multi-selector model (MfsDoc.tla), TLC, transition replay and trace validation", "both"),
    "C10": ("TLA+ model of typed JSON documents (JsonRec.tla), TLC, transition replay and trace validation", "both"),
    "C11": ("TLA+ model of typed JSON documents (JsonRec.tla), TLC, transition replay and trace validation", "both"),
    "C12": ("TLA+ model of typed JSON documents (JsonRec.tla), TLC, transition replay and trace validation", "both"),
    "C08": ("TLA+ object-graph model with equality and hashing (Heap.tla), TLC, transition replay and trace validation", "both"),
    "C09": ("TLA+ object-graph model with copy, pickle and repr as transitions (Heap.tla), TLC, transition replay and trace validation", "both"),
    "C18": ("TLA+ model of record comparison (Diff.tla) with equal/differ laws, TLC, transition replay and trace validation", "both"),
    "C19": ("TLA+ model of record comparison (Diff.tla) with the mirror law, TLC, transition replay and trace validation", "both"),
    "C20": ("TLA+ model of record comparison under options and filters (Diff.tla), TLC, transition replay and trace validation", "both"),
    "C21": ("TLA+ model of collection matching (Diff.tla) with the once-each law, TLC, transition replay and trace validation", "both"),
    "C22": ("TLA+ model of visits and casts (Visitor.tla) with the round-trip law, TLC, transition replay and trace validation", "both"),
    "C23": ("TLA+ model of visits, casts and reflection under filters and options (Visitor.tla), TLC, transition replay and trace validation", "both"),
    "C27": ("TLA+ models of the supplied property types (Typed.tla) and of subtypes (Subtype.tla), TLC, transition replay and trace validation", "both"),
    "C26": ("TLA+ model of chains through empty pseudo-attributes (Empty.tla), TLC, behaviour replay and trace validation", "both"),
    "C25": ("TLA+ model of auto JSON records and their key conversion (AutoRec.tla), TLC, transition replay and trace validation", "both"),
    "C24": ("TLA+ model of class declarations, inherited properties and primary keys (Classes.tla), TLC, transition replay and trace validation", "both"),
    "C05": ("TLA+ model of property declarations from sets of options (Traits.tla), TLC, transition replay in fresh processes with varied histories and spellings, and trace validation", "both"),
}
