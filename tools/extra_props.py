p("C25", "Custom and cloned classes form the hierarchy asked for",
  "Custom classes come as one new class per name, in the requested order (none, by index or by name), the interval classes linked to each other in the order of the list and the point classes outside of it; no call changes the classes of another. Cloning copies a whole hierarchy and leaves the original alone, linking two classes links both of them, and asking for the hierarchy of any class gives exactly its classes from top to bottom, however often and for whatever classes one asked before.",
  [I, C, H], "every list of names, order and choice of points, and every sequence of making, cloning, linking and asking",
  "Tests make two or three classes in one order; permutations, partial orders, points in between and repeated calls are not covered, and classes are global state.",
  [CC, SQ], [(CC, "custom_classes, clone_class, get_class_hierarchy"), (SQ, "set_superset_class, set_subset_class")])
p("C26", "A SequenceList stays a sorted list without duplicates of what was put in",
  "Whatever is appended (shifted or not), added, concatenated, removed or popped, a SequenceList holds exactly the entries put in and not taken out, sorted by time, of one class; its length, starts, ends, labels, indexing, slicing and membership agree with these. An entry equal to one it has is not put in twice; adding leaves both operands alone; concatenating and shifted appending move the new entries by the end of the list; entries of a class that does not fit are refused and nothing changes.",
  [H, I], "every pool of intervals or points, including negative times, equal entries and classes that are subclasses of each other, and every sequence of list operations",
  "Tests append and concatenate a few intervals with positive times in order.",
  [SL], [(SL, "append, concat, +, remove, pop, sorting, membership")])
p("C22", "PoLaR relations follow from times and labels",
  "In a PolarGrid each Levels point is linked, in both directions, with the TurningPoints point at its time and with no other, and knows the Ranges interval that contains its time; the values read from labels (level, certainty, status, override, low, high, six break points of the bands, and a level's band within its range) follow from the label alone. Tiers are reachable by class name and groups by Word_Phone, Points and RangesTier. Relating again or shifting the TextGrid changes none of this.",
  [I, C, H], "every placement of turning points, levels, prominences and ranges, empty tiers included, every order of tiers and groups",
  "Tests read one recording in which every level has its turning point and its range.",
  [PC, PG, PO], [(PC, "set_turning_point, set_level, set_range_interval, values of labels"), (PG, "relating levels, naming groups and tiers")])
